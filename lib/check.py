"""What every check shares: tier, seed, budget, counters, evidence, verdict."""
import json
import os
import random
import subprocess
import sys
import time
import traceback

import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.md')


def known_findings(pid):
    """Lines "finding: property=<id> key=<key> <text>" of the committed file."""
    out = {}
    try:
        with open(KNOWN) as f:
            for ln in f:
                if ln.startswith('finding: property=%s ' % pid):
                    rest = ln.strip().split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    out[key.partition('=')[2]] = text
    except FileNotFoundError:
        pass
    return out


class Enough(Exception):
    """Many violations have been shown; more of them would say nothing new."""


class Ctx:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.detail = {}
        self.nviol = 0
        self.known = known_findings(pid)
        self.seen_known = set()
        self.assumptions = []
        self.exhaustive = None
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)

    @property
    def quick(self):
        return self.tier == 'quick'

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def tlc(self, r, what=None):
        """Account for a TLC run."""
        self.states += r.distinct
        self.transitions += max(0, r.states - r.initial)
        if what:
            k = 'TLC states, ' + what
            self.detail[k] = self.detail.get(k, 0) + r.distinct

    def count(self, what, n=1):
        self.detail[what] = self.detail.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """One thing that does not hold.  `key` identifies it among the known findings."""
        if key is not None and key in self.known:
            if key not in self.seen_known:
                self.seen_known.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]), flush=True)
            return
        self.nviol += 1
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (self.pid, self.nviol))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'what': what, 'replay': replay},
                      f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
        print('  ' + what[:400], flush=True)
        if self.nviol >= int(os.environ.get('VERIF_ENOUGH', '20')):
            raise Enough('%d violations' % self.nviol)

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none']}
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        cov['detail'] = self.detail
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2), 'violations': self.nviol}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d states, %d traces against the engine, %d violations, %.1fs' % (
            self.pid, self.tier, self.states, self.traces, self.nviol, self.elapsed()), flush=True)
        return 1 if self.nviol else 0


def main(pid, fn, level='model_checking'):
    ctx = Ctx(pid, level)
    rc = 2
    try:
        try:
            fn(ctx)
        except Enough as e:
            print('  stopped after %s' % e, flush=True)
        except (tlc.TlcError, OSError, MemoryError, subprocess.SubprocessError):
            if not isinstance(sys.exc_info()[1], ConnectionError):
                raise                   # a failure of the machinery
            ctx.violation('the engine closed the connection', {'traceback': traceback.format_exc()})
        except Exception as e:
            # the engine died, fell silent or said something no reader of its answers can make sense of
            traceback.print_exc()
            try:
                ctx.violation('the engine could not be driven to the end: %s: %s' % (type(e).__name__, str(e)[-300:]),
                              {'traceback': traceback.format_exc()})
            except Enough:
                pass
        rc = ctx.finish()
    except BaseException:
        traceback.print_exc()
        try:
            # violations already shown stand; otherwise this is a failure of the machinery
            rc = ctx.finish()
            rc = 1 if ctx.nviol else 2
        except Exception:
            traceback.print_exc()
    sys.stdout.flush()
    sys.exit(rc)
