"""Running TLC and reading what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

JAR = '/opt/veriftools/tla/tla2tools.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcError(Exception):
    pass


def jar_path():
    d = os.path.dirname(JAR)
    cands = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.jar')]
    return ':'.join([JAR] + [c for c in cands if c != JAR])


class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.initial = 0
        self.lines = []        # JSON values printed by the specification
        self.violated = None   # name of the violated invariant/property
        self.out = ''


def run(module, cfg, files=None, workers=8, timeout=600, simulate=None, depth=None, seed=1,
        deadlock=False, heap='6g', env=None, stack='64m', extra=()):
    """Check spec/<module>.tla with the given configuration text.  `files` are put
    beside it (name -> text).  A line printed as "@@ <json>" is collected."""
    tmp = tempfile.mkdtemp(prefix='tlc.')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), tmp)
        for n, t in (files or {}).items():
            with open(os.path.join(tmp, n), 'w') as fh:
                fh.write(t)
        with open(os.path.join(tmp, 'run.cfg'), 'w') as fh:
            fh.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + tmp, '-Xmx' + heap, '-Xss' + stack, '-cp', jar_path(), 'tlc2.TLC',
               '-config', 'run.cfg', '-workers', str(workers), '-metadir', os.path.join(tmp, 'meta'),
               '-noGenerateSpecTE']
        if not deadlock:
            cmd.append('-deadlock')
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100), '-seed', str(seed)]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, env=e, text=True, errors='replace')
        except subprocess.TimeoutExpired as ex:
            raise TlcError('TLC timed out on %s' % module) from ex
        r = TlcResult()
        r.out = p.stdout
        for ln in p.stdout.splitlines():
            i = ln.find('@@ ')
            if i >= 0 and i <= 1:
                t = ln[i + 3:]
                if ln.startswith('"'):
                    t = json.loads(ln)[3:]
                r.lines.append(json.loads(t))
        m = re.findall(r'(\d+) states generated(?:.*?), (\d+) distinct states found', p.stdout)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r'The number of states generated: (\d+)', p.stdout)
        if m:
            r.states = r.distinct = int(m.group(1))
        m = re.findall(r'Finished computing initial states: (\d+)', p.stdout)
        r.initial = int(m[-1]) if m else 1
        m = re.search(r'(?:Invariant|Action property|Temporal properties|property) (\S+) (?:is|was) violated', p.stdout)
        if m:
            r.violated = m.group(1)
        elif p.returncode != 0:
            raise TlcError("TLC failed on %s (%d):\n%s" % (module, p.returncode, headtail(p.stdout)))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tail(s, n=40):
    ls = [x for x in s.splitlines() if '@@ ' not in x]
    return '\n'.join(ls[-n:])


def headtail(s):
    ls = [x for x in s.splitlines() if '@@ ' not in x]
    i = next((n for n, x in enumerate(ls) if x.startswith('Error')), 0)
    return '\n'.join(ls[i:i + 30] + ['...'] + ls[-15:])
