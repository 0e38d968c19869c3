"""Running programs on the real engine and deciding them with the Machine
specification: recorded runs validated by TLC (MachineTrace), and behaviours
enumerated by TLC (MachineEnum) replayed on the engine."""
import json
import traceback

import machine
import mgr
import tlc
from machine import Rig, run_program

ALL = frozenset(('route', 'limit', 'results', 'events', 'calls', 'budget', 'fee', 'status', 'message', 'steps',
                 'overlimit', 'passed', 'value', 'readonly', 'frames', 'store', 'balance'))
TRACE_CFG = 'SPECIFICATION Spec\nINVARIANT TypeOK\n'
FAILURES = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)
ENGINE_ERRORS = FAILURES + (ValueError, KeyError, IndexError, TypeError, AttributeError, UnicodeDecodeError)


def run_all(ctx, progs, rig, what, check_quiet=True):
    """Run the programs; a run that kills, hangs or confuses the engine is a violation.
    Returns [(program, record)]."""
    out = []
    bad = 0
    for p in progs:
        try:
            out.append((p, run_program(rig, p)))
            if check_quiet and p.get('quiet', True) and (len(out) % 50 == 0):
                left = rig.eng.quiet(0.005)
                if left:
                    ctx.violation('the engine sent %s without being asked after a result' % mgr.NAMES.get(left[0][0]),
                                  {'program': p, 'messages': repr(left)})
        except ENGINE_ERRORS as e:
            # what the engine sent cannot be understood at all
            bad += 1
            ctx.violation('%s: %s: %s' % (what, type(e).__name__, str(e)[:300]),
                          {'program': p, 'trace': traceback.format_exc()[-2000:],
                           'messages': [(d, mgr.NAMES.get(m, m), repr(x)[:200]) for d, m, x in rig.eng.trace[-20:]]})
            if bad >= 3:
                break
            rig.start()
    return out


def validate(ctx, pairs, clauses=ALL, what='random programs', ignore=None, batch=400):
    """TLC's verdict on recorded runs; violations are restricted to `clauses`."""
    for i in range(0, len(pairs), batch):
        part = pairs[i:i + batch]
        r = tlc.run('MachineTrace', TRACE_CFG, {'traces.json': json.dumps([x for _, x in part])})
        ctx.tlc(r, what)
        verdicts = {x['verdict']: x['bad'] for x in r.lines if 'verdict' in x}
        if set(verdicts) != set(range(1, len(part) + 1)):
            raise tlc.TlcError('no verdict for some runs: %d of %d\n%s' % (len(verdicts), len(part), tlc.tail(r.out)))
        for t, bad in sorted(verdicts.items()):
            prog, rec = part[t - 1]
            hit = [b for b in bad if b[2] in clauses and not (ignore and ignore(prog, b))]
            if hit:
                explain(ctx, prog, rec, hit, what)
        ctx.traces += len(part)
    for p, rec in pairs[:2]:
        ctx.sample({'family': what, 'ops': [x['op'] for x in p['invs'][0]['ops']],
                    'status': [f['status'] for f in rec['invs'][0]['obs']],
                    'steps': [f['steps'] for f in rec['invs'][0]['obs']]})


def expected(rec):
    """What the specification computes for a recorded run (per invocation: obs, marks)."""
    g = dict(rec['g'])
    g['marks'] = True
    r = tlc.run('MachineTrace', TRACE_CFG, {'traces.json': json.dumps([dict(rec, g=g)])})
    return {x['k']: x for x in r.lines if 'k' in x}


def explain(ctx, prog, rec, hit, what):
    k, frame, clause = sorted(hit)[0]
    exp = {}
    try:
        exp = expected(rec)
    except Exception as e:
        exp = {'error': str(e)}
    obs = rec['invs'][k - 1]['obs']
    text = '%s: invocation %d, frame %d: %s differ from the specification' % (
        what, k, frame, ', '.join(sorted({h[2] for h in hit})))
    names = dict(results='res', events='ev', steps='steps', status='status', message='msg', value='val',
                 calls='calls', budget='calls', fee='fee', limit='limit')
    try:
        if frame and clause in names:
            f = names[clause]
            a, b = exp[k]['obs'][frame - 1][f], obs[frame - 1][f]
            if f in ('res', 'ev', 'calls'):
                for j in range(max(len(a), len(b))):
                    x = a[j] if j < len(a) else None
                    y = b[j] if j < len(b) else None
                    if x != y and not (x and y and f == 'res' and same_results([x], [y])):
                        text += '; %s[%d]: specified %s, observed %s' % (f, j, json.dumps(x), json.dumps(y))
                        break
            else:
                text += '; %s: specified %s, observed %s' % (f, json.dumps(a), json.dumps(b))
    except Exception:
        pass
    ctx.violation(text, {'program': prog, 'hit': hit, 'observed': rec['invs'], 'specified': exp})


def compute(ctx, pairs, what='specified marks'):
    """Per run, the specification's step marks of the first invocation's first frame."""
    recs = []
    for _, rec in pairs:
        g = dict(rec['g'])
        g['marks'] = True
        recs.append(dict(rec, g=g))
    out = {}
    for i in range(0, len(recs), 400):
        r = tlc.run('MachineTrace', TRACE_CFG, {'traces.json': json.dumps(recs[i:i + 400])})
        ctx.tlc(r, what)
        for x in r.lines:
            if 'k' in x and x['k'] == 1:
                out[i + x['t'] - 1] = x
    return out


def setup(rig, costs, to='c1', m='run', value=0, limit=10_000_000, ro=False, bal=None, init=None, faults=None,
          js=False, frm='e1'):
    w = rig.world(costs, js, bal)
    setup.n += 1
    rig.vary(w, setup.n)
    return {'costs': costs, 'to': to, 'm': m, 'value': value, 'limit': limit, 'ro': ro, 'bal': bal or {'c1': 10},
            'w': setup.n, 'init': init or {}, 'store': init or {}, 'faults': {str(k): list(v) for k, v in (faults or {}).items()},
            'js': js, 'from': frm, 'ops': [], 'eoas': ['e%d' % i for i in range(1, 10)],
            'contracts': machine.CONTRACTS, 'ctx': machine.ctx_of(w)}


setup.n = 0


# ---- behaviours enumerated by TLC ------------------------------------------------
def enumerate_runs(ctx, letters, setups, length, what, invariants=('Budget', 'ReadOnlyFrames', 'Conserved', 'Balanced'),
                   properties=('Rollback', 'Charged'), minlen=0, limits=None, heap='10g', timeout=850):
    """All programs of at most `length` letters in every setup, as TLC explores them.
    letters: operations; setups: dict(costs, js, bal, store, to, m, from, value, limit, ro).
    Returns [(setup index, letter indices, expectation)]."""
    data = {'letters': [machine.tla_ops([x])[0] if isinstance(x, dict) else machine.tla_ops(x) for x in letters],
            'setups': setups, 'maxlen': length, 'minlen': minlen, 'limits': limits or []}
    data['letters'] = [x if isinstance(x, list) else [x] for x in data['letters']]
    cfg = 'SPECIFICATION Spec\n' + ''.join('INVARIANT %s\n' % x for x in invariants) + ''.join('PROPERTY %s\n' % x for x in properties)
    r = tlc.run('MachineEnum', cfg, {'enum.json': json.dumps(data)}, heap=heap, timeout=timeout)
    ctx.tlc(r, what)
    if r.violated:
        ctx.violation('%s: the specification itself violates %s' % (what, r.violated), {'tlc': tlc.tail(r.out, 80)})
    return [(x['s'] - 1, [i - 1 for i in x['p']], x) for x in r.lines if 'p' in x]


def same_results(xs, os):
    return len(xs) == len(os) and all(
        a == b or (a[0] == 'ex' and b[0] == 'ex' and a[3] == '*' and a[1:3] == b[1:3]) for a, b in zip(xs, os))


def diff(x, o):
    """The clauses of MachineTrace!Diff, for a computed and an observed frame."""
    bad = set()
    for f, n in (('to', 'route'), ('m', 'route'), ('flag', 'route'), ('value', 'route'), ('limit', 'limit'),
                 ('ev', 'events'), ('status', 'status'), ('steps', 'steps')):
        if x[f] != o[f]:
            bad.add(n)
    if not same_results(x['res'], o['res']):
        bad.add('results')
    cut = lambda cs: [[c[0], c[1], c[3], c[4]] for c in cs]
    if cut(x['calls']) != cut(o['calls']):
        bad.add('calls')
    elif [c[2] for c in x['calls']] != [c[2] for c in o['calls']]:
        bad.add('budget')
    if x['scans'] != o['scans']:
        bad.add('budget')
    if (x['status'] == 0 and x['fee'] != o['fee']) or o['nfee'] > 1:
        bad.add('fee')
    if x['status'] != 0 and x['msg'] != '*' and x['msg'] != o['msg']:
        bad.add('message')
    if x['status'] != 0 and o['status'] == 0:
        bad.add('passed')
    if o['steps'] > o['limit']:
        bad.add('overlimit')
    if x['status'] == 0 and x['val'] != o['val']:
        bad.add('value')
    if (o['flag'] or o['m'] == 'ask') and (o['nw'] > 0 or o['ev']):
        bad.add('readonly')
    return bad


def replay_enum(ctx, rig, letters, setups, runs, clauses, what):
    """Run every enumerated program on the engine and compare with what TLC computed."""
    n = fail = 0
    for s, ids, x in runs:
        su = setups[s]
        ops = []
        for i in ids:
            ops += letters[i] if isinstance(letters[i], list) else [letters[i]]
        lim = x.get('limit', su['limit'])
        prog = dict(costs=su['costs'], js=su.get('js', False), bal=su['bal'], init=su.get('init', {}),
                    invs=[dict(to=su['to'], m=su['m'], value=su['value'], limit=lim, ro=su['ro'], ops=ops, w=su['w'],
                               faults=su.get('faults', {}), **{'from': su['from']})])
        try:
            rec = run_program(rig, prog)
        except ENGINE_ERRORS as e:
            fail += 1
            ctx.violation('%s: %s: %s' % (what, type(e).__name__, str(e)[:300]),
                          {'program': prog, 'trace': traceback.format_exc()[-2000:]})
            if fail >= 3:
                break
            rig.start()
            continue
        n += 1
        inv = rec['invs'][0]
        bad = set()
        if len(x['obs']) != len(inv['obs']):
            bad.add('frames')
        for a, b in zip(x['obs'], inv['obs']):
            bad |= diff(a, b)
        st, bl = x['store'] or {}, x['bal'] or {}     # an empty function is printed as []
        if any((st.get(c) or {}) != inv['after'][c] for c in inv['after']):
            bad.add('store')
        if any(bl.get(a, 0) != v for a, v in inv['balafter'].items()):
            bad.add('balance')
        bad &= clauses
        if bad:
            fail += 1
            ctx.violation('%s: %s differ from the specification: %s' % (
                what, ', '.join(sorted(bad)), json.dumps([o['op'] for o in ops])),
                {'program': prog, 'observed': inv, 'specified': x})
            if fail > 20:
                break
    ctx.traces += n
    ctx.count('%s: enumerated and replayed' % what, n)
    if runs:
        s, ids, x = runs[len(runs) // 2]
        ctx.sample({'family': what, 'letters': ids, 'status': [f['status'] for f in x['obs']],
                    'steps': [f['steps'] for f in x['obs']]})
