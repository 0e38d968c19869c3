"""Events: what is recorded for a declaration and the arguments given to it (Events.tla)."""
import json
import re

import mgr
import tlc
from contracts import DECO, Shop, Source

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)
TYPES = ['int', 'str', 'bytes', 'bool', 'Address', 'ref']
A1, A2 = '01' + '5a' * 20, '00' + 'c3' * 20


def i(v):
    b = mgr.enc_int(v)
    return ['i', b.hex(), len(b)]


def s(v):
    return ['s', v.encode().hex(), len(v.encode())]


def b(v):
    return ['b', v, len(v) // 2]


T, F, NOTHING = ['z', '01', 1], ['z', '00', 1], ['n', '', 0]
VALUES = {'int': [i(v) for v in (0, 1, 127, 128, 255, 256, -1, -128, -129, 2 ** 63, 2 ** 256, -2 ** 255, -2 ** 256 - 1)] + [T],
          'str': [s(v) for v in ('a', '', 'é', '한국', '\0', '\U0001f600x', 'a' * 60)],
          'bytes': [b(v) for v in ('00', '', 'ff' * 32, '01' * 21, '8000')],
          'bool': [T, F], 'Address': [['a', A1, 21], ['a', A2, 21]]}
VALUES['ref'] = VALUES['Address']
ALL = [i(5), s('5'), b('35'), T, ['a', A1, 21], NOTHING, i(0), s(''), b(''), F, ['l', '', 0], ['f', '', 0]]
NAMES = ['p', 'q', 'value', 'name', 'args', 'kwargs', 'func_name', 'indexed', '값', 'é', 'X', '_z', 'self_', 'calling_obj', 'parameters']
TABLES = [dict(schema=1, log=7, logBase=1001, eventLog=50021), dict(schema=0, log=50023, logBase=50033, eventLog=9), dict(schema=1, log=0, logBase=0, eventLog=5)]

CODE = '''
_MK = {'i': lambda h: int.from_bytes(bytes.fromhex(h), 'big', signed=True), 's': lambda h: bytes.fromhex(h).decode(), 'b': bytes.fromhex,
       'z': lambda h: h == '01', 'a': lambda h: Address.from_bytes(bytes.fromhex(h)), 'n': lambda h: None,
       'l': lambda h: [1], 'f': lambda h: 1.5}
def _v(v): return _MK[v[0]](v[1])
def _go(self, up, prog):
    out = []
    for n, pos, kw in _json.loads(prog):
        try:
            r = getattr(up, n)(*[_v(v) for v in pos], **{k: _v(v) for k, v in kw})
        except BaseException as e:
            if int(getattr(e, 'code', 0)) == 10: raise
            out.append([int(getattr(e, 'code', -1)), str(e)])
        else:
            out.append('ok' if r is None else 'odd')
    return [_json.dumps(out)]
'''
TAIL = '''
    @external
    def go(self, up: bool, prog: str):
        return _go(self, %s if up else self, prog)
'''


def literal(v):
    k, h = v[0], v[1]
    return {'i': lambda: str(mgr.dec_int(bytes.fromhex(h))), 's': lambda: repr(bytes.fromhex(h).decode()), 'b': lambda: repr(bytes.fromhex(h)),
            'z': lambda: str(h == '01'), 'a': lambda: 'Address.from_bytes(%r)' % bytes.fromhex(h), 'n': lambda: 'None'}[k]()


def text(d):
    ps = ['self']
    for n, t, v in d['ps']:
        ps.append('%s: %s%s' % (n, "'Address'" if t == 'ref' else t, '' if v[0] == 'no' else ' = ' + literal(v)))
    return '    %s\n    def %s(%s): pass\n' % (DECO['eventlog%s' % (d['x'] or '')], d['n'], ', '.join(ps))


def source(low, top):
    init = '    def __init__(self, db): super().__init__(db)\n'
    ins = '    def on_install(self): super().on_install()\n    def on_update(self): super().on_update()\n'
    return ('from iconservice import *\nimport json as _json\n' + CODE + 'class B(IconScoreBase):\n' + init + ins + ''.join(map(text, low)) +
            'class S(B):\n' + init + ''.join(map(text, top)) + TAIL % 'super()')


def declarations(rnd, two, longer):
    """every declaration of at most two parameters (or a part of them), and some with more"""
    shapes = []
    for n in range(3):
        for ts in ([()] if n == 0 else [(t,) for t in TYPES] if n == 1 else [(t, u) for t in TYPES for u in TYPES]):
            for x in range(n + 1):
                shapes += [(ts, x, k) for k in range(n + 1)]
    if two < 1:
        shapes = [q for q in shapes if len(q[0]) < 2 or rnd.random() < two]
    for _ in range(longer):
        n = rnd.choice([3, 3, 4, 5])
        shapes.append((tuple(rnd.choice(TYPES) for _ in range(n)), rnd.randint(0, 3), rnd.choice([0, 0, 1, 2, n])))
    out = []
    for k, (ts, x, defs) in enumerate(shapes):
        name = rnd.choice(['E%d', 'Transfer%d', 'Ev%d_', '전송%d', 'é%d', 'ICXTransfer%d']) % k
        names = rnd.sample(NAMES, len(ts))
        ps = []
        for j, t in enumerate(ts):
            d = ['no'] if j < len(ts) - defs else rnd.choice(VALUES[t] + [NOTHING]) if t != 'int' else rnd.choice(VALUES[t][:-1] + [NOTHING])
            ps.append([names[j], t, d])
        out.append({'n': name, 'ln': len(name.encode()), 'x': x, 'ps': ps})
    return out


def reserved(rnd):
    """names and types near those of the event which contracts may not record"""
    out = []
    types = [('Address', 'Address', 'int'), ('Address', 'ref', 'int'), ('ref', 'ref', 'int'), ('ref', 'Address', 'int'), ('Address', 'Address', 'Address'),
             ('Address', 'int', 'Address'), ('Address', 'Address'), ('Address', 'Address', 'int', 'int'), ('Address', 'Address', 'bool'),
             ('int', 'Address', 'Address'), ('Address', 'Address', 'str'), ()]
    for ts in types:
        for name in ('ICXTransfer', 'ICXtransfer', 'ICXTransfe', 'ICXTransferX', 'Transfer'):
            x = rnd.randint(0, min(3, len(ts)))
            defs = rnd.choice([0, 0, 1, len(ts)])
            ps = [[n, t, ['no'] if k < len(ts) - defs else rnd.choice(VALUES[t][:2])] for k, (n, t) in enumerate(zip(['from_', 'to', 'amount', 'more'], ts))]
            out.append({'n': name, 'ln': len(name), 'x': x, 'ps': ps})
    return out


def contracts(rnd, decls, size):
    """[(low, top)]: every declaration in one contract, in the lower or the upper class; names once per class"""
    out = []
    order = list(range(len(decls)))
    rnd.shuffle(order)
    for j in order:
        n = decls[j]['n']
        for low, top in out:
            side = [q for q in (low, top) if len(q) < size and n not in [decls[k]['n'] for k in q]]
            if len(low) + len(top) < size and side:
                rnd.choice(side).append(j)
                break
        else:
            out.append(([j], []) if rnd.random() < .4 else ([], [j]))
    return out


def esc(n):
    """TLC reads and writes ASCII"""
    return ''.join(c if ord(c) < 128 else '$%x;' % ord(c) for c in n)


def unesc(n):
    return re.sub(r'\$([0-9a-f]+);', lambda m: chr(int(m.group(1), 16)), n)


def specified(ctx, decls, what):
    decls = [dict(d, n=esc(d['n']), ps=[[esc(q[0])] + q[1:] for q in d['ps']]) for d in decls]
    run = tlc.run('EventsEnum', 'SPECIFICATION Spec\nINVARIANTS Whole Orderless\n',
                  {'events.json': json.dumps({'decls': decls, 'fit': VALUES, 'vals': ALL, 'unknown': ['zz', 'qq', 'a1', 'Zz'], 'tables': TABLES})})
    if run.violated:
        raise tlc.TlcError('events: %s does not hold of the specification' % run.violated)
    ctx.tlc(run, what)
    by = {}
    for x in run.lines:
        x['a']['kw'] = [[unesc(n), v] for n, v in x['a']['kw']]
        by.setdefault(x['j'] - 1, []).append(x)
    return by


def form(p):
    return None if p[1] else bytes.fromhex(p[0])


def wanted(o):
    return [[unesc(o['sig']).encode()] + [form(p) for p in o['ix']], [form(p) for p in o['data']]]


def events(ctx, two, longer, aspects=('events', 'steps'), what='events'):
    rnd = ctx.rng
    decls = declarations(rnd, two, longer) + reserved(rnd)
    by = specified(ctx, decls, what)
    with Shop() as shop:
        for low, top in contracts(rnd, decls, 30):
            src = source([decls[j] for j in low], [decls[j] for j in top])
            path = shop.package(src)
            names = [decls[j]['n'] for j in top]
            for side in (low, top):
                for j in side:
                    xs = list(by[j])
                    rnd.shuffle(xs)
                    up = side is low and (decls[j]['n'] in names or rnd.random() < .5)
                    for k in range(0, len(xs), 60):
                        for mode in ('whole', 'short', 'readonly')[:3 if k == 0 else 1]:
                            emit(ctx, shop, path, src, decls[j], xs[k:k + 60], up, mode, aspects, what)
            shop.drop(path)
    ctx.count('declarations of events', len(decls))
    ctx.count('events asked for', sum(map(len, by.values())))
    ctx.sample({'declaration': text(decls[-1]).strip(), 'asked': by[len(decls) - 1][0]['a'], 'specified': by[len(decls) - 1][0]['out']})


def emit(ctx, shop, path, src, d, xs, up, mode, aspects, what):
    rnd = ctx.rng
    t = rnd.randrange(len(TABLES))
    steps = [x['steps'][t] for x in xs]
    limit, upto, status = 10 ** 9, len(xs), 0
    if mode == 'short':
        dear = [k for k, n in enumerate(steps) if n]
        if not dear:
            return
        upto = rnd.choice(dear)
        limit, status = sum(steps[:upto]) + rnd.choice([0, steps[upto] - 1]), 10
    shop.world.costs = dict(TABLES[t], get=0, set=0, apiCall=0)
    prog = json.dumps([[d['n'], x['a']['pos'], x['a']['kw']] for x in xs])
    try:
        res = shop.call(path, 'go', [up, prog], readonly=mode == 'readonly', limit=limit)
    except FAIL as e:
        ctx.violation('%s: %s: %s' % (what, type(e).__name__, e), {'source': src, 'program': prog})
        shop.start()
        return
    ctx.traces += 1
    got = [q for y, m, q in shop.eng.trace if y == '<' and m == mgr.EVENT]
    oks = [x for x in xs[:upto] if x['out']['ok'] and mode != 'readonly']
    how = {'source': src, 'declaration': text(d), 'program': prog, 'readonly': mode == 'readonly', 'limit': limit, 'costs': TABLES[t]}
    if 'events' in aspects:
        want = [wanted(x['out']) for x in oks]
        if got != want:
            k = next((k for k, (p, q) in enumerate(zip(got + [None], want + [None])) if p != q))
            ctx.violation('%s: %s: recorded %r, specified %r' % (what, text(d).split('\n')[1].strip(), (got + [None])[k], (want + [None])[k]), how)
            return
        if res.status != status:
            ctx.violation('%s: %s: status %s (%r), specified %s' % (what, text(d).split('\n')[1].strip(), res.status, res.value, status), how)
            return
        if status == 0:
            for x, r in zip(xs, json.loads(res.value[0])):
                ok = x['out']['ok'] and mode != 'readonly'
                if ok != (r == 'ok') or (not ok and r[0] != 5):
                    ctx.violation('%s: %s given %s: %s, specified %s' % (
                        what, text(d).split('\n')[1].strip(), json.dumps(x['a'])[:300], r, 'a record' if ok else 'a refusal with 5'), how)
                    return
    if 'steps' in aspects and res.status == status:
        want = limit if status else sum(steps) if mode != 'readonly' else 0
        if res.steps != want:
            ctx.violation('%s: %s: %d steps used, specified %d' % (what, text(d).split('\n')[1].strip(), res.steps, want), how)


def replicas(ctx, longer, what='events on two nodes'):
    """The same records and the same refusals, word for word, on every node."""
    rnd = ctx.rng
    decls = declarations(rnd, .1, longer) + reserved(rnd)[:12]
    by = specified(ctx, decls, what)
    parts = [(low, top, source([decls[j] for j in low], [decls[j] for j in top])) for low, top in contracts(rnd, decls, 30)]
    first = {}
    for seed in ('0', '1', '77', '4242'):
        with Shop(env={'PYTHONHASHSEED': seed}) as shop:
            for low, top, src in parts:
                path = shop.package(src)
                for j in low + top:
                    if j in low and decls[j]['n'] in [decls[k]['n'] for k in top]:
                        continue
                    prog = json.dumps([[decls[j]['n'], x['a']['pos'], x['a']['kw']] for x in by[j]])
                    try:
                        shop.call(path, 'go', [False, prog], to=mgr.cx(7))
                    except FAIL as e:
                        ctx.violation('%s: %s: %s' % (what, type(e).__name__, e), {'source': src, 'program': prog})
                        shop.start()
                        continue
                    ctx.traces += 1
                    msgs = [(m, q) for y, m, q in shop.eng.trace if y == '<' and m != mgr.LOG]
                    want = first.setdefault(j, msgs)
                    if msgs != want:
                        k = next((k for k, (p, q) in enumerate(zip(msgs + [None], want + [None])) if p != q))
                        ctx.violation('%s: %s: one sends %.600r, another %.600r' % (what, text(decls[j]).split('\n')[1].strip(), (msgs + [None])[k], (want + [None])[k]),
                                      {'source': src, 'program': prog, 'PYTHONHASHSEED': ['0', seed]})
    ctx.count('events asked for on every node', sum(map(len, by.values())))
