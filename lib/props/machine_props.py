"""The properties decided with the abstract machine (spec/Machine.tla)."""
import itertools
import random

import gen
import machine
import mcheck
import tlc
from gen import Gen
from machine import C, FLOAT, FREE, K, NIL, PROD, TINY, V0, V0G, Rig, costs, va, vb, vi, vs, vz
from mcheck import ALL
from . import call_props

X = C('V', 'x', 'i')
S = C('V', 'y', 's')
D1 = C('D', 'd', 's', 1)
D2 = C('D', 'd2', 'i', 2)
A = C('A', 'arr', 'i')


def L(op, **k):
    return dict(op=op, **k)


def call(to, *body, how='call', m='run', v=0):
    o = dict(op='call', how=how, to=to, v=v)
    if how not in ('send', 'transfer', 'fb'):
        o['m'] = m
        o['body'] = list(body)
    return o


def random_progs(ctx, n, faults=0.0, mk=None, prog=None, **genkw):
    out = []
    for _ in range(n):
        g = Gen(ctx.rng, **genkw)
        p = g.prog(**(prog or {})) if mk is None else mk(g)
        if faults:
            for i in p['invs']:
                i['faults'] = g.faults(faults)
        out.append(p)
    return out


def fuzz(ctx, rig, n, clauses, what='random programs', **kw):
    pairs = mcheck.run_all(ctx, random_progs(ctx, n, **kw), rig, what)
    mcheck.validate(ctx, pairs, clauses, what)
    ctx.count(what, len(pairs))
    return pairs


def enum(ctx, rig, letters, setups, length, clauses, what, **kw):
    runs = mcheck.enumerate_runs(ctx, letters, setups, length, what, **kw)
    want = 0
    if not kw.get('minlen') and not kw.get('limits'):
        want = sum(len(letters) ** i for i in range(length + 1)) * len(setups)
        if len(runs) != want:
            raise tlc.TlcError('%s: %d of %d programs' % (what, len(runs), want))
    mcheck.replay_enum(ctx, rig, letters, setups, runs, clauses, what)
    return runs


# ---------------------------------------------------------------- C03 containers
def c03(ctx):
    cl = frozenset(('results', 'store', 'value', 'status', 'frames'))
    with Rig(timeout=60) as rig:
        st = [mcheck.setup(rig, PROD), mcheck.setup(rig, FREE)]
        arr = [L('aput', c=A, v=vi(1)), L('aput', c=A, v=vi(300)), L('apop', c=A), L('aset', c=A, i=0, v=vi(7)),
               L('aset', c=A, i=-1, v=vi(9)), L('aset', c=A, i=-2, v=vi(11)), L('aget', c=A, i=-1), L('aget', c=A, i=1), L('ahas', c=A, v=vi(7)),
               L('alen', c=A), L('aiter', c=A), L('aiterw', c=A, at=0, w=[L('aput', c=A, v=vi(2)), L('aset', c=A, i=1, v=vi(3))]),
               L('aiterw', c=A, at=0, w=[L('apop', c=A), L('aset', c=A, i=0, v=vi(4))])]
        n = ctx.scale(3, 4)
        enum(ctx, rig, arr, st[:1], n, cl, 'array programs')
        dic = [L('dset', c=D2, k=[K('i', 1), K('s', '')], v=vi(5)), L('dset', c=D2, k=[K('i', 1), K('i', 1)], v=vi(0)),
               L('dget', c=D2, k=[K('i', 1), K('s', '')]), L('ddel', c=D2, k=[K('i', 1), K('s', '')]),
               L('ddel', c=D2, k=[K('i', 1)]), L('dhas', c=D2, k=[K('i', 1), K('s', '')]),
               L('dhas', c=D2, k=[K('i', 1)]), L('dset', c=C('D', 'd2', 'i', 1), k=[K('i', 1)], v=vi(-1)),
               L('dget', c=D2, k=[K('s', ''), K('i', 1)]), L('dset', c=D2, k=[K('i', 1), ['n', '', '']], v=vi(1)),
               L('dhas', c=D2, k=[K('i', 1), K('i', 1)]), L('dset', c=C('D', 'd6', 'i', 6), k=[K('i', x) for x in range(6)], v=vi(6)),
               L('dget', c=C('D', 'd6', 'i', 6), k=[K('i', x) for x in range(6)]), L('dset', c=C('D', 'd6', 'i', 6), k=[K('i', x) for x in range(5)], v=vi(6))]
        enum(ctx, rig, dic, st[1:], n, cl, 'dictionary programs')
        # empty and null-like values are values: they are members, and elements
        D3, D4, A2, A3 = C('D', 'e', 's', 1), C('D', 'e4', 'b', 1), C('A', 'ea', 's'), C('A', 'eb', 'z')
        emp = [L('dset', c=D3, k=[K('i', 0)], v=vs('')), L('dhas', c=D3, k=[K('i', 0)]), L('dget', c=D3, k=[K('i', 0)]), L('ddel', c=D3, k=[K('i', 0)]),
               L('dset', c=D4, k=[K('s', '')], v=vb(b'')), L('dhas', c=D4, k=[K('s', '')]), L('dget', c=D4, k=[K('s', '')]),
               L('aput', c=A2, v=vs('')), L('ahas', c=A2, v=vs('')), L('apop', c=A2), L('aput', c=A3, v=vz(False)), L('ahas', c=A3, v=vz(False)),
               L('aiter', c=A3), L('ahas', c=A3, v=vi(0)), L('ahas', c=A, v=vz(True)), L('aput', c=A, v=vi(1)), L('aget', c=A2, i=0), L('aiter', c=A2)]
        enum(ctx, rig, emp, st[1:], n, cl, 'empty values')
        var = [L('vset', c=S, v=vs('')), L('vset', c=S, v=vs('ab')), L('vget', c=S), L('vdel', c=S),
               L('vset', c=C('V', 'y', 's', 1, ('aa',)), v=vs('q')), L('vget', c=C('V', 'y', 's', 1, ('aa',))),
               L('dset', c=C('D', 'y', 's', 1), k=[K('b', 'aa')], v=vs('z')), L('dget', c=C('D', 'y', 's', 1), k=[K('b', 'aa')]),
               L('vset', c=S, v=NIL), call('c1', L('vset', c=S, v=vs('r')), L('revert', m='m')),
               call('c2', L('vset', c=S, v=vs('other')))]
        enum(ctx, rig, var, st[:1], n, cl, 'variable programs')
        # arrays of sizes at which the encodings of sizes and indices change their lengths
        big = [L('aput', c=A, v=vi(1)), L('apop', c=A), L('aget', c=A, i=-1), L('aset', c=A, i=-2, v=vi(9)), L('alen', c=A), L('aget', c=A, i=127),
               L('aget', c=A, i=32768)]
        st = [mcheck.setup(rig, TINY, limit=10**8, init={'c1': {'A/arr/#': vi(n), 'A/arr/' + machine._index(n - 1): vi(5), 'A/arr/' + machine._index(n - 2): vi(300)}})
              for n in (127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536)]
        enum(ctx, rig, big, st, ctx.scale(2, 3), cl, 'large arrays')
        w = dict(v=5, d=7, a=9, call=2, ret=1, tr=2, fail=.4)
        fuzz(ctx, rig, ctx.scale(1000, 6000), cl, weights=w, depth=2, size=14, prog=dict(n=3))


# ---------------------------------------------------------------- C05 read-only
def c05(ctx):
    cl = frozenset(('readonly', 'store', 'balance', 'status', 'route', 'frames', 'results', 'events', 'fee'))
    with Rig(timeout=60) as rig:
        wr = [L('vset', c=X, v=vi(5)), L('vdel', c=X), L('aput', c=A, v=vi(1)), L('dset', c=D1, k=[K('i', 1)], v=vs('a')),
              L('ev', e='E1', args=[vi(3)]), L('fee', v=10), call('e2', how='transfer', v=1), L('vget', c=X),
              call('c2', L('vset', c=X, v=vi(1))), call('c2', L('ev', e='E0', args=[]), how='iface'),
              call('c2', L('vset', c=X, v=vi(1)), m='ask'),
              call('c2', L('vget', c=X), call('c1', L('vset', c=X, v=vi(2))), m='ask', how='ifacekw'), L('try', n=1)]
        init = {'c1': {'V/x': vi(9)}}
        st = [mcheck.setup(rig, PROD, ro=True, init=init), mcheck.setup(rig, PROD, m='ask', ro=True, init=init),
              mcheck.setup(rig, TINY, m='ask', ro=False, init=init), mcheck.setup(rig, TINY, init=init)]
        enum(ctx, rig, wr, st, ctx.scale(2, 3), cl, 'effects in read-only frames')

        def mk(g):
            # read-only at the top, or through a method declared read-only below
            p = g.prog(n=2, init={'c1': {'V/x': vi(5)}, 'c2': {'A/arr/#': vi(1), 'A/arr/00': vi(4)}})
            for i in p['invs']:
                if ctx.rng.random() < .5:
                    i['ro'], i['value'] = True, 0
                else:
                    i['ops'] = [dict(op='try', n=1), call('c2', *g.ops(2), m='ask')] + i['ops']
            return p
        w = dict(v=5, d=4, a=5, ev=4, call=5, fee=2, ret=1, tr=6, icx=1)
        fuzz(ctx, rig, ctx.scale(1600, 6000), cl, 'random programs in read-only frames', mk=mk, weights=w, depth=3, size=8)


def at_marks(ctx, rig, progs, clauses, most, what='runs at the step marks'):
    """The programs of one invocation again under limits at which they just pass or just
    fail: the step marks the specification computes for them, one below, one above, and
    anywhere between."""
    r = ctx.rng
    pairs = mcheck.run_all(ctx, progs, rig, 'ample limits')
    exp = mcheck.compute(ctx, pairs)
    tight = []
    for n, (p, _) in enumerate(pairs):
        pts = sorted({x for m in exp[n]['marks'] for x in (m - 1, m, m + 1) if x >= 0})
        pick = set(r.sample(pts, min(len(pts), most)))
        if pts:
            pick |= {r.randint(0, max(pts)) for _ in range(3)}
        for x in sorted(pick):
            tight.append(dict(p, invs=[dict(p['invs'][0], limit=x)]))
    pairs = mcheck.run_all(ctx, tight, rig, what)
    mcheck.validate(ctx, pairs, clauses, what)
    ctx.count(what, len(pairs))
    return pairs


# ------------------------------------------------------------------ C06 steps
def c06(ctx):
    cl = frozenset(('steps', 'frames'))
    with Rig(timeout=60) as rig:
        init = {'c1': {'V/x': vi(300), 'V/y': vs('hello'), 'A/arr/#': vi(2), 'A/arr/00': vi(4), 'A/arr/01': vi(70000)}}
        st = [mcheck.setup(rig, c, init=init, js=j) for c, j in ((PROD, False), (V0, True), (V0G, False), (TINY, True))]
        le = [L('vset', c=X, v=vi(5)), L('vset', c=X, v=vi(70000)), L('vget', c=X), L('vdel', c=X),
              L('vset', c=S, v=vs('')), L('vset', c=S, v=vs('abc' * 20)), L('aput', c=A, v=vi(1)), L('apop', c=A),
              L('ahas', c=A, v=vi(70000)), L('ahas', c=A, v=vi(99)), L('aget', c=A, i=-1),
              L('ev', e='E2', args=[vs('ab'), NIL]), L('ev', e='E1', args=[vi(300)]),
              L('hash', n=33, f='sha3'), L('hash', n=0, f='sha2'), L('jd', n=9), L('jl', n=31), L('cak', n=33, p=2),
              L('cak', n=65, p=4), L('rk'), call('e2', how='send', v=1), call('c2', L('vset', c=X, v=vi(1))),
              call('c1', L('vset', c=X, v=vi(1)), L('revert', m=''), m='run')]
        enum(ctx, rig, le, st, 2, cl, 'charged operations')
        w = dict(v=6, d=5, a=8, ev=4, call=3, util=4, tr=1, fail=.2, ret=1)
        fuzz(ctx, rig, ctx.scale(1200, 5000), cl, weights=w, depth=3, size=12, faults=.05)

        def mk(g):
            g.r.random()
            t = costs(schema=g.r.choice([0, 1, 1]), get=g.r.randint(0, 9), getBase=g.r.randint(0, 90),
                      set=g.r.randint(1, 40), setBase=g.r.randint(0, 99) * 2, replace=g.r.randint(0, 1),
                      delete=-g.r.randint(0, 9), deleteBase=(g.r.randint(0, 29) * 2 + 1) * g.r.choice([1, 1, -1]), eventLog=g.r.randint(0, 9),
                      log=g.r.randint(0, 9), logBase=g.r.randint(0, 90), apiCall=g.r.randint(0, 9999),
                      contractCall=g.r.randint(0, 999))
            return g.prog(n=2, table=t)
        fuzz(ctx, rig, ctx.scale(800, 3000), cl, 'random cost tables', mk=mk, weights=w, depth=2, size=10)

        # what is charged up to the point where the steps end, in every layout of the tables
        progs = []
        for _ in range(ctx.scale(120, 500)):
            g = Gen(ctx.rng, weights=dict(v=9, d=4, a=7, ev=3, call=2, util=2, tr=1.5), depth=2, size=9)
            p = g.prog(n=1, table=ctx.rng.choice([V0, V0G, V0, PROD, TINY]))
            p['invs'][0].update(ro=False, m='run')
            p['init'] = {'c1': dict(init['c1'], **{'V/z': vi(0)})}
            progs.append(p)
        at_marks(ctx, rig, progs, cl, ctx.scale(10, 24))


# ----------------------------------------------------------------- C07 limits
def c07(ctx):
    cl = frozenset(('steps', 'status', 'overlimit', 'results', 'store', 'frames', 'events', 'budget'))
    r = ctx.rng
    with Rig(timeout=60) as rig:
        init = {'c1': {'V/x': vi(300), 'A/arr/#': vi(1), 'A/arr/00': vi(4)}}
        # exhaustive: every limit around the costs of short programs
        le = [L('vset', c=X, v=vi(5)), L('vset', c=X, v=vi(70000)), L('vget', c=X), L('vdel', c=X),
              L('aput', c=A, v=vi(1)), L('apop', c=A), L('ahas', c=A, v=vi(99)), L('ev', e='E0', args=[]),
              call('c2', L('vset', c=X, v=vi(1))), L('try', n=1), call('e2', how='send', v=1)]
        st = [mcheck.setup(rig, t, init=init) for t in (TINY,)]
        lims = list(range(0, ctx.scale(60, 90), ctx.scale(3, 1))) if not ctx.quick else [0, 5, 11, 13, 14, 15, 17, 19, 21, 23, 27, 30, 33, 37, 44, 60]
        enum(ctx, rig, le, st, 2, cl, 'every small limit', limits=lims, minlen=1)

        # the exact points where a run passes or fails: the step marks the specification
        # computes for it, at each of them and one below
        w = dict(v=6, d=4, a=7, ev=3, call=3, util=2, tr=.5, ret=.5)
        progs = []
        for _ in range(ctx.scale(150, 500)):
            g = Gen(r, weights=w, depth=2, size=9, empty=False)
            p = g.prog(n=1, table=r.choice([PROD, V0, V0G, TINY]))
            i = p['invs'][0]
            i['ro'] = r.random() < .1
            i['m'] = 'run'
            p['init'] = {'c1': {'V/x': vi(300), 'V/y': vs('hello'), 'A/arr/#': vi(2), 'A/arr/00': vi(4), 'A/arr/01': vi(7)}}
            progs.append(p)
        pairs = at_marks(ctx, rig, progs, cl, ctx.scale(10, 24))
        out = sum(1 for _, x in pairs if x['invs'][0]['obs'][0]['status'] == 10)
        ctx.count('of them out of step', out)

        # deletions that cost: found out late, but never lost
        dl = costs(schema=1, get=1, getBase=2, set=3, setBase=500, delete=2, deleteBase=5, log=1, logBase=3,
                   apiCall=10, contractCall=5)
        w2 = dict(v=8, d=6, a=6, call=1.5)
        progs = []
        for _ in range(ctx.scale(200, 600)):
            g = Gen(r, weights=w2, depth=1, size=9, empty=True, small=True)
            p = g.prog(n=1, table=dl)
            p['invs'][0].update(ro=False, m='run')
            p['init'] = {'c1': {'V/x': vi(300), 'V/y': vs(''), 'D/d2/01/01': vi(4), 'A/arr/#': vi(1), 'A/arr/00': vi(4)}}
            progs.append(p)
        # (an operation may fail for another reason before the lack of steps is found)
        late = frozenset(('steps', 'passed', 'overlimit', 'store', 'value', 'budget'))
        le = [L('vdel', c=X), L('vdel', c=S), L('ddel', c=D1, k=[K('s', '')]), L('apop', c=A), L('vget', c=X), L('vset', c=X, v=vi(5)),
              L('ev', e='E0', args=[]), call('c2', L('vdel', c=S))]
        c2 = costs(schema=1, get=0, getBase=1, set=1, setBase=12, delete=1, deleteBase=3, log=1, logBase=1, apiCall=1, contractCall=2)
        st = [mcheck.setup(rig, c2, init={a: dict(init['c1'], **{'V/y': vs('hello'), 'D/d/': vi(4)}) for a in ('c1', 'c2')})]
        enum(ctx, rig, le, st, 2, late, 'costly deletions under every small limit', limits=list(range(0, 33)), minlen=1)
        at_marks(ctx, rig, progs, late, 6, 'costly deletions at the step marks')


# ----------------------------------------------------------------- C08 budget
def c08(ctx):
    cl = frozenset(('limit', 'budget', 'overlimit', 'steps', 'frames', 'calls'))
    r = ctx.rng
    with Rig(timeout=60) as rig:
        le = [L('vset', c=X, v=vi(5)), L('vset', c=X, v=vi(70000)), call('c2'), call('c2', L('vset', c=X, v=vi(1)), how='iface'),
              call('c2', call('c1', L('vset', c=X, v=vi(1)), how='ifacekw')), call('e2', how='send', v=1),
              call('c1', L('vset', c=X, v=vi(1)), L('revert', m='m')), call('c1', how='fb', v=1), L('try', n=1),
              call('c2', L('vset', c=X, v=vi(1)), m='ask'), call('c9', how='send', v=0)]
        st = [mcheck.setup(rig, PROD), mcheck.setup(rig, TINY, limit=200)]
        for f in ({1: (0, -3, '')}, {1: (10, -1, 'x'), 2: (0, 7, '')}, {1: (32, 5, 'no'), 2: (0, 0, '')}):
            st.append(mcheck.setup(rig, TINY, limit=200, faults=f))
        enum(ctx, rig, le, st, ctx.scale(2, 3), cl, 'call trees')
        lims = list(range(0, 80, ctx.scale(7, 2)))
        enum(ctx, rig, le[:9], [mcheck.setup(rig, TINY)], 2, cl, 'call trees under every small limit', limits=lims, minlen=1)
        w = dict(v=4, a=3, call=8, icx=1, tr=3, util=1, fail=.5)
        fuzz(ctx, rig, ctx.scale(1000, 4000), cl, weights=w, depth=5, size=6, faults=.1)

        def mk(g):
            p = g.prog(n=1, table=g.r.choice([PROD, TINY, V0]))
            p['invs'][0]['limit'] = g.r.choice([g.r.randint(0, 300), g.r.randint(0, 300_000)])
            return p
        fuzz(ctx, rig, ctx.scale(1000, 4000), cl, 'random limits', mk=mk, weights=w, depth=4, size=6, empty=False)


# ---------------------------------------------------------------- C09 contexts
def c09(ctx):
    cl = frozenset(('results', 'route', 'steps', 'store', 'fee', 'status', 'frames', 'value', 'balance'))
    with Rig(timeout=60) as rig:
        inner = [L('ctx'), L('vset', c=X, v=vi(3)), L('fee', v=7)]
        le = [L('ctx'), L('vset', c=X, v=vi(1)), L('vget', c=X), L('feeget'), L('fee', v=3), L('cnt'),
              call('c1', L('cnt'), call('c2', L('cnt'), how='iface'), L('cnt')),
              call('c2', *inner), call('c1', *inner, v=2), call('c2', *inner, m='ask', how='iface'),
              call('c2', L('ctx'), call('c1', L('ctx'), L('vset', c=X, v=vi(9)), how='ifacekw'), L('ctx'), L('vget', c=X)),
              call('c2', L('raise', w='weird')), call('c1', L('raise', w='exit')), call('c2', L('revert', m='q'), L('ctx')),
              call('c2', L('raise', w='weird2')), call('c2', L('vset', c=X, v=vi(2)), L('lazy'), L('ctx'), L('vset', c=X, v=vi(6)), L('vget', c=X)),
              L('lazy'), call('c9', how='send', v=0), L('try', n=1)]
        st = [mcheck.setup(rig, PROD, value=3, js=True), mcheck.setup(rig, TINY, frm='c3', faults={1: (1, 0, 'x')})]
        enum(ctx, rig, le, st, ctx.scale(2, 3), cl, 'contexts around calls')
        w = dict(ctx=8, call=7, v=3, d=1, fee=1, feeget=1, icx=1, bal=1, tr=4, fail=2, ev=1, util=1)
        fuzz(ctx, rig, ctx.scale(2000, 6000), cl, weights=w, depth=5, size=6, prog=dict(n=3), faults=.05)


# ---------------------------------------------------------------- C10 failures
def c10(ctx):
    cl = frozenset(('status', 'message', 'results', 'store', 'balance', 'frames'))
    with Rig(timeout=60) as rig:
        raises = [L('revert', m='no', code=c) for c in (0, 1, -1, 966, 967, 968, 1 << 20, -(1 << 20))]
        raises += [L('revert', m=''), L('revert', m='x', bad=True)]
        raises += [L('revert', m=m, mv=v, code=3) for m, v in (('12345', ['i', '12345']), ('0', ['i', '0']), ('None', ['n', '']),
                                                               ('True', ['z', '1']), ("b'ab'", ['b', '6162']), ('0' * 0 + 'é\n', ['s', 'é\n']))]
        raises += [L('raise', w=w, m='text', code=5) for w in ('value', 'score', 'assert', 'badidx', 'weird', 'exit', 'kbd', 'rec', 'weird2', 'weird3', 'weird4', 'surr')]
        raises += [L('raise', w='coded', m='text', cv=c) for c in ('abc', 'zero', 'float', 'big', 'neg', 'bytes', 'end')]
        raises += [L('raise', w='score', m='s', code=c) for c in (-5, 967, 968)]
        raises += [L('vset', c=X, v=NIL), L('aget', c=A, i=3), L('diter', c=D1), L('dset', c=D2, k=[K('i', 1)], v=vi(1)),
                   L('ev', e='E1', args=[vs('x')]), L('fee', v=101), L('icx', to='c2', v=-1)]
        raises += [call('c9', m='run'), call('c2', m='nope'), call('e2', how='transfer', v=10**6), call('c2', m='run', v=10**6),
                   call('c3', how='iface', m='nope') if False else call('c2', v=1, m='ask')]
        le = list(raises)
        le += [[L('try', n=1), x] for x in raises]
        le += [[L('lazy'), x] for x in raises]
        le += [call('c2', x) for x in raises]
        le += [[L('try', n=1), call('c2', L('vset', c=X, v=vi(1)), x)] for x in raises]
        le += [call('c2', call('c3', x)) for x in raises[:34]]
        le += [call('c2', call('c3', x, how='iface'), m='ask', how='ifacekw') for x in raises[:34]]
        le += [call('c2', L('try', n=1), call('c1', L('vset', c=X, v=vi(4)), x), L('vset', c=X, v=vi(6))) for x in raises[:34]]
        st = [mcheck.setup(rig, PROD), mcheck.setup(rig, FREE)]
        enum(ctx, rig, le, st, 1, cl, 'every failure')
        tails = [L('vset', c=X, v=vi(8)), L('ctx')]
        enum(ctx, rig, [[L('try', n=1), x] for x in raises] + tails, st[:1], 2, cl, 'handled failures, then more')
        # what the node answers to a call, whatever it is
        fs = [mcheck.setup(rig, TINY, limit=500, faults={1: (s, 3, 'the text')})
              for s in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 31, 32, 33, 500, 998, 999)]
        fs = [f for f in fs if f['faults']['1'][0] not in ()]
        cs = [call('c2'), call('c2', how='iface'), call('e2', how='transfer', v=0), call('e2', how='send', v=0),
              [L('try', n=1), call('c2')], [L('try', n=1), call('e2', how='transfer', v=0)]]
        enum(ctx, rig, cs, fs, 1, cl, 'answers of the node')
        w = dict(v=3, a=1, call=6, fail=4, tr=4, ev=1, bal=1)
        fuzz(ctx, rig, ctx.scale(1200, 6000), cl, weights=w, depth=5, size=6, faults=.1)


# ----------------------------------------------------------------- C16 events
def c16(ctx):
    cl = frozenset(('events', 'status', 'results', 'frames'))
    with Rig(timeout=60) as rig:
        vals = {'i': [vi(0), vi(-129), vi(2**70), vz(True)], 's': [vs(''), vs('ab')], 'b': [vb(b''), vb(b'\0\xff')],
                'a': [va('e1'), va('c2')], 'z': [vz(True), vz(False)]}
        le = [L('ev', e='E0', args=[])]
        le += [L('ev', e='E1', args=[v]) for t in vals for v in vals[t]] + [L('ev', e='E1', args=[NIL]), L('ev', e='E1', args=[])]
        le += [L('ev', e='E2', args=[x, y]) for x in vals['s'] + [NIL, vb(b'a')] for y in vals['b'] + [NIL, vs('a')]]
        le += [L('ev', e='E3', args=[va('e1'), z, vi(3), s]) for z in vals['z'] + [NIL, vi(1)] for s in vals['s'] + [NIL]]
        le += [L('ev', e='E3', args=[vs('x'), vz(True), vi(3), vs('')]), L('ev', e='E3', args=[va('c1'), vz(True), vi(3)])]
        le += [L('ev', e='E4', args=[vb(b'1'), vi(2), vs('3')]), L('ev', e='E4', args=[vb(b'1'), vi(2), vs('3'), va('c1')]),
               L('ev', e='E4', args=[NIL, NIL, NIL, NIL]),
               L('ev', e='E5', args=[vi(1), vi(2), vi(3)]), L('ev', e='E5', args=[vi(1), vi(2)])]
        one, two, three = ['a', vi(1)], ['b', vi(-2)], ['c', vi(300)]
        le += [L('ev', e='E5', args=[vi(9), vi(8), vi(6)][:n], kw=list(kw)) for n in range(4)
               for r in range(4) for kw in itertools.permutations([one, two, three], r)]
        p, q = ['a', vs('x')], ['b', vs('')]
        le += [L('ev', e='E6', args=[vs('pos'), vs('p2')][:n], kw=list(kw)) for n in range(3)
               for r in range(3) for kw in itertools.permutations([p, q], r)]
        le += [L('ev', e='E4', args=[vb(b'1')], kw=list(kw))
               for kw in itertools.permutations([['b', vi(2)], ['c', vs('3')], ['d', va('c1')]], 3)]
        q = ['q', vi(4)]     # no such parameter
        le += [L('ev', e=e, args=a, kw=list(kw)) for e, a in (('E5', [vi(9), vi(8)]), ('E5', [vi(9)]), ('E6', [vs('x')]), ('E0', []),
                                                              ('E6', [vs('x'), vs('y')]), ('E4', [vb(b'1'), vi(2), vs('3')]))
               for kw in ([q], [q, two], [two, q], [['self', vi(1)]])]
        le += [L('ev', e='E6', args=[], kw=[['a', vi(1)]]), L('ev', e='E6', args=[], kw=[['b', vs('x')], ['a', NIL]]),
               L('ev', e='E4', args=[vb(b'1'), vi(2)]), L('ev', e='E0', args=[vi(1)])]
        st = [mcheck.setup(rig, PROD), mcheck.setup(rig, V0)]
        enum(ctx, rig, le, st, 1, cl, 'every event')
        le2 = [le[0], le[3], le[-3], L('vset', c=X, v=vi(1)), call('c2', le[0], le[4]), call('c2', le[0], L('revert', m='')),
               L('try', n=1), call('c1', le[0], m='ask'), L('ev', e='E1', args=[vs('x')])]
        enum(ctx, rig, le2, st[:1], ctx.scale(3, 4), cl, 'event orders')
        w = dict(ev=9, v=2, call=3, tr=4, fail=.5)
        fuzz(ctx, rig, ctx.scale(1000, 4000), cl, weights=w, depth=3, size=9)


# ------------------------------------------------------------------ C17 calls
def c17(ctx):
    call_props.calls(ctx)
    cl = frozenset(('calls', 'results', 'balance', 'frames', 'route', 'value'))
    with Rig(timeout=60) as rig:
        st = [mcheck.setup(rig, PROD, bal={'c1': 7}), mcheck.setup(rig, TINY, bal={'c1': 7}, faults={1: (32, 2, 'no')}),
              mcheck.setup(rig, TINY, bal={'c1': 7}, faults={2: (0, 2, '')})]
        le = [L('icx', to='c2', v=3), L('icx', to='c2', v=5), L('icx', to='c3', v=1), L('icx', to='c2', v=-1), L('icx', to='c2', v=0),
              call('c2', L('ret', v=vi(5)), how='iface'), call('c2', L('ret', v=vs('x')), how='ifacekw'), call('c3', how='iface'),
              call('c2', L('ret', v=va('e1')), v=2), call('e2', how='transfer', v=2), call('e2', how='send', v=9),
              call('c3', how='fb', v=1), L('try', n=1), L('bal', a='c1')]
        enum(ctx, rig, le, st, ctx.scale(2, 3), cl, 'call styles')
        le2 = [le[0], le[2], le[5], le[7], le[12], call('c2', L('icx', to='c3', v=1), call('c3', how='iface'), how='ifacekw')]
        enum(ctx, rig, le2, st[:2], ctx.scale(4, 5), cl, 'amounts on interfaces')
        w = dict(call=9, icx=5, bal=1, tr=5, ret=2)
        fuzz(ctx, rig, ctx.scale(1000, 5000), cl, weights=w, depth=3, size=9, faults=.08)


# -------------------------------------------------------------- C21 fee share
def c21(ctx):
    cl = frozenset(('fee', 'results', 'status', 'frames'))
    with Rig(timeout=60) as rig:
        f = lambda v: L('fee', v=v)
        st = [mcheck.setup(rig, PROD), mcheck.setup(rig, PROD, m='ask', ro=True), mcheck.setup(rig, TINY, m='ask')]
        le = [f(0), f(1), f(50), f(100), f(101), f(-1), L('feeget'), call('c2', f(7)), call('c1', f(9), L('feeget')),
              call('c2', f(7), m='ask'), call('c2', f(7), L('revert', m='')), call('c2', L('feeget'), call('c1', f(99))), L('try', n=1)]
        enum(ctx, rig, le, st, ctx.scale(2, 3), cl, 'fee programs')
        w = dict(fee=8, feeget=4, call=6, tr=4, fail=.5, v=1)
        fuzz(ctx, rig, ctx.scale(1600, 5000), cl, weights=w, depth=4, size=7, prog=dict(n=3), faults=.05)


# -------------------------------------------------- C01 answers, C02 pipelining
def pipeline_design(ctx, n, maxh, prefix=(), sched='any', prnt=False, letters=None, tables=None, lims=None, inits=None,
                    what='pipelined accounting', timeout=850):
    letters = letters or PIPE_LETTERS
    tables = tables or PIPE_TABLES
    lims = lims or [[6, 9, 10, 12, 15, 20, 100]] * len(tables)
    d = dict(letters=letters, tables=tables, limits=lims, inits=inits or [{'V/a': vs('xx')}, {'V/b': vs('')}], maxh=maxh,
             prefix=list(prefix), maxlen=len(prefix) + n, minlen=len(prefix) + n, vals=[vs('x' * i) for i in range(4)],
             maxn=2, print=prnt, sched=sched)
    import json
    invs = ('Matched', 'Bounded', 'Drained', 'Stuck', 'Pending', 'Refines')
    r = tlc.run('Pipeline', 'SPECIFICATION Spec\n' + ''.join('INVARIANT %s\n' % i for i in invs),
                {'pipe.json': json.dumps(d)}, heap='12g', timeout=timeout)
    ctx.tlc(r, what)
    if r.violated:
        ctx.violation('%s: the specification itself violates %s' % (what, r.violated), {'tlc': tlc.tail(r.out, 80)})
    return d, r


PIPE_LETTERS = [dict(op='set', key='a', n=2), dict(op='set', key='a', n=1), dict(op='set', key='b', n=1),
                dict(op='del', key='a', n=0), dict(op='get', key='a', n=0), dict(op='set', key='a', n=0),
                dict(op='try', key='', n=1), dict(op='chg', key='', n=5)]
PIPE_TABLES = [costs(schema=1, get=1, getBase=1, set=2, setBase=8, delete=-2, deleteBase=0, apiCall=5),
               costs(schema=0, set=4, replace=1, delete=-3, get=1, apiCall=5),
               costs(schema=1, get=1, getBase=1, set=2, setBase=8, delete=1, deleteBase=2, apiCall=5)]


def pipe_replay(ctx, rig, d, r, cl, what):
    """Replay programs of Pipeline on the engine: steps, status and where it fails."""
    import json
    from machine import run_program
    seen = {}
    for x in r.lines:
        key = json.dumps([x['x'], x['p']])
        v = (x['used'], x['status'], tuple(x['log']))
        if seen.setdefault(key, v) != v:
            ctx.violation('%s: the outcome depends on the schedule' % what, {'run': x, 'other': seen[key]})
    n = 0
    for key, (used, status, log) in seen.items():
        xx, p = json.loads(key)
        ops = []
        for i in p:
            o = d['letters'][i - 1]
            c = C('V', o['key'], 's')
            ops.append({'set': lambda: L('vset', c=c, v=vs('x' * o['n'])), 'del': lambda: L('vdel', c=c),
                        'get': lambda: L('vget', c=c), 'try': lambda: L('try', n=o['n']),
                        'chg': lambda: L('hash', n=0, f='sha3')}[o['op']]())
        prog = dict(costs=d['tables'][xx['t'] - 1], bal={}, init={'c1': d['inits'][xx['i'] - 1]}, js=False,
                    invs=[dict(to='c1', m='run', value=0, limit=xx['lim'], ro=False, ops=ops, **{'from': 'e1'})])
        try:
            o = run_program(rig, prog)['invs'][0]['obs'][0]
        except mcheck.ENGINE_ERRORS as e:
            ctx.violation('%s: %s: %s' % (what, type(e).__name__, e), {'program': prog})
            if ctx.nviol > 5:
                return
            rig.start()
            continue
        n += 1
        got = (o['steps'], o['status'], tuple(q[0] for q in o['res'] if q[0] in ('ok', 'ex')))
        exp = (used, status, log)
        if got != exp:
            ctx.violation('%s: steps, status, results are %s, specified %s for %s under limit %d' % (
                what, got, exp, [(q['op'], q.get('n')) for q in ops], xx['lim']), {'program': prog, 'observed': o})
            if ctx.nviol > 20:
                return
    ctx.traces += n
    ctx.count(what + ': replayed', n)


def c02(ctx):
    pipeline_design(ctx, ctx.scale(3, 4), 1, what='pipelined accounting, at most 1 pending',
                    lims=None if ctx.quick else [[6, 10, 15]] * 3)
    pipeline_design(ctx, ctx.scale(3, 4), 2, what='pipelined accounting, at most 2 pending',
                    lims=None if ctx.quick else [[9, 12, 20]] * 3)
    cl = frozenset(('results', 'status', 'steps', 'store', 'frames', 'value', 'balance', 'events', 'calls'))
    rigs = [Rig(timeout=60), Rig(timeout=60, hold=True), Rig(timeout=60, chunk=1), Rig(timeout=60, hold=True, chunk=3)]
    try:
        # the engine's queue holds five: programs around that length, with answers at once,
        # or withheld until the engine waits, whole or in pieces
        for pre in ([], [1, 3, 2, 3, 2], [4, 6, 3, 6, 1]):
            lims = [[v, v + 7, 500] for v in ((9, 14, 12) if not pre else (40, 26, 44))]
            d, r = pipeline_design(ctx, 2 if pre or ctx.quick else 3, 5, prefix=pre, sched='lazy', prnt=True,
                                   lims=lims, what='replayed pipelines %d' % len(pre))
            for rig in (rigs[0], rigs[3]):
                pipe_replay(ctx, rig, d, r, cl, 'pipelined writes (hold=%s, chunk=%d)' % (rig.hold, rig.chunk))
        w = dict(v=8, d=6, a=8, bal=2, call=2, ev=1, util=1, tr=1)
        for i, rig in enumerate(rigs):
            fuzz(ctx, rig, ctx.scale(130, 1500), cl, 'long programs (hold=%s, chunk=%d)' % (rig.hold, rig.chunk),
                 weights=w, depth=2, size=30, prog=dict(n=2))
    finally:
        for rig in rigs:
            rig.close()


def events_of(trace):
    import mgr
    out = []
    for d, m, x in trace:
        f = m == mgr.SETVALUE and d == '<' and bool(x[1] & mgr.OLDVALUE)
        out.append({'d': d, 'm': mgr.NAMES.get(m, str(m)), 'f': f})
    return out


def c01(ctx):
    import json
    import os
    import mgr
    cl = ALL
    r = ctx.rng
    sessions, progs_of = [], []
    w = dict(v=5, d=3, a=4, bad=1, ev=2, call=7, icx=1, bal=1, fee=1, ctx=1, util=1, fail=4, ret=2, tr=3)
    for sess in range(ctx.scale(8, 60)):
        with Rig(timeout=60, hold=sess % 4 == 1, chunk=(0, 0, 2, 0)[sess % 4]) as rig:
            rig.session = []
            bads = [os.path.join(rig.dir, 'missing'), rig.dir]
            for i, (name, src) in enumerate((('syn', 'def x(:\n'), ('imp', 'import nonexistent_module_q\n'), ('exit', 'raise SystemExit(1)\n'),
                                             ('none', 'class Q:\n    pass\n'), ('kbd', 'raise KeyboardInterrupt()\n'),
                                             ('str', 'class E(Exception):\n    def __str__(self):\n        raise self\nraise E()\n'),
                                             ('sur', 'raise ValueError("\\ud800")\n'))):
                d = os.path.join(rig.dir, 'bad_' + name)
                os.makedirs(d)
                open(os.path.join(d, '__init__.py'), 'w').close()
                with open(os.path.join(d, 'm.py'), 'w') as f:
                    f.write('from iconservice import *\n' + src)
                with open(os.path.join(d, 'package.json'), 'w') as f:
                    json.dump({'version': '1', 'main_module': 'm', 'main_score': 'M'}, f)
                bads.append(d)
            progs = random_progs(ctx, ctx.scale(60, 120), weights=w, depth=4, size=8, faults=.08, prog=dict(n=1))
            for p in progs:
                if r.random() < .35:
                    p['invs'][0]['limit'] = r.choice([0, 1, r.randint(0, 100), r.randint(0, 100_000)])
                    p['costs'] = r.choice([PROD, TINY, V0, V0G])
                    clean_empty(p)
            rig.eng.api_in_call = rig.code['c2'] if sess % 2 else None
            pairs = []
            for n, p in enumerate(progs):
                got = mcheck.run_all(ctx, [p], rig, 'sessions', check_quiet=False)
                pairs += got
                if not got:
                    break
                if n % 7 == 3:
                    # an API request in between, of a good or a hopeless contract
                    path = r.choice(bads + [rig.code['c1'], rig.code['c3']])
                    rig.eng.trace = []
                    try:
                        st = rig.eng.getapi(path)
                        rig.session += rig.eng.trace
                        good = path in rig.code.values()
                        if (st[0] == 0) != good or (st[1] is None) == good:
                            ctx.violation('API request of %s answered with status %s' % (path, st[0]), {'path': path, 'answer': repr(st)[:300]})
                    except mcheck.FAILURES as e:
                        ctx.violation('API request of %s: %s' % (path, e), {'path': path})
                        break
                    # and an invocation of a contract that cannot be loaded
                    w2 = rig.world(PROD)
                    bad = r.choice(bads)
                    rig.eng.trace, api = [], rig.eng.api_in_call
                    try:
                        res = rig.eng.invoke(w2, mgr.cx(0x77), 'run', {'script': '[]'}, code=bad, limit=1000)
                        rig.session += rig.eng.trace
                        if res.status == 0 or res.steps > 1000:
                            ctx.violation('invoking a contract that cannot be loaded: %r' % res, {'path': bad})
                    except mcheck.FAILURES as e:
                        ctx.violation('invoking a contract that cannot be loaded: %s' % e, {'path': bad})
                        break
            mcheck.validate(ctx, pairs, cl, 'sessions', ignore=lambda p, b: False)
            try:
                left = rig.eng.quiet(0.05)
            except mcheck.FAILURES as e:
                left = [(0, str(e))]
            if left:
                ctx.violation('something was sent after the last result', {'messages': repr(left)[:1000]})
            rc = rig.eng.close()
            if rc != 0:
                ctx.violation('told to close, the engine ended with %r' % rc, {'session': sess})
            sessions.append(events_of(rig.session))
            progs_of.append(progs)
    res = tlc.run('Protocol', 'SPECIFICATION Spec\nINVARIANT Nested\n', {'sessions.json': json.dumps(sessions)}, stack='512m')
    ctx.tlc(res, 'message protocol')
    vd = {x['verdict']: x for x in res.lines}
    if len(vd) != len(sessions):
        raise tlc.TlcError('no verdict for some sessions\n' + tlc.tail(res.out))
    for k, x in vd.items():
        ctx.count('requests in recorded sessions', x['requests'])
        if x['bad']:
            ctx.violation('message protocol: ' + x['bad'], {'session': sessions[k - 1][-200:]})
    ctx.count('messages in recorded sessions', sum(len(s) for s in sessions))
    with Rig(timeout=60) as rig:
        init = {'c1': {'V/x': vi(300), 'V/y': vs('hh'), 'A/arr/#': vi(1), 'A/arr/00': vi(4)}}
        le = [L('vset', c=X, v=vi(5)), L('vdel', c=X), L('vdel', c=S), L('aput', c=A, v=vi(1)), L('apop', c=A),
              call('c2', L('vset', c=X, v=vi(1)), L('vdel', c=X)), L('ev', e='E0', args=[]), L('ret', v=FLOAT), L('raise', w='exit'),
              call('c2', L('ret', v=FLOAT)), L('raise', w='weird2'), L('raise', w='surr'), call('c2', L('raise', w='weird3')), L('lazy')]
        lims = [0, 1, 2, 5, 9, 11, 14, 15, 16, 19, 23, 28, 35, 50] if ctx.quick else list(range(0, 64))
        enum(ctx, rig, le, [mcheck.setup(rig, TINY, init=init)], 2, frozenset(('frames', 'status', 'overlimit')),
             'answers under every small limit', limits=lims, minlen=1)


def clean_empty(p):
    """Without empty values: under a tight limit, an empty value that is replaced is paid
    for when the engine learns of it (see Pipeline), which Machine does not tell apart."""
    def walk(ops):
        for o in ops:
            if o['op'] in ('vset', 'dset', 'aput', 'aset') and o['v'][2] == 0 and o['v'][0] in 'sb':
                o['v'] = vs('e') if o['v'][0] == 's' else vb(b'e')
            walk(o.get('body', []))
    for i in p['invs']:
        walk(i['ops'])
