"""Checks of declarations, interfaces, dispatch and parameters (Contract.tla, Params.tla)."""
import json

import mgr
import tlc
from contracts import BADTYPES, INIT, ODD, Shop, Source, api_of, method, params, PRELUDE

NO, NONE = ['no'], ['n', '', 0, '']
FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)
ADDR = 'cx' + '0' * 38 + '0a'


def P(n, t, d=None):
    return [n, [t] if isinstance(t, str) else t, NO if d is None else d]


def V(k, x, enc):
    return [k, x, len(enc) // 2, enc]


def contracts(ctx, slots, calls, what, layers=1, check=('Interface', 'Reachable', 'Complete'), timeout=600):
    """Enumerate; -> list of (pick, accepted, api, {call index: outcome})."""
    cfg = 'SPECIFICATION Spec\n' + ''.join('INVARIANT %s\n' % c for c in check)
    r = tlc.run('ContractEnum', cfg, {'contracts.json': json.dumps({'slots': slots, 'calls': calls, 'layers': layers})},
                heap='8g', timeout=timeout)
    if r.violated:
        raise tlc.TlcError('%s: %s does not hold of the specification' % (what, r.violated))
    ctx.tlc(r, what)
    out = {}
    for x in r.lines:
        if 'ok' in x:
            out[tuple(x['p'])] = (x['ok'], x['api'], {})
    for x in r.lines:
        if 'c' in x:
            out[tuple(x['p'])][2][x['c']] = x['out']
    want = 1
    for s in slots:
        want *= len(s)
    if len(out) != want or (calls and any(len(v[2]) != len(calls) for v in out.values())):
        raise tlc.TlcError('%s: incomplete enumeration' % what)
    return sorted((p, v[0], v[1], v[2]) for p, v in out.items())


def layers_of(slots, pick, n):
    return [[m for s, i in zip(slots, pick) for k, m in s[i - 1] if k == j + 1] for j in range(n)]


def norm(api):
    return sorted(json.dumps(e, sort_keys=True) for e in api)


def compare_api(ctx, what, text, ok, api, got, seen):
    """got: the engine's answer to GETAPI."""
    if not ok:
        if got[0] == 0 or got[1] is not None:
            ctx.violation('%s: to be refused, but the engine reports %r' % (what, got), {'source': text, 'reported': repr(got)})
        return
    if got[0] != 0:
        ctx.violation('%s: acceptable, but refused with status %r' % (what, got[0]), {'source': text, 'specified': api, 'reported': repr(got)})
        return
    try:
        seen_api = api_of(got[1])
    except Exception as e:
        seen_api = [['unreadable', repr(e), repr(got[1])]]
    if norm(seen_api) != norm(api):
        only = [x for x in norm(api) if x not in norm(seen_api)]
        extra = [x for x in norm(seen_api) if x not in norm(api)]
        ctx.violation('%s: API differs; specified only: %s; reported only: %s' % (what, only, extra),
                      {'source': text, 'specified': api, 'reported': seen_api})


def compare_call(ctx, what, text, call, out, res, frames):
    bad = None
    if out['ok']:
        want = [out['v'][0], [list(a) for a in out['v'][1]]]
        if res.status != 0:
            bad = 'specified to run, but failed with status %r (%r)' % (res.status, res.value)
        elif res.value != want:
            bad = 'specified %r, observed %r' % (want, res.value)
    else:
        if res.status not in out['codes']:
            bad = 'specified to be refused with status in %s, observed status %r, value %r' % (out['codes'], res.status, res.value)
    if bad:
        ctx.violation('%s: %s(%s) with %d: %s' % (what, call['m'], json.dumps(call['a'])[:200], call['v'], bad),
                      {'source': text, 'call': call, 'specified': out, 'observed': repr(res)})


def replay(ctx, shop, slots, cases, calls, what, layers=1, api=True, every=1):
    for pick, ok, apis, outs in cases:
        src = Source()
        text = PRELUDE
        body = src.classes(layers_of(slots, pick, layers))
        text += body
        path = shop.package(text)
        try:
            if api:
                compare_api(ctx, what, text, ok, apis, shop.api(path), None)
            todo = outs.items() if ok else list(outs.items())[:1]
            for i, o in todo:
                c = calls[i - 1]
                res = shop.call(path, c['m'], params(c), value=c['v'])
                compare_call(ctx, what, text, c, o, res, shop.eng.frames)
                ctx.traces += 1
        except FAIL as e:
            ctx.violation('%s: %s: %s' % (what, type(e).__name__, e), {'source': text})
            shop.start()
        ctx.traces += api
        shop.drop(path)


def call(m, v=0, a=(), kind='list'):
    return {'m': m, 'v': v, 'kind': kind, 'a': list(a)}


def opt(*ms):
    """an option of a slot: members of layer 1, or (layer, member)"""
    return [m if isinstance(m, tuple) else (1, m) for m in ms]


BASE = opt(*INIT)
CORE = opt(method('keep', ['external']))


# ---------------------------------------------------------------- C11 dispatch
def c11(ctx):
    with Shop() as shop:
        kinds = [(), ('external',), ('readonly',), ('external', 'payable'), ('payable', 'external'), ('payable',), ('eventlog',),
                 ('isolated', 'external')]
        a = [[]] + [opt(method('a', d)) for d in kinds[:7]]
        fb = [[], opt(method('fallback')), opt(method('fallback', ['payable'])), opt(method('fallback', ['eventlog']))]
        priv = [[], opt(method('_b', ['external'])), opt(method('_b')), opt(method('_b', ['external', 'payable']))]
        names = ['a', 'fallback', '_b', 'keep', 'on_install', 'on_update', '', 'c', 'a ', 'A', '__init__', 'call', 'owner', 'get_api',
                 'get_owner', 'revert', 'db', 'now', '_IconScoreBase__call', '_IconScoreBase__get_api', 'set_fee_sharing_proportion',
                 '__hidden__', 'create_interface_score']
        calls = [call(n, v, (), k) for n in names for v in (0, 7) for k in ('list', 'dict')]
        slots = [[BASE], [CORE, []], a, fb, priv]
        cs = contracts(ctx, slots, calls, 'exposure')
        replay(ctx, shop, slots, cs, calls, 'exposure', api=False)
        # a method declared in a base class, overridden or not
        a2 = [[]] + [opt((2, method('a', d))) for d in kinds[:7]]
        f2 = [[], opt((2, method('fallback'))), opt((2, method('fallback', ['payable'])))]
        f1 = [[], opt(method('fallback', ['payable']))]
        h = [opt((2, method('__hidden__', ['external']))), opt((2, method('on_install')))]
        slots = [[BASE], [CORE], a, a2, f1, f2, h]
        calls = [call(n, v, (), 'list') for n in ('a', 'fallback', 'keep', 'on_install', '__hidden__', 'on_update') for v in (0, 1)]
        cs = contracts(ctx, slots, calls, 'inherited exposure', layers=2)
        replay(ctx, shop, slots, cs, calls, 'inherited exposure', layers=2, api=False)
        ctx.sample({'contract': layers_of(slots, cs[-1][0], 2), 'outcomes': cs[-1][3]})
        # argument counts do not open other doors
        ps = [[], [P('x', 'int')], [P('x', 'int'), P('y', 'str', V('s', 'd', '64'))]]
        slots = [[BASE], [CORE]] + [[opt(method('a', d, p)) for d in (('external',), ('external', 'payable'), ('readonly',)) for p in ps]] \
            + [[opt(method('fallback', ['payable']))]]
        args = [[], [['i', '1']], [['i', '1'], ['s', 'q']], [['i', '1'], ['s', 'q'], ['i', '3']]]
        calls = [call(n, v, x) for n in ('a', 'fallback', 'on_install') for v in (0, 5) for x in args]
        cs = contracts(ctx, slots, calls, 'argument counts')
        replay(ctx, shop, slots, cs, calls, 'argument counts', api=False)
    ctx.exhaustive = True
    ctx.assumptions.append('the node asks for a method by the name given to the engine; it refuses install entries itself')


# --------------------------------------------------------------- C12, C13 API
def types(ctx, depth):
    bad = ['dict', 'float', 'Union[int,str]', 'object', 'list', 'tuple', 'class']
    r = tlc.run('TypeEnum', 'SPECIFICATION Spec\nINVARIANT Codes\n', {'types.json': json.dumps({'depth': depth, 'bad': bad, 'odd': ODD})}, heap='8g')
    if r.violated:
        raise tlc.TlcError('types: %s' % r.violated)
    ctx.tlc(r, 'type annotations')
    seen = {}
    for x in r.lines:
        seen[json.dumps(x['t'])] = x
    return [seen[k] for k in sorted(seen)]


def grouped_types(ctx, shop, ts, size=25):
    """accepted annotations, many to a contract"""
    good = [t for t in ts if t['ok']]
    for i in range(0, len(good), size):
        src, ms, want = Source(), list(INIT), [[0, n, 0, 0, [], []] for n in ('on_install', 'on_update')]
        for j, t in enumerate(good[i:i + size]):
            ret = t['t'] if t['t'][0] != 'none' else ['none']
            e = list(t['e'])
            ms.append(method('m%d' % j, ['readonly'], [['p', t['t'], NO]], ret))
            want.append([0, 'm%d' % j, 3, 1, [e], t['out']])
            ms.append(method('n%d' % j, ['external'], [['p', t['t'], NONE]], ret))
            want.append([0, 'n%d' % j, 2, 0, [e], []])
        text = PRELUDE + src.classes([ms])
        path = shop.package(text)
        try:
            compare_api(ctx, 'parameter types', text, True, want, shop.api(path), None)
        except FAIL as e:
            ctx.violation('parameter types: %s: %s' % (type(e).__name__, e), {'source': text})
            shop.start()
        ctx.traces += 1
        ctx.count('annotations described', len(good[i:i + size]))
        shop.drop(path)


def refused_types(ctx, shop, ts, limit):
    bad = [t for t in ts if not t['ok']]
    if len(bad) > limit:
        ctx.rng.shuffle(bad)
        bad = bad[:limit]
    for t in bad:
        for d, dflt in ((['readonly'], NO), (['external'], NONE), (['payable', 'external'], NO))[:1 if len(bad) > 300 else 3]:
            src = Source()
            text = PRELUDE + src.classes([INIT + [method('ok', ['external']), method('m', d, [['p', t['t'], dflt]])]])
            path = shop.package(text)
            try:
                compare_api(ctx, 'refused annotation %s' % json.dumps(t['t']), text, False, [], shop.api(path), None)
            except FAIL as e:
                ctx.violation('refused annotation: %s: %s' % (type(e).__name__, e), {'source': text})
                shop.start()
            ctx.traces += 1
            shop.drop(path)


DEFAULTS = [NO, NONE, V('i', '5', '05'), V('i', '0', '00'), V('i', '-129', 'ff7f'), V('z', '1', '01'), V('z', '0', '00'), V('s', '', ''),
            V('s', 'xy', '7879'), V('b', '', ''), V('b', 'ff00', 'ff00'), V('a', ADDR, '01' + ADDR[2:])]


def c12(ctx):
    with Shop() as shop:
        ts = types(ctx, ctx.scale(2, 3))
        grouped_types(ctx, shop, ts)
        one = [['int'], ['str'], ['bytes'], ['bool'], ['Address'], ['ref'], ['none']] + [['opt', [b]] for b in ('int', 'str', 'Address')]
        # every declared flag, name and default that is acceptable
        ds = [['external'], ['readonly'], ['external', 'payable'], ['payable']]
        df = [d for d in DEFAULTS]
        slots = [[BASE], [CORE], [opt(method('m', d, [P('p', t, v)])) for d in ds[:2] for t in one for v in df]]
        cs = [c for c in contracts(ctx, slots, [], 'defaults')]
        replay(ctx, shop, slots, [c for c in cs if c[1]], [], 'defaults')
        many = [[], [P('a', 'int')], [P('a', 'int'), P('b', 'str', V('s', 'q', '71'))],
                [P('a', 'int', V('i', '1', '01')), P('b', 'str', V('s', 'q', '71')), P('c', ['list', ['int']], NONE)],
                [P('b', ['struct', [['x', ['int']], ['y', ['list', ['struct', [['z', ['bool']]]]]]]]), P('a', 'Address')]]
        ev = [[], opt(method('E', ['eventlog'])), opt(method('E', ['eventlog1'], [P('a', 'int'), P('b', 'Address')])),
              opt(method('E', ['eventlog3'], [P('a', 'ref'), P('b', 'bytes'), P('c', 'bool'), P('d', 'str', V('s', 'q', '71'))])),
              opt(method('E', ['eventlog2'], [P('a', 'int', NONE), P('b', 'str', NONE)])),
              opt(method('E', ['eventlog2'], [P('a', 'int', V('i', '5', '05')), P('b', 'str', V('s', 'q', '71')), P('c', 'bool', V('z', '1', '01'))]))]
        fb = [[], opt(method('fallback')), opt(method('fallback', ['payable']))]
        ini = [BASE, opt(method('on_install', [], [P('a', 'int'), P('b', 'str', V('s', '', ''))]), method('on_update', [], [P('z', ['list', ['bool']])]))]
        slots = [ini, [[], opt(method('keep', ['external']))],
                 [opt(method('m', d, p, r)) for d in (['external'], ['readonly'], ['external', 'payable'], ['payable']) for p in many
                  for r in (['none'], ['int'])], ev, fb]
        cs = contracts(ctx, slots, [], 'interfaces')
        replay(ctx, shop, slots, [c for c in cs if c[1]], [], 'interfaces')
        # what a method returns may be annotated with anything
        slots = [[BASE], [opt(method('m', ['readonly'], [], ['bad', t]), method('n', ['external'], [], ['bad', t])) for t in BADTYPES if t != 'text']]
        replay(ctx, shop, slots, contracts(ctx, slots, [], 'results of other types'), [], 'results of other types')
        # two classes, overriding
        m1 = [[]] + [opt(method('m', d, p)) for d in ([], ['external'], ['readonly'], ['eventlog']) for p in ([], [P('a', 'int')])]
        m2 = [[]] + [opt((2, method('m', d, p))) for d in ([], ['external'], ['payable', 'external'], ['eventlog1'], ['payable'])
                     for p in ([P('x', 'bool')], [P('a', 'int'), P('b', 'str')])]
        m3 = [opt((2, method('on_update'))), opt((2, method('on_update', [], [P('q', 'int')])))]
        slots = [[BASE], [CORE], m1, m2, m3, [[], opt(method('fallback', ['payable']))], [[], opt((2, method('fallback')))]]
        cs = contracts(ctx, slots, [], 'inherited interfaces', layers=2)
        replay(ctx, shop, slots, [c for c in cs if c[1]], [], 'inherited interfaces', layers=2)
        ctx.sample({'contract': layers_of(slots, cs[-1][0], 2), 'api': cs[-1][2]})
    ctx.exhaustive = True
    ctx.assumptions.append('defaults are None or values of base types; the order of the entries is not compared')


def c13(ctx):
    import itertools
    decos = ['external', 'readonly', 'payable', 'isolated', 'eventlog', 'eventlog1', 'eventlog4', 'interface']
    with Shop() as shop:
        # every list of decorators on every kind of name
        n = ctx.scale(2, 3)
        lists = [list(x) for k in range(n + 1) for x in itertools.product(decos, repeat=k)]
        if n < 3:
            three = [list(x) for x in itertools.product(decos, repeat=3)]
            ctx.rng.shuffle(three)
            lists += three[:60]
        names = ['m', 'fallback', 'on_install', '_p']
        ps = [[], [P('x', 'int')]]
        slots = [[opt(method('on_update'))], [CORE], [opt(method('on_install')), []],
                 [opt(method(n, d, p)) for n in names[:2] + names[3:] for d in lists for p in ps]]
        cs = contracts(ctx, slots, [], 'decorators')
        replay(ctx, shop, slots, [c for c in cs if c[0][2] == 1 or c[0][3] % 7 == 0], [], 'decorators')
        slots = [[opt(method('on_update'))], [CORE], [opt(method('on_install', d, p)) for d in lists for p in ps]]
        cs = contracts(ctx, slots, [], 'decorated entries')
        replay(ctx, shop, slots, cs, [], 'decorated entries')
        # events
        et = ['int', 'ref', 'none', ['list', ['int']], ['opt', ['int']], ['struct', [['x', ['int']]]], ['bad', 'float'], ['bad', 'text']]
        evs = [opt(method('E', [d], [P('abcde'[i], t) for i, t in enumerate(tt)])) for d in ('eventlog', 'eventlog1', 'eventlog3', 'eventlog4')
               for k in range(3) for tt in itertools.product(et, repeat=k)]
        evs += [opt(method('E', [d], [P('abcde'[i], 'int') for i in range(k)])) for d in ('eventlog2', 'eventlog3', 'eventlog4') for k in (1, 2, 3, 4, 5)]
        slots = [[BASE], [CORE], evs]
        cs = contracts(ctx, slots, [], 'event declarations')
        replay(ctx, shop, slots, cs, [], 'event declarations')
        # parameters: annotations, defaults, kinds
        one = [['int'], ['str'], ['bytes'], ['bool'], ['Address'], ['ref'], ['none']] + [['opt', [b]] for b in ('int', 'bool')]
        odd = [V('l', '[1]', ''), V('l', '[]', ''), V('d', "{'x': 1}", ''), V('f', '1.5', ''), V('f', '()', ''), V('f', 'int', '')]
        many = one + [['list', ['int']], ['list', ['bool']], ['struct', [['x', ['int']]]], ['opt', ['list', ['int']]], ['opt', ['struct', [['x', ['int']]]]]]
        slots = [[BASE], [CORE], [opt(method('m', [d], [P('p', t, v)])) for d in ('external', 'payable', 'readonly') for t in many for v in DEFAULTS + odd
                                  if not (v[0] in 'ld' and t not in one)]]
        cs = contracts(ctx, slots, [], 'default values')
        replay(ctx, shop, slots, cs, [], 'default values')
        kinds = [P('v', ['var', k]) for k in ('args', 'kwargs', 'kwonly', 'posonly')]
        slots = [[BASE], [CORE], [opt(method(nm, d, p)) for nm in ('m', 'on_install2') for d in ([], ['external'], ['payable'], ['readonly'])
                                  for p in [[k] for k in kinds] + [[P('x', 'int'), k] for k in kinds[:3]]]]
        cs = contracts(ctx, slots, [], 'parameter kinds')
        replay(ctx, shop, slots, cs, [], 'parameter kinds')
        # incomplete contracts, fallbacks with parameters or results, and faults in a base class
        slots = [[BASE, opt(INIT[0]), opt(INIT[1]), []], [[], CORE, opt(method('w', ['payable'])), opt(method('e', ['eventlog']))],
                 [[], opt(method('fallback')), opt(method('fallback', ['payable'])), opt(method('fallback', ['payable'], [P('x', 'int')])),
                  opt(method('fallback', ['payable'], [], ['int'])), opt(method('fallback', ['external']))],
                 [[], opt((2, method('fallback'))), opt((2, method('keep'))), opt((2, method('keep', ['readonly', 'payable']))), opt((2, method('on_install', ['external'])))]]
        cs = contracts(ctx, slots, [], 'completeness', layers=2)
        replay(ctx, shop, slots, cs, [], 'completeness', layers=2)
        refused_types(ctx, shop, types(ctx, ctx.scale(1, 2)), ctx.scale(400, 3000))
        ctx.sample({'contract': layers_of(slots, cs[-1][0], 2), 'accepted': cs[-1][1]})
    ctx.assumptions.append('lists and maps as defaults of list and structure parameters are left open')
    ctx.exhaustive = True


# ------------------------------------------------------------- C14 parameters
def c14(ctx):
    import itertools
    with Shop() as shop:
        tt = {'i': ['int'], 'z': ['bool'], 'b': ['bytes'], 's': ['str'], 'a': ['Address'], 'r': ['ref'], 'n': ['none'], 'l': ['list', ['int']],
              't': ['struct', [['x', ['int']]]], 'oi': ['opt', ['int']], 'oz': ['opt', ['bool']], 'ob': ['opt', ['bytes']], 'oa': ['opt', ['Address']],
              'os': ['opt', ['str']], 'ol': ['opt', ['list', ['bytes']]]}
        ms = [method('m_' + k, ['external'], [P('p', t)]) for k, t in tt.items()]
        ms += [method('d_' + k, ['external'], [P('p', t, v)]) for k, t, v in (
            ('i', ['int'], V('i', '5', '05')), ('s', ['str'], V('s', 'dd', '6464')), ('a', ['Address'], NONE), ('n', ['none'], NONE),
            ('oi', ['opt', ['int']], NONE))]
        one = [[opt(*INIT), ], [opt(*ms)]]

        def texts(alpha, n):
            return [list(x) for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]
        num = texts('-0x1a', ctx.scale(4, 5)) + [list(x) for x in ('0x7fFF', '-0x10', '2147483647', '-2147483647', '0xg', '1.0', '0x1x', 'ABC', '0xAbC', '0b1',
                                                                   '-', '--1', '0x-1', '00012', '9', '0X10', '-0X1f', '0XFF', '-0x-1', '0o17', '1e3', '--0x1', '0x0x1')]
        calls = [call('m_' + k, 0, [['p', ['t', s]]], 'dict') for k in ('i', 'z') for s in num]
        by = texts('0xa9g', ctx.scale(4, 5)) + [list(x) for x in ('0xFFee', 'zz', '0x0', '0XFF', '0Xff', 'x', 'FFee', '0xfF0', '0x0xff')]
        calls += [call('m_b', 0, [['p', ['t', s]]], 'dict') for s in by]
        body = '0' * 39 + 'a'
        ad = [p + b for p in ('hx', 'cx', 'HX', 'h', '0x', '', 'ix', 'hX') for b in (body, body[1:], body + '0', '')]
        ad += ['cx' + body[:i] + c + body[i + 1:] for i in (0, 1, 20, 38, 39) for c in 'gAZ x-_\n']
        ad += [c + 'cx' + body for c in (' ', '0')] + ['cx' + body + c for c in (' ', '\n', '0')] + ['cx' + body[1:] + c for c in '\n \t']
        calls += [call('m_' + k, 0, [['p', ['t', list(s)]]], 'dict') for k in ('a', 'r', 'oa') for s in ad]
        short = [list(s) for s in ('', '0', '1', '-1', '0x', '0x10', 'true', 'None', 'hx' + body)]
        vals = [['t', s] for s in short] + [['n', ''], ['i', '5'], ['i', '0'], ['z', '1'], ['l', '[]'], ['l', '[1, 2]'], ['d', "{'x': 1}"], ['a', ADDR]]
        calls += [call(m['n'], 0, [['p', v]], k) if k == 'dict' else call(m['n'], 0, [v], k) for m in ms for v in vals for k in ('dict', 'list')]
        cs = contracts(ctx, one, calls, 'conversions')
        replay(ctx, shop, one, cs, calls, 'conversions', api=False)
        ctx.sample({'call': calls[7], 'outcome': cs[0][3][8]})
        # binding of names
        sets = [[], [P('a', 'int')], [P('a', 'int'), P('b', 'str')], [P('a', 'int'), P('b', 'str', V('s', 'dd', '6464'))],
                [P('a', 'int', V('i', '5', '05')), P('b', 'str', NONE), P('c', 'bool', V('z', '1', '01'))]]
        ms = [method('m%d' % i, ['external'], p) for i, p in enumerate(sets)] + [method('w%d' % i, ['external', 'payable'], p) for i, p in enumerate(sets)]
        ms += [method('on_install', [], sets[3]), method('on_update', [], sets[1])]
        one = [[opt(*ms)]]
        av = {'a': [['t', ['7']], ['t', ['q']], ['n', '']], 'b': [['t', ['0', 'x']], ['i', '3']], 'c': [['t', ['0']]], 'd': [['t', ['1']]], 'self': [['t', ['1']]]}
        kws = []
        for k in range(4):
            for ns in itertools.permutations(sorted(av), k):
                if list(ns) == sorted(ns) or k == 2:
                    kws += [[[n, v] for n, v in zip(ns, vs)] for vs in itertools.product(*(av[n] for n in ns))]
        calls = [call(m['n'], v, kw, 'dict') for m in ms for kw in kws for v in ((0, 3) if len(kw) < 2 else (0,))]
        pos = [list(x) for k in range(5) for x in itertools.product([['t', ['7']], ['i', '3'], ['n', '']], repeat=k)]
        calls += [call(m['n'], 0, x, 'list') for m in ms for x in pos]
        cs = contracts(ctx, one, calls, 'binding')
        replay(ctx, shop, one, cs, calls, 'binding', api=False)
        # names which those who carry the call might use for themselves
        names = ['calling_obj', 'args', 'kwargs', 'func', 'func_name', 'params', 'method', 'context', 'res', 'calling_obj_', '_self', 'cls']
        ms = [method('n%d%s' % (i, k[-1]), k, [P(n, 'int'), P(names[i - 1], 'str', V('s', 'dd', '6464'))]) for i, n in enumerate(names)
              for k in (['external'], ['readonly'], ['external', 'payable'])]
        one = [[opt(*INIT), opt(*ms)]]
        calls = [call(m['n'], 0, [[n, ['t', ['7']]] for n in ns], 'dict') for m in ms for a, b in [(m['ps'][0][0], m['ps'][1][0])]
                 for ns in ([], [a], [b], [a, b], [b, a], [a, 'calling_obj', 'x'], ['self', a])]
        calls += [call(m['n'], 0, x, 'list') for m in ms for x in ([], [['i', '3']], [['i', '3'], ['s', 'q']])]
        cs = contracts(ctx, one, calls, 'names of parameters')
        replay(ctx, shop, one, cs, calls, 'names of parameters', api=False)
    ctx.exhaustive = True
    ctx.assumptions.append('number texts with surrounding space, "+", "_" or digits of other scripts are left open')
