"""Contracts of the same names with different declarations, in one engine (Twins.tla)."""
import json

import mgr
import tlc
from contracts import INIT, Shop, Source, method, params, wire, PRELUDE
from props.decl_props import ADDR, NO, NONE, V, compare_api, compare_call
from props.request_props import plain

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)
BASES = ['int', 'str', 'bytes', 'bool', 'Address']
#: a value of each type as argument by position, and texts for arguments by name
TOKENS = [['i', '0'], ['i', '-77'], ['z', '1'], ['z', '0'], ['s', ''], ['s', 'ab'], ['b', ''], ['b', '00ff'], ['a', ADDR], ['n', '']]
TEXTS = ['', '0', '7', '0x1f', '-0x2', 'ff', '00', 'abc', ADDR, 'hx' + ADDR[2:], 'true']
DEFS = {'int': [V('i', '5', '05'), V('i', '0', '00')], 'str': [V('s', '', ''), V('s', 'q', '71')], 'bytes': [V('b', 'ff', 'ff')],
        'bool': [V('z', '0', '00'), V('z', '1', '01')], 'Address': [V('a', ADDR, '01' + ADDR[2:])]}
EMIT = '''
def _un(v):
    k, x = v
    return {'i': int, 's': str, 'b': bytes.fromhex, 'z': lambda x: x == '1', 'a': Address.from_string, 'n': lambda x: None}[k](x)
'''


class Twin(Source):
    """The method emit records events."""

    def member(self, m):
        s = super().member(m)
        if m['n'] == 'emit':
            s = s[:s.index('        return')] + '        n, a = json_loads(w)\n        getattr(self, n)(*[_un(x) for x in a])\n'
        return s


class Maker:
    def __init__(self, rnd):
        self.r = rnd

    def type(self, d=0):
        r = self.r
        if d < 2 and r.random() < .3:
            k = r.choice(['list', 'struct', 'struct'] + ['opt'] * (d == 0))
            if k == 'struct':
                return ['struct', [[n, self.type(d + 1)] for n in r.sample(['u', 'v', 'w', 'x'], r.randint(1, 3))]]
            t = self.type(2 if k == 'opt' else d + 1)
            return [k, t]
        if r.random() < .03:
            return r.choice([['bad', 'float'], ['bad', 'dict'], ['bad', 'object'], ['bad', 'tuple']])
        return [r.choice(BASES + (['ref', 'none'] if d == 0 else []))]

    def params(self, names, event=False):
        r, out, opt = self.r, [], False
        for n in r.sample(names, r.choice([0, 1, 1, 2, 2, len(names)])):
            t = [r.choice(BASES + ['ref'])] if event else self.type()
            base = 'Address' if t[0] == 'ref' else 'str' if t[0] == 'none' else t[0]
            d = NO
            if opt or r.random() < .3:
                opt = True
                d = r.choice(DEFS[base] + [NONE]) if base in DEFS else NONE
                if r.random() < .03:
                    d = r.choice(DEFS[r.choice(BASES)])
            out.append([n, t, d])
        return out

    def contract(self):
        r = self.r
        kinds = [['external']] * 5 + [['readonly']] * 2 + [['external', 'payable'], ['payable', 'external'], ['payable'], []]
        ms = []
        for n in ('a', 'b'):
            if r.random() < .9:
                d = r.choice(kinds)
                if r.random() < .03:
                    d = r.choice([['external', 'external'], ['readonly', 'payable'], ['eventlog4'], ['isolated'], ['external', 'eventlog']])
                t = self.type()
                ms.append(method(n, d, self.params(['x', 'y']), t if t[0] in BASES + ['list', 'struct'] and r.random() < .5 else ['none']))
        ps = self.params(['p', 'q', 's', 't'], True)
        ms.append(method('E', [r.choice(['eventlog', 'eventlog1', 'eventlog2', 'eventlog3'][:len(ps) + 1])], ps))
        ps = self.params(['p', 'q'], True)
        ms.append(method('F', ['eventlog' if r.random() < .9 or len(ps) == 2 else 'eventlog2'], ps))
        ms.append(method('emit', [r.choice(['external'] * 4 + ['readonly'])], [['w', ['str'], NO]]))
        if r.random() < .5:
            ms.append(method('fallback', r.choice([['payable'], ['payable'], []])))
        r.shuffle(ms)
        if r.random() < .3:
            k = r.randint(1, len(ms) - 1)
            top = ms[k:]
            for m in ms[:k]:
                if m['n'] in ('a', 'b') and r.random() < .6:
                    top.append(method(m['n'], r.choice(kinds), self.params(['x', 'y'])))
            return [INIT + ms[:k], top]
        return [INIT + ms]

    def call(self, ls):
        """mostly of what some contract declares"""
        r = self.r
        m = r.choice(['a', 'a', 'a', 'b', 'b', 'b', 'fallback', 'E', 'c', 'emit'])
        v = r.choice([0, 0, 0, 0, 1])
        if r.random() < .3:
            a = [r.choice(TOKENS) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
            return {'m': m, 'v': v, 'kind': 'list', 'a': a} if m != 'emit' else {'m': m, 'v': v, 'kind': 'list', 'a': []}
        own = [x['ps'] for l in ls for x in l if x['n'] == m]
        names = [p[0] for p in own[-1]] if own and r.random() < .8 else r.sample(['x', 'y', 'z'], r.choice([0, 1, 1, 2]))
        if names and r.random() < .2:
            names = names[1:]
        return {'m': m, 'v': v, 'kind': 'dict', 'a': [[n, ['t', list(r.choice(TEXTS))] if r.random() < .95 else ['n', '']] for n in names if n != 'w']}

    def emit(self, ls):
        r = self.r
        e = r.choice(['E', 'E', 'F'])
        ps = [x['ps'] for l in ls for x in l if x['n'] == e][-1]
        if r.random() < .75:      # arguments that fit, if these are the declarations in force
            ok = {'int': 'iz', 'bool': 'z', 'str': 's', 'bytes': 'b'}
            a = [r.choice([t for t in TOKENS if t[0] in ok.get(p[1][0], 'a') or t[0] == 'n']) for p in ps]
            return {'k': 'emit', 'e': e, 'a': a[:r.choice([len(a), len(a), max(0, len(a) - 1)])]}
        return {'k': 'emit', 'e': e, 'a': [r.choice(TOKENS) for _ in range(r.choice([0, 1, 2, 3]))]}


def twins(ctx, kinds, n, length, what='contracts of the same names'):
    """n engines, each with some contracts of the same names, asked in turn for `length` things of the given kinds"""
    for _ in range(n):
        mk = Maker(ctx.rng)
        r = ctx.rng
        cs = [mk.contract() for _ in range(r.choice([3, 6, 12]))]
        steps, now = [{'k': 'deploy', 'c': 1}], 1
        asked = {'call': [], 'emit': []}
        while len(steps) < length:
            if r.random() < .45:
                now = r.randint(1, len(cs))
                steps.append({'k': 'deploy', 'c': now})
            k = r.choice(kinds)
            if k == 'api':
                steps.append({'k': 'api'})
                continue
            if asked[k] and r.random() < .4:       # the same again, of another contract
                s = r.choice(asked[k][-8:])
            else:
                s = mk.emit(cs[now - 1]) if k == 'emit' else {'k': 'call', 'call': mk.call(cs[now - 1])}
                asked[k].append(s)
            steps.append(s)
        run = tlc.run('Twins', 'SPECIFICATION Spec\nINVARIANTS Refusing Shaped\n', {'twins.json': json.dumps({'contracts': cs, 'steps': steps})})
        if run.violated:
            raise tlc.TlcError('twins: %s does not hold of the specification' % run.violated)
        ctx.tlc(run, what)
        outs = {x['i']: x for x in run.lines}
        if len(outs) != len(steps):
            raise tlc.TlcError('twins: incomplete')
        replay(ctx, cs, steps, outs, what)


def replay(ctx, cs, steps, outs, what):
    with Shop(timeout=20) as shop:
        def made(c):
            return PRELUDE + EMIT + Twin().classes(c)
        texts = [made(c) for c in cs]
        paths = [shop.package(t) for t in texts]
        to = mgr.cx(0x5a)
        for i, s in enumerate(steps, 1):
            x = outs[i]
            c, o = x['c'] - 1, x['out']
            if s['k'] == 'deploy':
                continue
            ctx.traces += 1
            ctx.count('asked of contracts of the same names: ' + s['k'])
            try:
                if s['k'] == 'api':
                    compare_api(ctx, what, texts[c], o['ok'], o['api'], shop.api(paths[c]), None)
                elif s['k'] == 'call':
                    res = shop.call(paths[c], s['call']['m'], params(s['call']), value=s['call']['v'], to=to)
                    if o['ok'] and s['call']['m'] in ('E', 'F', 'emit'):
                        raise tlc.TlcError('twins: an event was called')
                    compare_call(ctx, what, texts[c], s['call'], o, res, None)
                else:
                    res = shop.call(paths[c], 'emit', [json.dumps([s['e'], s['a']])], to=to)
                    got = [d for y, m, d in shop.eng.trace if y == '<' and m == mgr.EVENT]
                    if o['ok']:
                        want = [[[o['sig'].encode()] + [plain(wire(a)) for a in o['indexed']], [plain(wire(a)) for a in o['data']]]]
                        bad = res.status != 0 or got != want
                    else:
                        want, bad = [], res.status not in o['codes'] or got
                    if bad:
                        ctx.violation('%s: %s(%s): status %s (%r), events %r, specified %s' % (
                            what, s['e'], json.dumps(s['a']), res.status, res.value, got, want if o['ok'] else 'to fail with %s' % o['codes']),
                            {'source': texts[c], 'step': s, 'specified': o, 'observed': repr(got)})
            except FAIL as e:
                ctx.violation('%s: %s: %s' % (what, type(e).__name__, e), {'source': texts[c], 'step': s})
                shop.start()
