"""Parameters of calls (CallArgs.tla)."""
import itertools
import json

import mgr
import tlc
from contracts import Shop

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)

CALLER = '''from iconservice import *
import json
def V(v):
    t = v[0]
    if t == 'n': return None
    if t == 'i': return int(v[1])
    if t == 'z': return v[1] == '1'
    if t == 's': return v[1]
    if t == 'b': return bytes.fromhex(v[1])
    if t == 'a': return Address.from_bytes(bytes.fromhex(v[1]))
    if t == 'l': return [V(x) for x in v[1]]
    if t == 'd': return {k: V(x) for k, x in v[1]}
    return 1.5
class Peer(InterfaceScore):
    @interface
    def one(self, a, b, c): pass
    @interface
    def two(self, a: int = 3, **kw): pass
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    @payable
    def go(self, script: str):
        peers, out = {}, []
        for f in json.loads(script):
            to = Address.from_bytes(bytes.fromhex(f['to']))
            p = peers.setdefault(f['to'], self.create_interface_score(to, Peer))
            a, k = [V(x) for x in f['a']], {n: V(x) for n, x in f['k']}
            try:
                if f['s'] == 'icx':
                    p.icx(f['v'])
                    out.append('set')
                    continue
                if f['s'] == 'iface':
                    getattr(p, f['m'])(*a, **k)
                elif f['s'] == 'call':
                    if f['v']:
                        self.call(to, f['m'] or None, k, f['v'])
                    else:
                        self.call(to, f['m'] or None, k)
                elif f['s'] == 'kwcall':
                    self.call(addr_to=to, func_name=f['m'], kw_dict=k, amount=f['v'])
                elif f['s'] == 'transfer':
                    self.icx.transfer(to, f['v'])
                else:
                    self.icx.send(to, f['v'])
                out.append('asked')
            except BaseException:
                out.append('error')
            # what was handed over is not looked at later
            a.append(99)
            k['later'] = 99
        return out
'''


def val(v):
    """decoded value of the wire -> value of the specification"""
    if v is None:
        return ['n', '']
    if isinstance(v, bool):
        return ['z', '1' if v else '0']
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, bytes):
        return ['b', v.hex()]
    if isinstance(v, mgr.Address):
        return ['a', v.b.hex()]
    if isinstance(v, (list, tuple)):
        return ['l', [val(x) for x in v]]
    return ['d', [[k, val(x)] for k, x in v.items()]]


def form(s, to='e1', v=0, m='', a=(), k=()):
    return {'s': s, 'to': to, 'v': v, 'm': m, 'a': list(a), 'k': [list(x) for x in k]}


def calls(ctx):
    I, J = ['i', '1'], ['i', '-200']
    T, B, N, Z = ['s', 'txt'], ['b', '00ff'], ['n', ''], ['z', '1']
    A = ['a', mgr.eoa(0xe7).b.hex()]
    E = ['l', []]
    LL = ['l', [I, ['l', [T, N]], ['d', [['k', B]]]]]
    DD = ['d', [['zz', I], ['a', ['l', [Z]]]]]
    F = ['f', '']
    vals = [I, T, B, N, Z, A, E, LL, DD]
    names = ('a', 'b', 'c')
    le = [form('icx', to, v) for to in ('e1', 'c5') for v in (0, 3, -1)]
    # by position and by name, in every number and order
    for na in range(4):
        for ks in [x for n in range(4) for x in itertools.permutations(names, n)]:
            if na + len(ks) <= 4:
                le.append(form('iface', 'e1', m='one', a=[vals[(na + i) % 9] for i in range(na)], k=[(x, vals[(i + na) % 9]) for i, x in enumerate(ks)]))
    le += [form('iface', 'c5', m='one', a=[v]) for v in vals] + [form('iface', 'c5', m='two', k=[('q', v)]) for v in vals]
    le += [form('iface', 'c5', m='two', k=[(n, I), ('zz', T)]) for n in ('calling_obj', 'self_', 'args', 'kwargs', 'func_name', 'to', 'self2')]
    le += [form('iface', 'c5', m='two'), form('iface', 'e1', m='two', a=[F]), form('iface', 'e1', m='two', a=[I], k=[('x', F)]),
           form('iface', 'e1', m='one', a=[['l', [I, F]]])]
    for v in (0, 1, 2):
        le += [form('call', 'e1', v, 'meth'), form('call', 'c5', v, 'fallback'), form('kwcall', 'e1', v, ''),
               form('call', 'e1', v, '', k=[('p', I)]), form('kwcall', 'e1', v, 'meth', k=[('zz', LL), ('a', T), ('m', DD)]),
               form('transfer', 'e1', v), form('send', 'c5', v), form('call', 'e1', v, 'm', k=[('f', F)])]
    le += [form('call', 'e1', 0, 'x y/' + 'z' * 300, k=[(n, v)]) for n, v in zip(('a', 'é', 'x' * 300, 'self', 'to', 'params', 'method'), vals)]
    few = [x for i, x in enumerate(le) if x['s'] == 'icx' or i % ctx.scale(5, 2) == 0]
    shop = Shop()
    path = shop.package(CALLER)
    me = mgr.cx(0xa1)
    ad = {'e1': mgr.eoa(0xe1), 'c5': mgr.cx(0xc5)}
    with shop:
        for letters, length in ((le, 1), (few, 2), ([x for x in few if x['to'] == 'e1'][:ctx.scale(9, 16)], 4)):
            r = tlc.run('CallArgs', 'SPECIFICATION Spec\nINVARIANT Complete\nINVARIANT Once\n',
                        {'calls.json': json.dumps({'letters': letters, 'length': length})})
            if r.violated:
                raise tlc.TlcError('calls: %s does not hold of the specification' % r.violated)
            ctx.tlc(r, 'parameters of %d calls' % length)
            if len(r.lines) != len(letters) ** length:
                raise tlc.TlcError('calls: %d of %d programs' % (len(r.lines), len(letters) ** length))
            ctx.count('parameters of calls: programs', len(r.lines))
            ctx.sample({'program': [letters[i - 1] for i in r.lines[-1]['p']], 'specified': r.lines[-1]['reqs']})
            for x in r.lines:
                prog = [letters[i - 1] for i in x['p']]
                ctx.traces += 1
                try:
                    shop.world.balance = {me.b: 1000}
                    shop.world.code = {me.b: path}
                    shop.eng.trace = []
                    got = shop.eng.invoke(shop.world, me, 'go', {'script': json.dumps([dict(f, to=ad[f['to']].b.hex()) for f in prog])},
                                          handlers={mgr.CALL: answer})
                    fr = shop.eng.frames[0]
                    reqs = [[c[0].b.hex(), c[1], c[4], val(c[5])] for c in fr.calls]
                except FAIL as e:
                    ctx.violation('calls: %s: %s' % (type(e).__name__, e), {'program': prog})
                    if ctx.nviol > 5:
                        return
                    shop.start()
                    continue
                want = [[ad[q[0]].b.hex()] + q[1:] for q in x['reqs']]
                if got.status != 0 or got.value != x['out'] or reqs != want:
                    ctx.violation('requests differ from the specification: asked %s, specified %s' % (
                        json.dumps([got.value, reqs])[:400], json.dumps([x['out'], want])[:400]), {'program': prog, 'observed': [repr(got), reqs], 'specified': x})


def answer(eng, world, stack, d):
    """The node takes every call and answers with nothing."""
    data = mgr.dec_any(d[4])
    stack[-1].calls.append((mgr.Address(d[0]), mgr.dec_int(d[1]), mgr.dec_int(d[2]), d[3], data['method'], data['params'], d))
    if d[3] not in (b'call', 'call') or set(data) != {'method', 'params'}:
        raise mgr.ProtocolError('malformed call %r' % (d,))
    eng.send(mgr.RESULT, [0, mgr.enc_int(0), mgr.enc_any(None), 0, 0])
    return True
