"""Checks of values and storage layout (Codec.tla, Layout.tla, Address.tla)."""
import hashlib
import json

import mgr
import tlc
from contracts import Shop

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)

ECHO = '''from iconservice import *
import enum
class E2(enum.IntEnum):
    ONE = 1
    NEG = -129
class F2(enum.IntFlag):
    A = 1
class Big(int): pass
def T(v):
    if v is None: return ['nil']
    if type(v) is bool: return ['bool', '1' if v else '0']
    if type(v) is int: return ['int', hex(v)]
    if type(v) is bytes: return ['bytes', v.hex()]
    if type(v) is str: return ['text', v.encode().hex()]
    if type(v) is Address: return ['addr', v.to_bytes().hex()]
    if type(v) is list: return ['list', [T(x) for x in v]]
    if type(v) is dict: return ['map', [[k.encode().hex(), T(x)] for k, x in sorted(v.items())]]
    return ['?', str(type(v))]
TYPES = {'int': int, 'bool': bool, 'bytes': bytes, 'text': str, 'addr': Address}
class Peer(InterfaceScore):
    @interface
    def give(self, v): pass
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    def give(self, v):
        return [T(v), v]
    @external
    def make(self, src: str):
        return eval(src)
    @external
    def pos(self, to: Address, src: str):
        return self.create_interface_score(to, Peer).give(eval(src))
    @external
    def named(self, to: Address, src: str):
        return self.call(to, 'give', {'v': eval(src)})
    @eventlog(indexed=1)
    def Eint(self, a: int, b: int): pass
    @eventlog(indexed=1)
    def Ebool(self, a: bool, b: bool): pass
    @eventlog(indexed=1)
    def Ebytes(self, a: bytes, b: bytes): pass
    @eventlog(indexed=1)
    def Etext(self, a: str, b: str): pass
    @eventlog(indexed=1)
    def Eaddr(self, a: Address, b: Address): pass
    @external
    def emit(self, kind: str, src: str):
        v = eval(src)
        getattr(self, 'E' + kind)(v, v)
    @payable
    @external
    def worth(self, a: Address):
        return [self.msg.value, self.icx.get_balance(a), self.icx.get_balance(self.address)]
    @external
    def pay(self, a: Address, src: str):
        self.icx.transfer(a, eval(src))
    @external
    def keep(self, kind: str, where: str, src: str):
        v, t = eval(src), TYPES.get(kind, int)
        if where == 'var':
            c = VarDB('v', self.db, t)
            c.set(v)
            w = c.get()
        elif where == 'dict':
            c = DictDB('d', self.db, t)
            c['k'] = v
            w = c['k']
        else:
            c = ArrayDB('a', self.db, t)
            c.put(v)
            w = c[0]
            assert len(c) == 1 and c.pop() == v
        return [T(w), w]
'''


def num(b):
    return int.from_bytes(bytes(b), 'big', signed=True)


def source(v):
    k = v[0]
    if k == 'nil':
        return 'None'
    if k == 'bool':
        return 'True' if v[1] else 'False'
    if k == 'int':
        return v[2] if len(v) > 2 else str(num(v[1])) if len(v[1]) < 1000 else hex(num(v[1]))
    if k == 'bytes':
        return repr(bytes(v[1]))
    if k == 'text':
        return repr(bytes(v[1]).decode())
    if k == 'addr':
        return 'Address.from_bytes(%r)' % bytes(v[1])
    if k == 'list':
        return '[%s]' % ', '.join(source(x) for x in v[1])
    if k == 'tuple':
        return '(%s)' % ''.join(source(x) + ', ' for x in v[1])
    if k == 'map':
        return '{%s}' % ', '.join('%r: %s' % (bytes(n).decode(), source(x)) for n, x in v[1])
    if k == 'bad':
        return v[1]
    raise ValueError(v)


def on_wire(w):
    """wire form of the specification -> what msgpack gives"""
    if w[0] == mgr.NIL:
        return [0, None]
    if w[0] == mgr.LIST:
        return [2, [on_wire(x) for x in w[1]]]
    if w[0] == mgr.DICT:
        return [1, {bytes(n): on_wire(x) for n, x in w[1]}]
    return [w[0], bytes(w[1])]


def token(n):
    """what the contract reports of a value it got"""
    k = n[0]
    if k == 'nil':
        return ['nil']
    if k == 'bool':
        return ['bool', str(n[1])]
    if k == 'int':
        return ['int', hex(num(n[1]))]
    if k in ('bytes', 'text', 'addr'):
        return [k, bytes(n[1]).hex()]
    if k == 'list':
        return ['list', [token(x) for x in n[1]]]
    return ['map', [[bytes(m).hex(), token(x)] for m, x in sorted((bytes(m), x) for m, x in n[1])]]


def raw(x):
    """tuples and lists alike"""
    if isinstance(x, (list, tuple)):
        return [raw(y) for y in x]
    if isinstance(x, dict):
        return {k: raw(y) for k, y in x.items()}
    return x


BAD = ['1.5', 'set()', '{1}', 'object()', 'int', 'len', 'bytearray(b"a")', 'memoryview(b"a")', '{1: 2}', '{None: 1}', '{b"k": 1}', '{"a": 1, 2: 2}', 'range(3)',
       '(x for x in [])', '1j', '...', 'VarDB("x", self.db, int)', 'ValueError("e")', '"\\ud800"', 'frozenset([1])', 'float("nan")', '{"a": {(): 1}}',
       '{True: 1}', '{"k": 1}.keys()', 'iter([])', 'Address', '{Address.from_bytes(bytes(21)): 1}', 'self', 'self.db', '[[], {"\\udfff": 1}]']


def values(ctx, d):
    r = tlc.run('CodecEnum', 'SPECIFICATION Spec\nINVARIANT Inverse\nINVARIANT Shortest\n', {'values.json': json.dumps(d)}, heap='12g')
    if r.violated:
        raise tlc.TlcError('values: %s does not hold of the specification' % r.violated)
    ctx.tlc(r, 'values')
    seen = {json.dumps(x['v']): x for x in r.lines}
    return [seen[k] for k in sorted(seen)]


class Echo:
    def __init__(self, ctx):
        self.ctx = ctx
        self.shop = Shop()
        self.path = self.shop.package(ECHO)
        self.calls, self.writes = [], []
        self.start()

    def start(self):
        self.a, self.b = mgr.cx(0xa1), mgr.cx(0xb2)
        self.shop.world.code = {self.a.b: self.path, self.b.b: self.path}

    def do(self, method, params, **kw):
        self.calls, self.writes = [], []
        e = self.shop.eng
        e.trace = []
        self.shop.world.store.clear()

        def call(eng, world, stack, d):
            self.calls.append(d)

        def write(eng, world, stack, d):
            self.writes.append(d)

        def event(eng, world, stack, d):
            self.events.append(d)
        self.events = []
        return e.invoke(self.shop.world, self.a, method, params, handlers={mgr.CALL: call, mgr.SETVALUE: write, mgr.EVENT: event}, **kw)

    def check(self, what, v, good, detail):
        self.ctx.traces += 1
        if not good:
            self.ctx.violation('%s of %s: %s' % (what, source(v)[:120], str(detail)[:300]), {'value': v, 'source': source(v), 'route': what, 'observed': str(detail)})

    def good(self, x):
        v, w, tok = x['v'], on_wire(x['w']), token(x['n'])
        src = source(v)
        pair = [2, [None, w]]

        def ok(r):
            got = raw(r.raw[2])
            return r.status == 0 and got[0] == 2 and len(got[1]) == 2 and got[1][1] == w and plain(mgr.dec_any(got[1][0])) == tok
        r = self.do('make', [src])
        self.check('result', v, r.status == 0 and raw(r.raw[2]) == w, (r.status, r.raw[2], 'specified', w))
        p = mgr.dec_any(w)
        for params in ([p], {'v': p})[:1 if v[0] == 'bytes' else 2]:      # by name, byte strings come as texts (C14)
            r = self.do('give', params)
            self.check('parameter (%s)' % type(params).__name__, v, ok(r), (r, 'specified', tok, w))
        for how in ('pos', 'named'):
            r = self.do(how, [self.b, src])
            a = raw(self.calls[0][-1])[1][b'params'] if self.calls else None
            want = [2, [w]] if how == 'pos' else [1, {b'v': w}]
            self.check('argument (%s)' % how, v, a == want and len(self.calls) == 1, (a, 'specified', want))
            if how == 'pos' or v[0] != 'bytes':
                self.check('result through a call (%s)' % how, v, ok(r), (r, 'specified', tok, w))

    def kept(self, x):
        v, b = x['v'], bytes(x['st'][0])
        for where in ('var', 'dict', 'array'):
            r = self.do('keep', [v[0], where, source(v)])
            got = raw(r.raw[2])
            self.check('storing (%s)' % where, v, self.writes and self.writes[0][2] == b, (self.writes, 'specified', b))
            self.check('reading back (%s)' % where, v, r.status == 0 and got[1][1] == on_wire(x['w']) and plain(mgr.dec_any(got[1][0])) == token(x['n']), r)

        name = b'E' + v[0].encode() + {'text': b'(str,str)', 'addr': b'(Address,Address)'}.get(v[0], b'(%s,%s)' % (v[0].encode(), v[0].encode()))
        r = self.do('emit', [v[0], source(v)])
        self.check('event', v, r.status == 0 and [raw(y) for y in self.events] == [[[name, b], [b]]], (r, self.events, 'specified', [[name, b], [b]]))

    def amount(self, v):
        n, w = num(v[1]), [11, bytes(v[1])]
        e, a = self.shop.eng, mgr.cx(0xc3)
        self.shop.world.balance[a.b], self.shop.world.balance[self.a.b] = n, 1 << 80000
        r = self.do('worth', [a], value=n)
        got = raw(r.raw[2]) if r.status == 0 else None
        self.check('value and balance', v, got and got[1] == [w, w, [11, b'\x01' + bytes(10000)]], r)
        self.do('pay', [a, source(v)])
        self.check('amount sent', v, len(self.calls) == 1 and self.calls[0][1] == bytes(v[1]), self.calls)

    def bad(self, v):
        src = source(v)
        r = self.do('make', [src])
        self.check('result', v, r.status == 1, (r, 'specified: system error'))
        for how in ('pos', 'named'):
            r = self.do(how, [self.b, src])
            self.check('argument (%s)' % how, v, r.status == 1 and not self.calls, (r, self.calls, 'specified: system error and no call'))
        if v[0] == 'bad':
            for where in ('var', 'dict', 'array'):
                r = self.do('keep', ['int', where, src])
                self.check('storing (%s)' % where, v, r.status != 0 and not self.writes, (r, self.writes, 'specified: refused'))
        r = self.do('make', ['7'])
        self.check('the invocation after one', v, r.status == 0 and r.value == 7, r)


def plain(x):
    return [plain(y) for y in x] if isinstance(x, (list, tuple)) else x


def guarded(echo, f, v):
    try:
        f()
    except FAIL as e:
        echo.ctx.violation('%s: %s: %s' % (source(v)[:120], type(e).__name__, e), {'value': v})
        echo.shop.start()
        echo.start()


def c15(ctx):
    B = lambda s: list(s if isinstance(s, bytes) else s.encode())
    texts = ['', 'a', '0x1', '\x00', 'é', '한글', '\U0001f600', 'a\nb"\'\\', ' ', 'ÿ' * 20, 'x' * 31, 'x' * 32, 'x' * 255, 'x' * 256, 'é' * 129, 'None', '\u2028\ufeff', '\x7f\x80']
    blobs = [b'', b'\x00', b'\x01', b'\xff', b'\x80', b'a', b'\x00' * 20, b'\x01' + b'\x00' * 20, b'\x00' * 21, bytes(range(256)), b'\xc3', b'\x00\x01', b'q' * 300]
    addrs = [b'\x00' + bytes(20), b'\x01' + bytes(20), b'\x00' + b'\xff' * 20, b'\x01' + b'\xff' * 20, b'\x01' + bytes(range(20)), b'\x00' + b'\x80' + bytes(19)]
    leaves = [['nil'], ['bool', 0], ['bool', 1], ['list', []], ['tuple', []], ['map', []]]
    leaves += [['text', B(t)] for t in texts] + [['bytes', list(b)] for b in blobs] + [['addr', list(a)] for a in addrs]
    leaves += [['list', [['nil']] * 20], ['list', [['int', [i]] for i in range(40)]], ['map', [[B('k%d' % i), ['bool', i % 2]] for i in range(20)]]]
    leaves += [['int', [1], 'E2.ONE'], ['int', [255, 127], 'E2.NEG'], ['int', [1], 'F2.A'], ['int', [5], 'Big(5)'], ['int', [1], 'AddressPrefix.CONTRACT']]
    nest = ['int', [3]]
    for i in range(60):
        nest = ['list', [nest]] if i % 2 else ['map', [[B('k'), nest]]]
    leaves.append(nest)
    bad = [['bad', b] for b in BAD]
    small = [['nil'], ['bool', 0], ['bool', 1], ['int', [0]], ['int', [1]], ['int', [0, 128]], ['int', [255, 127]], ['text', B('')], ['text', B('1')], ['bytes', []], ['bytes', [1]],
             ['addr', list(addrs[4])], ['list', []], ['map', []]] + bad[:1] + bad[8:9]
    d = {'leaves': leaves + bad, 'small': small, 'digits': [0, 1, 127, 128, 129, 255], 'short': ctx.scale(3, 4),
         'lens': [2, 5, 6, 7, 18, 19, 30, 31, 62, 63, 126] if ctx.quick else list(range(2, 36)) + [62, 63, 64, 126, 127, 254], 'keys': [B('a'), B('b'), B('é "')], 'depth': ctx.scale(2, 3)}
    vs = values(ctx, d)
    ctx.count('values', len(vs))
    e = Echo(ctx)
    with e.shop:
        for i, x in enumerate(vs):
            v = x['v']
            if x['ok']:
                guarded(e, lambda: e.good(x), v)
                if x['st']:
                    guarded(e, lambda: e.kept(x), v)
            else:
                guarded(e, lambda: e.bad(v), v)
        ctx.sample({'value': vs[len(vs) // 3]['v'], 'wire': vs[len(vs) // 3]['w']})
        # sizes the enumeration does not reach, and depths no frame can carry
        for n in (65535, 65536, 70001) + (() if ctx.quick else (1 << 20, 5 << 20)):
            for src, want in (('b"z" * %d' % n, [3, b'z' * n]), ('"é" * %d' % n, [4, 'é'.encode() * n]), ('(1 << (8 * %d - 1)) - 1' % n, [11, b'\x7f' + b'\xff' * (n - 1)]),
                              ('-(1 << (8 * %d - 1))' % n, [11, b'\x80' + b'\x00' * (n - 1)]), ('1 << (8 * %d - 1)' % n, [11, b'\x00\x80' + b'\x00' * (n - 1)]),
                              ('[True] * %d' % (n if n < 100000 else 100000), [2, [[5, b'\x01']] * (n if n < 100000 else 100000)])):
                r = e.do('make', [src])
                e.check('result', ['bad', src], r.status == 0 and raw(r.raw[2]) == want, r.status)
        # numbers with more decimal digits than Python turns into text
        for n in (1786, 1787, 2000, 66000):
            for b in ([1] + [0] * (n - 1), [127] + [255] * (n - 1), [128] + [0] * (n - 1), [255, 127] + [1] * (n - 2)):
                v = ['int', b]
                w = [11, bytes(b)]
                x = {'v': v, 'w': [11, b], 'n': v, 'st': [b], 'ok': True}
                for y in (x, {'v': ['list', [v]], 'w': [2, [[11, b]]], 'n': ['list', [v]]}, {'v': ['map', [[B('k'), v]]], 'w': [1, [[B('k'), [11, b]]]], 'n': ['map', [[B('k'), v]]]}):
                    guarded(e, lambda: e.good(y), v)
                guarded(e, lambda: e.kept(x), v)
                if b[0] < 128:
                    guarded(e, lambda: e.amount(v), v)
        deep = ['bad', '(lambda f: f(f, 5000))(lambda f, n: [] if n == 0 else [f(f, n - 1)] if n > 4100 else (lambda x: [x.append([x.pop()]) for _ in range(n)] and x)([[]]))']
        guarded(e, lambda: e.check('result', deep, e.do('make', [deep[1]]).status == 1, 'specified: system error'), deep)
        guarded(e, lambda: e.check('the invocation after one', deep, e.do('make', ['7']).value == 7, ''), deep)
    ctx.exhaustive = True


BULK = '''from iconservice import *
def made(kind, n):
    if kind == 'bytes': return bytes(range(256)) * (n // 256) + b'z' * (n % 256)
    if kind == 'text': return 'abcdefgh' * (n // 8) + 'z' * (n % 8)
    if kind == 'int': return int.from_bytes(b'\\x5a' + bytes(n - 1), 'big')
    return [b'w' * 1000] * (n // 1000)
class S(IconScoreBase):
    @eventlog
    def Ebytes(self, v: bytes): pass
    @eventlog
    def Etext(self, v: str): pass
    @eventlog
    def Eint(self, v: int): pass
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    def same(self, v):
        return v
    @external
    def fail(self, v):
        revert(v)
    @external
    def go(self, kind: str, n: int, route: str, to: Address, v):
        if v is None:
            v = made(kind, n)
        for h in route.split():
            if h == 'call':
                v = self.create_interface_score(to, Peer).same(v)
            elif h == 'named':
                v = self.call(to, 'same', {'v': v})
            elif h == 'store':
                x = VarDB('v', self.db, {'bytes': bytes, 'text': str, 'int': int}[kind])
                x.set(v)
                v = x.get()
            elif h == 'event':
                getattr(self, 'E' + kind)(v)
            else:
                try:
                    self.create_interface_score(to, Peer).fail(v)
                except IconScoreException as e:
                    v = e.message
        return v
class Peer(InterfaceScore):
    @interface
    def same(self, v): pass
    @interface
    def fail(self, v): pass
'''


def bulk(kind, n):
    if kind == 'bytes':
        return bytes(range(256)) * (n // 256) + b'z' * (n % 256)
    if kind == 'text':
        return 'abcdefgh' * (n // 8) + 'z' * (n % 8)
    if kind == 'int':
        return int.from_bytes(b'\x5a' + bytes(n - 1), 'big')
    return [b'w' * 1000] * (n // 1000)


def leaves(x, least):
    """The sizes of what a message carries: its big strings, those of lists together."""
    out, rest = [], [x]
    pieces = 0
    while rest:
        y = rest.pop()
        if isinstance(y, dict):
            rest.extend(y.values())
        elif isinstance(y, (list, tuple)):
            rest.extend(y)
        elif isinstance(y, (bytes, str)):
            n = len(y) if isinstance(y, bytes) else len(y.encode())
            if n >= least:
                out.append(n)
            elif n == 1000:
                pieces += n
    return out + [pieces] * (pieces > 0)


def sizes(ctx, sizes, length, kinds=('bytes', 'text', 'int', 'list'), timeout=60):
    """Values of any size (Sizes.tla)."""
    r = tlc.run('Sizes', 'SPECIFICATION Spec\nINVARIANTS Unchanged Paired\n', {'sizes.json': json.dumps(
        {'kinds': list(kinds), 'sizes': sizes, 'hops': ['call', 'named', 'store', 'event', 'fail'], 'length': length})})
    if r.violated:
        raise tlc.TlcError('sizes: %s does not hold of the specification' % r.violated)
    ctx.tlc(r, 'values of any size')
    ctx.count('routes of values of any size', len(r.lines))
    a, b = mgr.cx(0xa1), mgr.cx(0xb2)
    with Shop(timeout=timeout) as shop:
        path = shop.package(BULK)

        def start():
            shop.world.code = {a.b: path, b.b: path}
        start()
        for x in r.lines:
            v = bulk(x['kind'], x['size'])
            shop.eng.trace = []
            shop.world.store.clear()
            ctx.traces += 1
            what = 'a value (%s) of size %d, %s, %s' % (x['kind'], x['size'], x['start'], ', '.join(x['route']))
            try:
                f = shop.eng.invoke(shop.world, a, 'go', [x['kind'], x['size'], ' '.join(x['route']), b, v if x['start'] == 'given' else None], limit=1 << 60)
            except FAIL as e:
                ctx.violation('%s: %s: %s' % (what, type(e).__name__, str(e)[-300:]), {'value': x})
                shop.start()
                start()
                continue
            got = []
            for way, msg, d in shop.eng.trace:
                for n in leaves(d, 60000):
                    got.append([way + mgr.NAMES[msg], n])
            want = [[m, n - n % 1000 if x['kind'] == 'list' else n] for m, n in x['carried']]
            # what is handed back to the caller of the contract is the last one
            if got != want or f.status != 0 or f.value != v:
                ctx.violation('%s: it was carried in %s, specified %s, status %s%s' % (what, got, want, f.status, '' if f.value == v else ', changed'), {'value': x})
            shop.eng.trace = []



LAYOUT = '''from iconservice import *
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    def run(self, plan):
        for p in plan:
            kind, subs, name, keys = p
            db = self.db
            for s in subs:
                db = db.get_sub_db(s)
            if kind == 'var':
                c = VarDB(name, db, int)
                c.set(7)
                assert c.get() == 7
                c.remove()
            elif kind == 'dict':
                c = DictDB(name, db, int, len(keys))
                if len(keys) > 1:
                    for act in (lambda: c.__setitem__(keys[0], 9), lambda: c.remove(keys[0]), lambda: c.__delitem__(keys[0])):
                        try:
                            act()
                        except BaseException as e:
                            assert type(e).__name__ == 'InvalidContainerAccessException', e
                        else:
                            revert('half a path')
                for k in keys[:-1]:
                    c = c[k]
                k = keys[-1]
                c[k] = 7
                assert c[k] == 7 and k in c
                del c[k]
                assert k not in c
                c[k] = 7
                c.remove(k)
            else:
                c, i = ArrayDB(name, db, int), keys[0]
                c[i] = 7
                assert c[i] == 7 and c[-1] == 7 and c.get(i) == 7 and len(c) == i + 1
                c[-1] = 8
                assert 8 in c
                assert c.pop() == 8
                c.put(7)
    @external
    def odd(self, kind, where, src: str):
        v = eval(src)
        db = self.db
        n = v if where == 'name' else 'n'
        if where == 'sub':
            db = db.get_sub_db(v)
        if kind == 'var':
            VarDB(n, db, int).set(7)
        elif kind == 'array':
            ArrayDB(n, db, int).put(7)
        else:
            c = DictDB(n, db, int, 2)
            if where == 'key':
                c[v]['k'] = 7
            elif where == 'get':
                c['k'][v]
            elif where == 'has':
                v in c['k']
            elif where == 'del':
                del c['k'][v]
            else:
                c['k'][v if where == 'last' else 'k'] = 7
'''


def layout_value(v):
    k = v[0]
    b = bytes(v[1]) if k != 'bool' else None
    return {'int': lambda: num(v[1]), 'bool': lambda: bool(v[1]), 'bytes': lambda: b, 'text': lambda: b.decode(), 'addr': lambda: mgr.Address(b)}[k]()


class Slots:
    def __init__(self, ctx):
        self.ctx, self.shop = ctx, Shop()
        self.path = self.shop.package(LAYOUT)
        self.a = mgr.cx(0xa1)

    def expected(self, x):
        """writes in any order within one operation, reads, searches"""
        h = lambda p: hashlib.sha3_256(bytes(p)).digest()
        kind, slot, holder = x['it']['kind'], h(x['at']), h(x['holder'])
        if kind == 'var':
            return [(slot, b'\x07'), (slot, None)], {slot}, [], None
        if kind == 'dict':
            return [(slot, b'\x07'), (slot, None)] * 2, {slot}, [], None
        i = num(x['it']['keys'][0][1])
        size = lambda n: (holder, mgr.enc_int(n))
        return ([(slot, b'\x07'), (slot, b'\x08'), (slot, None), size(i), (slot, b'\x07'), size(i + 1)], {slot, holder}, [bytes(x['holder'])], size(i + 1))

    def run(self, xs):
        e, w = self.shop.eng, self.shop.world
        w.code = {self.a.b: self.path}
        w.store.clear()
        ws, reads, seeks = [], set(), []
        want_w, want_r, want_s = [], set(), []
        plan = []
        for x in xs:
            it = x['it']
            plan.append([it['kind'], [bytes(s[1]) for s in it['subs']], layout_value(it['name']), [layout_value(k) for k in it['keys']]])
            a, b, c, size = self.expected(x)
            want_w.append(a)
            want_r |= b
            want_s += c
            if size:
                w.of(self.a)[size[0]] = size[1]

        def write(eng, world, stack, d):
            ws.append((d[0], None if d[1] & mgr.DELETE else d[2]))

        def read(eng, world, stack, d):
            reads.add(d)

        def seek(eng, world, stack, d):
            seeks.append(d[0])
            eng.send(mgr.CONTAINS, [True, 1, 1])
            return True
        e.trace = []
        r = e.invoke(w, self.a, 'run', [plan], handlers={mgr.SETVALUE: write, mgr.GETVALUE: read, mgr.CONTAINS: seek})
        if r.status != 0:
            return 'status %s: %s' % (r.status, r.value)
        n = 0
        order = lambda l: sorted(l, key=repr)
        for a in want_w:
            if order(ws[n:n + len(a)]) != order(a):
                return 'written: %s, specified: %s' % (ws[n:n + len(a)], a)
            n += len(a)
        if n != len(ws):
            return 'written beyond the specified: %s' % ws[n:]
        if reads != want_r:
            return 'read: %s, specified: %s' % (sorted(reads - want_r), sorted(want_r - reads))
        if seeks != want_s:
            return 'searched: %s, specified: %s' % (seeks, want_s)


def c04(ctx):
    import random
    rnd = random.Random(ctx.seed)
    B = lambda s: list(s if isinstance(s, bytes) else s.encode())
    wide = [['bytes', B(bytes([a]))] for a in (0, 1, 2, 3, 0x61, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xb9, 0xbf, 0xc0, 0xff)]
    wide += [['bytes', B(b)] for b in (b'', b'\x80\x80', b'\x81\x80', b'\x02\x01', b'\x00\x00', b'\x01\x01', b'\x81\x81', b'aa', b'a\x80', b'\x80a', b'\xb8\x38', b'\x82aa', b'\x02aa')]
    wide += [['bytes', [x] * n] for n in (31, 32, 33, 54, 55, 56, 57, 127, 128, 255, 256, 257) for x in (0x61, 0x80)]
    wide += [['bytes', B(bytes([n + 0x80]) + b'a' * n)] for n in (2, 31, 54)] + [['bytes', [0xb8, n] + [0x61] * n] for n in (54, 56, 255)]
    wide += [['text', B(t)] for t in ('', 'a', 'é', '한글', '\x00', '\x7f', '\x80', 'a\x00b', 'x' * 55, 'x' * 56, '0', '1', '\U0001f600', 'a' * 300)]
    wide += [['int', B(mgr.enc_int(n))] for n in (0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 0x61, 32767, 32768, 1 << 31, 1 << 63, -(1 << 63), 1 << 64, 1 << 160, 1 << 447, (1 << 440) - 1, 1 << 455)]
    wide += [['bool', 0], ['bool', 1], ['addr', [0] * 21], ['addr', [1] * 21], ['addr', [1] + [0xff] * 20], ['addr', [0] + [7] * 20]]
    for _ in range(ctx.scale(12, 40)):
        wide.append(['bytes', [rnd.randrange(256) for _ in range(rnd.choice([1, 2, 3, 20, 55, 56, 64, 100, 300]))]])
        wide.append(['int', B(mgr.enc_int(rnd.getrandbits(rnd.choice([8, 16, 33, 200, 500])) - rnd.getrandbits(30)))])
    small = [['bytes', [0x61]], ['bytes', [0x80]], ['bytes', [0x81, 0x80]], ['int', [1]]] + ([] if ctx.quick else [['text', B('b')]])
    wide = [v for v in wide if v not in small]
    idx = [0, 1, 2, 10, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 8388607, 8388608, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 62) - 1, (1 << 63) - 2]
    d = {'small': small, 'wide': wide, 'indexes': [['int', B(mgr.enc_int(n))] for n in idx], 'subs': ctx.scale(2, 3), 'len': ctx.scale(3, 4),
         'wides': [1, 2, 1, 0] if ctx.quick else [1, 2, 1, 1, 0]}
    r = tlc.run('LayoutEnum', 'SPECIFICATION Spec\nINVARIANT Distinct\n', {'layout.json': json.dumps(d)}, heap='12g')
    if r.violated:
        raise tlc.TlcError('layout: %s does not hold of the specification' % r.violated)
    ctx.tlc(r, 'layout')
    items = sorted(r.lines, key=lambda x: json.dumps(x['it']))
    rnd.shuffle(items)
    # names beyond what is worth spelling out for TLC: the same rule
    items += [big_item(n) for n in (65535, 65536, 70000)]
    ctx.count('items', len(items))
    ctx.sample(items[0])
    s = Slots(ctx)
    with s.shop:
        size = 48

        def batches():
            cur, used = [], set()
            for x in items:
                if x['it']['kind'] == 'array':      # arrays whose slots are given a content before must not meet
                    keys = {bytes(x['holder']), bytes(x['at'])}
                    if keys & used:
                        yield cur
                        cur, used = [], set()
                    used |= keys
                cur.append(x)
                if len(cur) == size:
                    yield cur
                    cur, used = [], set()
            if cur:
                yield cur
        for xs in batches():
            ctx.traces += len(xs)
            try:
                bad = s.run(xs)
            except FAIL as ex:
                bad = ex
                s.shop.start()
            if bad is None:
                continue
            for x in xs:
                try:
                    why = s.run([x])
                except FAIL as ex:
                    why = ex
                    s.shop.start()
                if why is not None:
                    ctx.violation('%s: %s' % (json.dumps(x['it'])[:200], str(why)[:300]), {'item': x, 'observed': str(why)})
                    break
            else:
                ctx.violation('items one after the other: %s' % str(bad)[:300], {'items': xs, 'observed': str(bad)})
        # anything else is no key, and nothing is read or written under it
        for src in ['None', '1.5', '[]', '()', '{}', 'b"" in {}  or object()', 'set()', 'int', '("a", "b")', 'bytearray(b"a")', 'memoryview(b"a")', '["a"]', 'self', 'self.db', '1j']:
            for kind, where in [('var', 'name'), ('array', 'name'), ('dict', 'name'), ('dict', 'key'), ('dict', 'last'), ('dict', 'get'), ('dict', 'has'), ('dict', 'del')] + ([('var', 'sub')] if src == 'None' else []):
                seen = []
                hs = {m: (lambda eng, world, stack, dd: seen.append(dd) and False) for m in (mgr.SETVALUE, mgr.GETVALUE)}
                ctx.traces += 1
                s.shop.world.store.clear()
                r = s.shop.eng.invoke(s.shop.world, s.a, 'odd', [kind, where, src], handlers=hs)
                if r.status != 6 or seen:
                    ctx.violation('%s as %s of a %s: status %s, messages %s' % (src, where, kind, r.status, seen), {'source': src, 'kind': kind, 'where': where})
    ctx.exhaustive = True


def big_item(n):
    """an item whose name has n bytes (the rule of Rlp for three-byte lengths)"""
    h = n.to_bytes(2 if n < 65536 else 3, 'big')
    name = b'\x90' * n
    at = b'\x02' + bytes([183 + len(h)]) + h + name
    return {'it': {'kind': 'var', 'name': ['bytes', list(name)], 'subs': [], 'keys': []}, 'at': list(at), 'holder': list(at)}


ADDRESSES = '''from iconservice import *
def V(a):
    if a is None:
        return None
    if type(a) is not Address:
        return ['?', str(type(a))]
    return [str(a), a.to_bytes(), a.is_contract, int(a.prefix), a.body, repr(a), str(a.prefix), a]
def O(f):
    try:
        return V(f())
    except BaseException as e:
        return 'refused %s' % type(e).__name__
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.kept = VarDB('a', db, Address)
        self.map = DictDB('m', db, int)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    def texts(self, l):
        return [O(lambda: Address.from_string(t)) for t in l]
    @external
    def byteses(self, l):
        return [O(lambda: Address.from_bytes(b)) for b in l]
    @external
    def make(self, l):
        return [O(lambda: Address(AddressPrefix(c), b)) for c, b in l]
    @external
    def took(self, a: Address):
        return V(a)
    @external
    def load(self):
        return O(lambda: self.kept.get())
    @external
    def odd(self, src: str):
        return O(lambda: eval(src))
    @external
    def who(self):
        return [V(self.msg.sender), V(self.address), V(self.owner), V(self.tx.origin)]
    @external
    def pairs(self, l):
        bad = []
        for i, a in enumerate(l):
            for j, b in enumerate(l):
                same = a.to_bytes() == b.to_bytes()
                if (a == b) != same or (a != b) == same or (same and hash(a) != hash(b)) or (a in {b: 1}) != same or (a in [b]) != same or (str(a) == str(b)) != same:
                    bad.append([i, j])
            if a == str(a) or a == a.to_bytes() or a == None or not a != a.body or a == int(a.prefix):
                bad.append([i, -1])
        if len(set(l)) != len({a.to_bytes() for a in l}):
            bad.append([-1, -1])
        return bad
    @external
    def num(self, l):
        return [O(lambda: Address.from_prefix_and_int(AddressPrefix(c), n)) for c, n in l]
    @external
    def data(self, l):
        return [O(lambda: Address.from_data(AddressPrefix(c), b)) for c, b in l]
    @external
    def key(self, l):
        return [O(lambda: create_address_with_key(k)) for k in l]
'''


def seen(b):
    """what the contract reports of the address with these 21 bytes"""
    t = ('cx' if b[0] else 'hx') + b[1:].hex()
    return [t, b, bool(b[0]), b[0], b[1:], t, t[:2], mgr.Address(b)]


def c20(ctx):
    import random
    rnd = random.Random(ctx.seed)
    hexs = ['0' * 40, 'f' * 40, '0123456789abcdef' * 2 + 'deadbeef'] + [bytes(rnd.randrange(256) for _ in range(20)).hex() for _ in range(ctx.scale(1, 6))]
    texts = [list(p + h) for p in ('hx', 'cx') for h in hexs] + [list(t) for t in ('', 'hx', '0x' + 'a' * 40, 'Hx' + 'a' * 40, 'hX' + '1' * 40, 'a' * 42, 'a' * 40, 'cx' + 'A' * 40, 'hxcx' + 'a' * 38,
             'xh' + '0' * 40, 'hc' + '0' * 40, ' hx' + '0' * 39, 'hx' + 'é' * 40, 'hx' + '０' * 40)]
    chars = list('0f9agAFGx hc-+_.\n\t\x00é０²٣\u2028')
    byteses = [list(b) for b in (bytes(20), bytes(21), b'\x01' + bytes(20), b'\x01' * 20, b'\x01' * 21, b'\xff' * 20, b'\xff' * 21, bytes(range(20)), b'\x00' + bytes(range(20)), b'', b'\x00', b'hx' + b'0' * 40,
                                 b'\x02' + bytes(20), bytes(40), bytes(42), bytes(19), bytes(22), bytes([rnd.randrange(256) for _ in range(21)]))]
    d = {'texts': texts, 'chars': chars, 'byteses': byteses, 'bytes': [0, 1, 2, 3, 10, 127, 128, 255], 'edits': 1}
    cfg = 'SPECIFICATION Spec\nINVARIANT Inverse\n'
    r = tlc.run('AddressEnum', cfg, {'address.json': json.dumps(d)}, heap='12g')
    if r.violated:
        raise tlc.TlcError('addresses: %s does not hold of the specification' % r.violated)
    ctx.tlc(r, 'one edit')
    lines = r.lines
    if not ctx.quick:
        d2 = dict(d, texts=texts[:2], byteses=byteses[:3], chars=list('0Ahx\n'), bytes=[0, 1, 2], edits=2)
        r = tlc.run('AddressEnum', cfg, {'address.json': json.dumps(d2)}, heap='16g')
        ctx.tlc(r, 'two edits')
        lines = lines + r.lines
    by = {}
    for x in lines:
        by[(x['k'], json.dumps(x['s']))] = x
    cases = [by[k] for k in sorted(by)]
    ctx.count('texts and byte strings', len(cases))
    ctx.sample({'text': ''.join(cases[-1]['s']) if cases[-1]['k'] == 'text' else cases[-1]['s'], 'specified': cases[-1]['r']})
    shop = Shop()
    path = shop.package(ADDRESSES)
    a = mgr.cx(0xa1)

    def want(x):
        if x['r'][0] == 'none':
            return None
        if x['r'][0] == 'refused':
            return 'refused'
        y = x['r'][1]
        w = seen(bytes([1 if y['c'] else 0]) + bytes(y['body']))
        assert w[0] == ''.join(x['t'])
        return w
    with shop:
        w, e = shop.world, shop.eng

        def do(method, params, **kw):
            w.code = {a.b: path}
            e = shop.eng
            e.trace = []
            return e.invoke(w, a, method, params, **kw)

        def check(what, case, good, got):
            ctx.traces += 1
            if not good:
                ctx.violation('%s: %s: %s' % (what, str(case)[:150], str(got)[:200]), {'route': what, 'case': str(case), 'observed': str(got)})

        def match(got, x):
            y = want(x)
            return str(got).startswith('refused') if y == 'refused' else got == y

        def batch(what, method, cs, arg, ok, size=200):
            for i in range(0, len(cs), size):
                xs = cs[i:i + size]
                try:
                    r = do(method, [[arg(x) for x in xs]])
                except FAIL as ex:
                    check(what, 'batch', False, ex)
                    shop.start()
                    continue
                if r.status != 0 or len(r.value) != len(xs):
                    check(what, 'batch', False, r)
                    continue
                for x, got in zip(xs, r.value):
                    check(what, x, ok(x, got), got)
        ts, bs = [x for x in cases if x['k'] == 'text'], [x for x in cases if x['k'] == 'bytes']
        batch('from_string', 'texts', ts, lambda x: ''.join(x['s']), lambda x, g: match(g, x) and (x['r'][0] != 'refused' or g == 'refused InvalidParamsException'))
        batch('from_bytes', 'byteses', bs, lambda x: bytes(x['s']), lambda x, g: match(g, x))
        # the specification's Make: kinds and bodies
        mk = [(c, bytes(n)) for c in (0, 1) for n in list(range(0, 45)) + [63, 64, 255]] + [(c, bytes(x['s'])) for c in (0, 1) for x in bs if len(x['s']) == 20]
        batch('constructor', 'make', mk, list, lambda m, g: g == seen(bytes([m[0]]) + m[1]) if len(m[1]) == 20 else g == 'refused InvalidParamsException')
        # as parameters by name, in storage, as sender, owner and address
        step = 1 if not ctx.quick else 4
        for x in [x for i, x in enumerate(ts) if x['r'][0] == 'addr' or i % step == 0]:
            t = ''.join(x['s'])
            try:
                r = do('took', {'a': t})
                y = want(x)
                check('parameter by name', t, r.status == 6 if y == 'refused' else r.status == 0 and r.value == y, r)
            except FAIL as ex:
                check('parameter by name', t, False, ex)
                shop.start()
        slot = hashlib.sha3_256(b'\x02a').digest()
        for x in bs:
            try:
                w.code = {a.b: path}
                w.store.clear()
                w.of(a)[slot] = bytes(x['s'])
                r = do('load', [])
                check('from storage', x['s'], r.status == 0 and match(r.value, x), r)
            except FAIL as ex:
                check('from storage', x['s'], False, ex)
                shop.start()
        w.store.clear()
        valid = sorted({bytes([1 if x['r'][1]['c'] else 0]) + bytes(x['r'][1]['body']) for x in cases if x['r'][0] == 'addr'})
        rnd.shuffle(valid)
        for b in valid[:ctx.scale(300, 3000)]:
            ad = mgr.Address(b)
            r = do('took', [ad])
            check('parameter by position', ad, r.status == 0 and r.value == seen(b), r)
        for b in [v for v in valid if v[0]][:ctx.scale(100, 1000)]:
            me, frm = mgr.Address(b), mgr.Address(valid[rnd.randrange(len(valid))])
            w.code = {me.b: path}
            e = shop.eng
            e.trace = []
            info = dict(w.info(me), **{'C.owner': mgr.Address(valid[rnd.randrange(len(valid))]), 'T.from': mgr.Address(valid[rnd.randrange(len(valid))])})
            r = e.invoke(w, me, 'who', [], frm=frm, info=info)
            check('sender, address, owner, origin', me, r.status == 0 and r.value == [seen(frm.b), seen(me.b), seen(info['C.owner'].b), seen(info['T.from'].b)], r)
        # equality and hashing agree with the bytes
        flip = [b[:i] + bytes([b[i] ^ m]) + b[i + 1:] for b in valid[:3] for i in range(1, 21) for m in (1, 0x80)] + [bytes([1 - b[0]]) + b[1:] for b in valid[:40]]
        ring = valid[:40] + flip + valid[:40]
        for i in range(0, len(ring), 60):
            r = do('pairs', [[mgr.Address(b) for b in ring[i:i + 60] + valid[:20]]])
            check('equality and hashing', i, r.status == 0 and r.value == [], r)
        r = do('pairs', [[mgr.Address(b) for b in ring[::3]]])
        check('equality and hashing', 'all', r.status == 0 and r.value == [], r)
        # numbered, hashed and key addresses
        nums = [(c, n) for c in (0, 1) for n in [0, 1, 2, 127, 128, 255, 256, 65535, 1 << 31, 1 << 63, (1 << 158), (1 << 159) - 1, 1 << 159, (1 << 160) - 1, 1 << 160, 1 << 200] + [rnd.getrandbits(rnd.randrange(1, 159)) for _ in range(50)]]
        batch('numbered', 'num', nums, list, lambda m, g: g == seen(bytes([m[0]]) + m[1].to_bytes(20, 'big')) if m[1] < 1 << 159 else g == 'refused InvalidParamsException')
        datas = [(c, bytes(rnd.randrange(256) for _ in range(n))) for c in (0, 1) for n in list(range(40)) + [135, 136, 137, 300]]
        batch('hashed', 'data', datas, list, lambda m, g: g == seen(bytes([m[0]]) + hashlib.sha3_256(m[1]).digest()[-20:]))
        keys = key_cases(rnd, ctx.scale(60, 600))
        batch('of a key', 'key', keys, lambda k: k[0], lambda k, g: g == (None if k[1] is None else seen(b'\x00' + k[1])))
        # what is no text and no byte string
        for src, w_ in [('Address.from_string(%s)' % x, 'refused InvalidParamsException') for x in ('None', '7', 'b"hx" + b"0" * 40', '["h"] * 42', 'Address.from_bytes(bytes(21))', '("hx",) + ("0",) * 40', '1.5', 'object()')] + \
                [('Address.from_bytes(%s)' % x, None) for x in ('None', '7', '"hx" + "0" * 40', '"0" * 20', '"0" * 21', '[0] * 21', 'bytearray(21)', 'memoryview(bytes(21))', 'object()')] + \
                [('Address(%s, %s)' % x, 'refused InvalidParamsException') for x in (('0', 'bytes(20)'), ('AddressPrefix.EOA', '"0" * 20'), ('AddressPrefix.EOA', '[0] * 20'), ('AddressPrefix.EOA', 'bytearray(20)'), ('"hx"', 'bytes(20)'), ('None', 'bytes(20)'), ('AddressPrefix.CONTRACT', 'None'), ('True', 'bytes(20)'))]:
            r = do('odd', [src])
            check('of another kind', src, r.status == 0 and r.value == w_, r)
        for src, n in (('SYSTEM_SCORE_ADDRESS', 0), ('ZERO_SCORE_ADDRESS', 0)):
            r = do('odd', [src])
            check('constant', src, r.value == seen(b'\x01' + n.to_bytes(20, 'big')), r)
    ctx.exhaustive = True


def key_cases(rnd, n):
    """public keys on the curve secp256k1 and near it, with the account's body (pure arithmetic, no library)"""
    P = 2 ** 256 - 2 ** 32 - 977
    out = []
    x = 1
    while len(out) < n * 5:
        x = rnd.randrange(1, P) if len(out) else 1
        y2 = (pow(x, 3, P) + 7) % P
        y = pow(y2, (P + 1) // 4, P)
        xb = x.to_bytes(32, 'big')
        if y * y % P != y2:
            out += [(bytes([p]) + xb, None) for p in (2, 3)]
            continue
        for v in (y, P - y):
            full = xb + v.to_bytes(32, 'big')
            body = hashlib.sha3_256(full).digest()[-20:]
            out.append((bytes([2 + v % 2]) + xb, body))
            out.append((b'\x04' + full, body))
            out.append((bytes([rnd.choice([0, 1, 4, 5, 6, 7, 0x82, 255])]) + xb, None))
            out.append((bytes([rnd.choice([0, 1, 2, 3, 5, 0x84, 255])]) + full, None))
            out.append((rnd.choice([full, xb, b'\x04' + full + b'\x00', b'\x04' + full[:-1], b'\x02' + xb + b'\x00', bytes([2 + v % 2]) + xb[:-1], b'']), None))
    out += [('text', None), (None, None), (7, None)]
    return out
