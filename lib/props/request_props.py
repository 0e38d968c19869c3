"""What is asked of the node, for values of any kind (Requests.tla)."""
import hashlib
import json

import mgr
import tlc
from contracts import Shop
from machine import TAGS, key_of

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)
T = mgr.cx(0x77)            # what is called
EOA = mgr.eoa(0x78)
U = mgr.eoa(0x79)            # called by hooks
BIG = 2 ** 100
X = key_of('V/x')              # what hooks write

#: kind -> class, size, and the value as it should be on the wire
KINDS = {
    '0': ('int', 0, 0), '7': ('int', 7, 7), '-1': ('int', -1, -1), 'big': ('int', 101, BIG), '100': ('int', 100, 100), '101': ('int', 101, 101),
    'true': ('bool', 1, True), 'false': ('bool', 0, False), 'text': ('text', 0, 'seven'), 'digits': ('text', 0, '7'), 'void': ('text', 0, ''),
    'bytes': ('bytes', 0, b'7'), 'nul': ('bytes', 0, b'\x00'), 'addr': ('addr', 0, T), 'eoa': ('addr', 0, EOA), 'bytes21': ('bytes', 0, T.b),
    'textaddr': ('text', 0, str(T)), 'short': ('badaddr', 0, None), 'long': ('badaddr', 0, None), 'none': ('none', 0, None),
    'list': ('list', 0, [1, 'a', None]), 'tuple': ('list', 0, [b'', True]), 'map': ('map', 0, {'a': True, 'b': [T]}),
    'float': ('other', 0, None), 'seven': ('other', 0, None), 'obj': ('other', 0, None), 'set': ('other', 0, None), 'array': ('other', 0, None),
    'deep': ('other', 0, None), 'intkey': ('other', 0, None), 'badlist': ('other', 0, None), 'cls': ('other', 0, None),
    'intsub': ('int', 7, 7), 'liar': ('int', -1, -5), 'enum': ('int', 3, 3), 'textsub': ('text', 0, 'abc'), 'textenum': ('text', 0, 'red'),
    'bytessub': ('bytes', 0, b'abc'), 'addrsub': ('addr', 0, EOA), 'listsub': ('list', 0, [1, 2]), 'mapsub': ('map', 0, {'abc': b'abc'}),
    # whose methods, and every attribute asked of them, write to the storage
    'hint': ('int', 7, 7), 'hneg': ('int', -1, -1), 'htext': ('text', 0, 'abc'), 'hbytes': ('bytes', 0, b'abc'), 'haddr': ('addr', 0, EOA),
    'hlist': ('list', 0, [1, 'b']), 'hmap': ('map', 0, {'abc': 1}), 'hshort': ('badaddr', 0, None), 'hobj': ('other', 0, None),
    # which claim another class
    'likeint': ('like', 0, None), 'liketext': ('like', 0, None), 'likebytes': ('like', 0, None), 'likeaddr': ('like', 0, None),
    'likelist': ('like', 0, None), 'likemap': ('like', 0, None), 'likebool': ('like', 0, None), 'likenone': ('like', 0, None),
}
HOOKED = [k for k in KINDS if k[0] == 'h']
OPS = ['transfer', 'pay', 'send', 'callto', 'callamount', 'callname', 'callarg', 'facearg', 'faceamount', 'balance', 'fee',
       'evint', 'evtext', 'evbytes', 'evbool', 'evaddr', 'set', 'key', 'name', 'ret', 'at', 'atset', 'faceto', 'faceabs', 'callkw', 'revert', 'message', 'hash', 'loads', 'dumps']
#: what json_dumps takes
JSON = {'0', '7', '-1', 'big', '100', '101', 'true', 'false', 'text', 'digits', 'void', 'textaddr', 'none', 'list', 'float', 'seven', 'intkey', 'badlist',
        'intsub', 'liar', 'enum', 'textsub', 'textenum', 'listsub', 'hint', 'hneg', 'htext', 'hlist', 'hmap'}
#: what kinds convert to as codes of failures
CODES = {'0': 0, '7': 7, '-1': -1, 'big': 1000, '100': 100, '101': 101, 'true': 1, 'false': 0, 'digits': 7, 'bytes': 7, 'array': 7, 'float': 5, 'seven': 7,
         'obj': 7, 'liar': -1, 'enum': 3, 'hint': 7, 'hneg': -1}


def left_out(o, k):
    """What is not asked for: malformed addresses are stored as they are; the methods of indices are used."""
    c = KINDS[k][0]
    return o == 'loads' and c == 'like' or o in ('set', 'key', 'name') and c == 'badaddr' or o in ('at', 'atset') and k in ('intsub', 'liar', 'hneg') or o == 'revert' and k == 'intsub' or \
        o == 'callkw' and c in ('text', 'bytes', 'int', 'bool', 'addr', 'badaddr')


EVENTS = {'evint': 'I(int)', 'evtext': 'X(str)', 'evbytes': 'B(bytes)', 'evbool': 'L(bool)', 'evaddr': 'A(Address)'}

SOURCE = '''from iconservice import *
from enum import Enum, IntEnum
class Obj:
    def __lt__(self, o): return False
    __gt__ = __le__ = __ge__ = __lt__
    def __len__(self): return 1
    def __index__(self): return 7
    def __int__(self): return 7
    def to_bytes(self, *a, **k): return b'x' * 21
    def encode(self, *a): return b'text'
class Int(int):
    def bit_length(self): return 100
    def to_bytes(self, *a, **k): return 'text'
    def __add__(self, o): return 'text'
    __radd__ = __sub__ = __or__ = __add__
    def __lt__(self, o): return False
    def __index__(self): return 300
    __int__ = __index__
class Liar(int):
    def __lt__(self, o): return False
    def __ge__(self, o): return True
    def __or__(self, o): return 5
class Text(str):
    def encode(self, *a): return 5
    def __add__(self, o): return 5
    __radd__ = __add__
    def __str__(self): return 5
    def __len__(self): return 1000
    def __iter__(self): raise Exception('iter')
class Bytes(bytes):
    def __len__(self): return 1000
    def __bytes__(self): return b'other'
    def __getitem__(self, i): return 0
    def __add__(self, o): return 5
    __radd__ = __add__
class Addr(Address):
    def to_bytes(self): return b'x'
    def __str__(self): return 'hx'
    __repr__ = __str__
    def __eq__(self, o): return True
    def __hash__(self): return 1
class List(list):
    def __len__(self): return 1000
class Map(dict):
    def __len__(self): return 0 if not dict.__len__(self) else 1000
class Enu(IntEnum):
    C = 3
class TextEnum(str, Enum):
    RED = 'red'
def hook():
    s = S.it
    if s is None or s.busy:
        return
    s.busy = True
    try:
        Logger.info('in', '')
        how = s.block_height %% 3
        for i in range(8 if how == 1 else 1):
            if how != 2:
                Logger.info('got %%d' %% s.x.get(), '')
            n = S.n = S.n + 1
            Logger.info('set %%d' %% n, '')
            s.x.set(n)
            if how == 2:
                s.icx.transfer(U, 0)
                Logger.info('got %%d' %% s.x.get(), '')
                n = S.n = S.n + 1
                Logger.info('set %%d' %% n, '')
                s.x.set(n)
        Logger.info('out', '')
    finally:
        s.busy = False
def hooked(base, *names):
    def wrap(n):
        f = getattr(base, n)
        def g(s, *a, **k):
            hook()
            return f(s, *a, **k)
        return property(g) if n in ('prefix', 'body') else g
    def prop(n):
        f = getattr(base, n).fget
        def g(s):
            hook()
            return f(s)
        return property(g)
    names += ('__getattribute__', '__str__', '__repr__', '__format__', '__hash__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__len__',
              '__bool__', '__iter__', '__getitem__', '__contains__', '__reduce_ex__', '__reduce__', '__sizeof__', '__dir__')
    d = {n: prop(n) if isinstance(getattr(base, n), property) else wrap(n) for n in names if getattr(base, n, None) is not None}
    def deep(s, memo):
        hook()
        return s
    d['__deepcopy__'] = deep
    return type('H' + base.__name__, (base,), d)
NUM = ('__int__', '__index__', '__add__', '__radd__', '__sub__', '__rsub__', '__or__', '__ror__', '__and__', '__neg__', '__abs__', '__trunc__', '__floor__',
       'to_bytes', 'bit_length', '__floordiv__', '__mod__', '__mul__')
SEQ = ('__add__', '__mul__', '__rmul__', 'index', 'count')
HInt = hooked(int, *NUM)
HText = hooked(str, 'encode', 'format', 'join', 'lower', 'split', 'strip', 'startswith', *SEQ)
HBytes = hooked(bytes, 'decode', 'hex', 'join', 'startswith', '__bytes__', *SEQ)
HAddr = hooked(Address, 'prefix', 'body', 'is_contract', 'to_bytes')
HList = hooked(list, '__reversed__', 'copy', 'append', *SEQ)
HMap = hooked(dict, 'items', 'keys', 'values', 'get', 'copy', '__reversed__', '__or__')
HObj = hooked(object)
def like(c):
    class Like:
        __class__ = property(lambda s: hook() or c)
    return Like()
class Peer(InterfaceScore):
    @interface
    def m(self, a): pass
T = Address.from_string('%s')
E = Address.from_string('%s')
U = Address.from_string('%s')
class S(IconScoreBase):
    @eventlog
    def I(self, a: int): pass
    @eventlog
    def X(self, a: str): pass
    @eventlog
    def B(self, a: bytes): pass
    @eventlog
    def L(self, a: bool): pass
    @eventlog
    def A(self, a: Address): pass
    def __init__(self, db):
        super().__init__(db)
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    it, n = None, 5
    busy = False
    def val(self, k):
        return {'0': 0, '7': 7, '-1': -1, 'big': 2 ** 100, '100': 100, '101': 101, 'true': True, 'false': False, 'text': 'seven', 'digits': '7',
                'void': '', 'bytes': b'7', 'nul': bytes(1), 'addr': T, 'eoa': E, 'bytes21': T.to_bytes(), 'textaddr': str(T),
                'short': Address(AddressPrefix.CONTRACT, b'abc', True), 'long': Address(AddressPrefix.EOA, b'a' * 21, True), 'none': None,
                'list': [1, 'a', None], 'tuple': (b'', True), 'map': {'a': True, 'b': [T]}, 'float': 5.5, 'seven': 7.0, 'obj': Obj(), 'set': {1},
                'array': bytearray(b'7'), 'deep': [{'a': [1, Obj()]}], 'intkey': {1: 2}, 'badlist': [1, 5.5], 'cls': int, 'intsub': Int(7), 'liar': Liar(-5),
                'enum': Enu.C, 'textsub': Text('abc'), 'textenum': TextEnum.RED, 'bytessub': Bytes(b'abc'), 'addrsub': Addr(E.prefix, E.body),
                'listsub': List([1, Int(2)]), 'mapsub': Map({Text('abc'): Bytes(b'abc')}),
                'hint': HInt(7), 'hneg': HInt(-1), 'htext': HText('abc'), 'hbytes': HBytes(b'abc'), 'haddr': HAddr(E.prefix, E.body, True),
                'hlist': HList([HInt(1), HText('b')]), 'hmap': HMap({'abc': HInt(1)}), 'hshort': HAddr(E.prefix, b'abc', True), 'hobj': HObj(),
                'likeint': like(int), 'liketext': like(str), 'likebytes': like(bytes), 'likeaddr': like(Address), 'likelist': like(list),
                'likemap': like(dict), 'likebool': like(bool), 'likenone': like(type(None))}[k]
    @external
    @payable
    def go(self, prog: str):
        ret = None
        S.n, self.busy = 5, False
        self.x = VarDB('x', self.db, int)
        for o, k, g in json_loads(prog):
            S.it = None
            v = self.val(k)
            S.it = self
            try:
                Logger.info('op ' + o, '')
                r = self.do(o, v)
                Logger.info('end', '')
            except BaseException:
                Logger.info('failed', '')
                if not g:
                    raise
            else:
                ret = r if o in ('ret', 'send', 'at') else ret
        Logger.info('return', '')
        return ret
    def do(self, o, v):
        if o == 'transfer': self.icx.transfer(T, v)
        elif o == 'pay': self.icx.transfer(v, 0)
        elif o == 'send': return self.icx.send(T, v)
        elif o == 'callto': self.call(v, 'm', {})
        elif o == 'callamount': self.call(T, 'm', {}, v)
        elif o == 'callname': self.call(T, v, {})
        elif o == 'callarg': self.call(T, 'm', {'a': v})
        elif o == 'facearg': self.create_interface_score(T, Peer).m(v)
        elif o == 'faceamount': self.create_interface_score(T, Peer).icx(v).m(0)
        elif o == 'balance': self.icx.get_balance(v)
        elif o == 'fee': self.set_fee_sharing_proportion(v)
        elif o == 'evint': self.I(v)
        elif o == 'evtext': self.X(v)
        elif o == 'evbytes': self.B(v)
        elif o == 'evbool': self.L(v)
        elif o == 'evaddr': self.A(v)
        elif o == 'set': VarDB('v', self.db, int).set(v)
        elif o == 'key': DictDB('d', self.db, int)[v] = 1
        elif o == 'name': VarDB(v, self.db, int).set(1)
        elif o == 'ret': return v
        elif o == 'at': return ArrayDB('e', self.db, int)[v]
        elif o == 'atset': ArrayDB('e', self.db, int)[v] = 100
        elif o == 'faceto': self.create_interface_score(v, Peer).m(0)
        elif o == 'faceabs': self.create_interface_score(v, InterfaceScore)
        elif o == 'callkw': self.call(T, 'm', v)
        elif o == 'revert': revert('no', v)
        elif o == 'message': revert(v, 7)
        elif o == 'hash': sha3_256(v), sha_256(v), create_address_with_key(v), recover_key(v, v)
        elif o == 'loads': json_loads(v)
        elif o == 'dumps': json_dumps(v)
''' % (T, EOA, U)


def plain(v):
    """The bytes of a value which stands alone."""
    if v is None or isinstance(v, bytes):
        return v
    if isinstance(v, str):
        return v.encode()
    return v.b if isinstance(v, mgr.Address) else mgr.enc_int(int(v))


def listed(v):
    """A tagged value as it is read."""
    if isinstance(v, dict):
        return {k.encode() if isinstance(k, str) else k: listed(x) for k, x in v.items()}
    return [listed(x) for x in v] if isinstance(v, list) else v


def message(m):
    """A request of the specification as a message."""
    val = lambda k: KINDS[k][2]
    if m['what'] == 'call':
        to = T if m['to'] == 'T' else val(m['to'])
        name = '' if m['name'] == '' else 'm' if m['name'] == 'm' else val(m['name'])
        arg = [] if m['arg'] == 'empty' else (val(m['arg'][1]) or []) if m['arg'][0] == 'callkw' else {'a': val(m['arg'][1])} if m['arg'][0] == 'callarg' else [val(m['arg'][1])]
        return mgr.CALL, [to.b, mgr.enc_int(int(val(m['amount']))), b'call', listed(mgr.enc_any({'method': name, 'params': arg}))]
    if m['what'] == 'balance':
        return mgr.GETBALANCE, val(m['to']).b
    v = val(m['arg'])
    if m['what'] == 'event':
        return mgr.EVENT, [[EVENTS[m['name']].encode()], [plain(v)]]
    if m['what'] == 'at':
        return mgr.SETVALUE, [key_of('A/e/00'), mgr.OLDVALUE, plain(v)]
    if m['what'] == 'set':
        return mgr.SETVALUE, [key_of('V/v'), mgr.OLDVALUE, plain(v)]
    if m['what'] == 'key':
        return mgr.SETVALUE, [key_of('D/d/' + plain(v).hex()), mgr.OLDVALUE, b'\x01']
    return mgr.SETVALUE, [hashlib.sha3_256(TAGS['V'] + mgr.rlp(plain(v))).digest(), mgr.OLDVALUE, b'\x01']


def requests(ctx, n, ops=OPS, kinds=None):
    """Every operation with every kind of value, and n programs of some of them."""
    rnd = ctx.rng
    names = sorted(kinds or KINDS)
    words = [[[rnd.choice(ops), rnd.choice(names), rnd.random() < .7] for _ in range(rnd.randint(2, 5))] for _ in range(n)]
    words = [w for w in words if not any(left_out(o, k) for o, k, _ in w)]
    r = tlc.run('RequestsEnum', 'SPECIFICATION Spec\nINVARIANTS Sound Nothing\n', {'requests.json': json.dumps({
        'ops': ops, 'skip': [[o, k] for o in ops for k in names if left_out(o, k)], 'kinds': {k: {'c': c, 'n': s, 'code': CODES.get(k, 2000), 'json': k in JSON, 'text': KINDS[k][2] if c == 'text' else ''} for k, (c, s, _) in KINDS.items() if k in names or k in ('0', '7', '100')}, 'words': words})})
    if r.violated:
        raise tlc.TlcError('requests: %s does not hold of the specification' % r.violated)
    ctx.tlc(r, 'requests for values of any kind')
    ctx.count('programs asking with values of any kind', len(r.lines))
    runs = []
    with Shop(timeout=20, log_level='info') as shop:
        path = shop.package(SOURCE)
        c = mgr.cx(0xc1)
        for i, x in enumerate(r.lines):
            w = mgr.World(dict(schema=1, get=1, getBase=2, set=3, setBase=11, delete=-2, deleteBase=1, log=1, logBase=3, apiCall=20, contractCall=5), 256)
            w.code[c.b], w.balance[c.b] = path, 10 * BIG
            w.store[c.b] = {key_of('A/e'): b'\x01', key_of('A/e/00'): b'\x07', X: b'\x05'}
            eng = shop.eng
            eng.trace = []
            seen = []
            w.block = (i % 3, 5)

            def served(e, world, stack, d):
                seen.append([d[0], d[1], d[3], d[4]])
                e.send(mgr.RESULT, [0, mgr.enc_int(1), mgr.enc_any(None), 0, 0])
                return True
            try:
                f = eng.invoke(w, c, 'go', [json.dumps(x['p'])], limit=10 ** 7, handlers={mgr.CALL: served})
            except FAIL as e:
                ctx.violation('asking with values of any kind: %s: %s: %s' % (x['p'], type(e).__name__, e), {'program': x})
                shop.start()
                continue
            ctx.traces += 1
            o = x['out']
            if any(k in HOOKED for _, k, _ in x['p']):
                runs.append((x, marks(eng.trace, mgr.dec_int(w.store[c.b][X]) if f.status == 0 else None)))
            got = []
            for y, m, d in eng.trace:
                if y == '<' and (m == mgr.CALL and d[0] != U.b or m in (mgr.GETBALANCE, mgr.EVENT)) or y == '<' and m == mgr.SETVALUE and d[0] != X:
                    got.append((m, [d[0], d[1], d[3], d[4]] if m == mgr.CALL else d))
            want = [message(m) for m in o['out']]
            ret = {'true': True, 'false': False}.get(o['ret']) if o['ret'] in ('true', 'false') else KINDS[o['ret']][2]
            fees = [d for y, m, d in eng.trace if y == '<' and m == mgr.SETFEEPCT]
            fee = int(KINDS[o['fee']][2])
            if (f.status == 0 if o['status'] == -1 else f.status != o['status']) or got != want or (f.status == 0 and (f.value != ret or type(f.value) != type(ret))) or \
                    (f.status == 0 and fees != [fee] * (fee > 0)):
                ctx.violation('asking with values of any kind: %s gives status %s, value %.80r, fees %s, requests %.300r; specified %s' % (
                    x['p'], f.status, f.value, fees, got, o), {'program': x, 'got': repr(got), 'want': repr(want)})
    hooked(ctx, runs)


MARKS = {'op': 0, 'end': 0, 'failed': 0, 'return': 0, 'in': 0, 'out': 0, 'got': 1, 'set': 1}
ASKS = {mgr.CALL: 1, mgr.GETBALANCE: 0, mgr.GETINFO: 0, mgr.CONTAINS: 0}


def marks(trace, stored):
    """What was seen of a run, for Hooks."""
    out, reading = [], False
    for y, m, d in trace:
        k, v = '', 0
        if y == '<' and m == mgr.LOG:
            words = d[2].decode().split()
            word = next((a for a in words if a in MARKS), '')
            if word:
                k, v = word, int(words[-1]) if MARKS[word] else 0
        elif m == mgr.SETVALUE:
            k = 'A' if y == '>' else 'W' if d[0] == X else 'own'
            v = mgr.dec_int(d[2]) if k == 'W' else 0
        elif m == mgr.GETVALUE:
            k = 'read' if y == '<' else 'ans'
        elif m in ASKS or m == mgr.RESULT and y == '>':
            k, v = ('ask', ASKS[m]) if y == '<' else ('ans', 0)
        elif m == mgr.EVENT:
            k = 'event'
        if k:
            out.append({'k': k, 'v': v})
    if stored is not None:
        out.append({'k': 'fin', 'v': stored})
    return out


def hooked(ctx, runs):
    """Runs in which code of the contract ran inside operations."""
    if not runs:
        return
    r = tlc.run('Hooks', 'SPECIFICATION Spec\nINVARIANT Sound\n', {'hooks.json': json.dumps([e for _, e in runs])})
    ctx.tlc(r, 'code of contracts inside operations')
    if r.violated:
        raise tlc.TlcError('hooks: %s does not hold of the specification' % r.violated)
    if len(r.lines) != len(runs):
        raise tlc.TlcError('no verdict for some runs')
    for v in r.lines:
        ctx.count('pieces of code run inside operations', v['runs'])
        if v['bad']:
            x, e = runs[v['verdict'] - 1]
            ctx.violation('code of the contract inside operations: %s: %s' % (x['p'], v['bad']), {'program': x, 'seen': e})
