"""An interpreter contract: it executes a list of operations it is given and
appends what the contract itself observes (result or exception of every
operation) to the file named by VERIF_OBS.  Only the public SCORE API is used."""
from iconservice import *
import json
import os

_OBS = os.open(os.environ['VERIF_OBS'], os.O_WRONLY | os.O_APPEND) if 'VERIF_OBS' in os.environ else None


def _obs(*a):
    if _OBS is not None:
        os.write(_OBS, (json.dumps(list(a)) + '\n').encode())


TYPES = {'i': int, 's': str, 'b': bytes, 'z': bool, 'a': Address}


def _val(v):
    """[tag, text] -> value"""
    t, x = v[0], v[1]
    if t == 'i':
        return int(x)
    if t == 's':
        return x
    if t == 'b':
        return bytes.fromhex(x)
    if t == 'z':
        return x == '1'
    if t == 'a':
        return Address.from_bytes(bytes.fromhex(x))
    if t == 'n':
        return None
    if t == 'f':
        return float(x)
    raise ValueError(t)


def _tok(v):
    if v is None:
        return ['n', '']
    if isinstance(v, bool):
        return ['z', '1' if v else '0']
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, bytes):
        return ['b', v.hex()]
    if isinstance(v, Address):
        return ['a', v.to_bytes().hex()]
    if isinstance(v, (list, tuple)):
        return ['l', [_tok(x) for x in v]]
    if isinstance(v, dict) and list(v) == ['x']:
        return _tok(v['x'])
    return ['?', repr(v)]


class Peer(InterfaceScore):
    @interface
    def run(self, script: str):
        pass

    @interface
    def ask(self, script: str):
        pass


class _Stop(Exception):
    pass


class Weird(Exception):
    def __str__(self):
        raise RuntimeError('no text')


class Weird2(Exception):
    def __str__(self):
        revert('no text', 5)


class Weird3(Exception):
    def __str__(self):
        raise self


class Weird4(IconScoreException):
    @property
    def message(self):
        raise RuntimeError('no message')


class Coded(IconScoreException):
    value = None

    @property
    def code(self):
        return self.value


CODES = {'abc': 'abc', 'zero': 0, 'float': 5.5, 'big': 10 ** 40, 'neg': -3, 'bytes': b'\x05', 'end': 1 << 31}


class Lazy(dict):
    """A value that is made when it's read"""
    def __init__(self, f):
        super().__init__()
        self.f, self.got = f, None

    def items(self):
        if self.got is None:
            self.got = [('x', self.f())]
        return self.got


class Interp(IconScoreBase):
    @eventlog
    def E0(self):
        pass

    @eventlog(indexed=1)
    def E1(self, a: int):
        pass

    @eventlog(indexed=1)
    def E2(self, a: str, b: bytes):
        pass

    @eventlog(indexed=2)
    def E3(self, a: Address, b: bool, c: int, d: str):
        pass

    @eventlog(indexed=3)
    def E4(self, a: bytes, b: int, c: str, d: Address = None):
        pass

    @eventlog(indexed=1)
    def E5(self, a: int, b: int, c: int = 7):
        pass

    @eventlog(indexed=2)
    def E6(self, a: str, b: str = 'dd'):
        pass

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._peers = {}
        self._cnt = 0
        self._objs = {}
        self._dice = 1

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @payable
    def fallback(self):
        self._exec([], 'fallback')

    @external
    @payable
    def run(self, script: str):
        return self._exec(json.loads(script), 'run')

    @external(readonly=True)
    def ask(self, script: str):
        return self._exec(json.loads(script), 'ask')

    def _kept(self, what, make):
        """The object a container is used through: a new one, or one of two
        that the contract has kept since it first made them."""
        self._dice = (self._dice * 1103515245 + 12345) & 0x7fffffff
        n = (self._dice >> 16) % 4
        if not n:
            return make()
        w = json.dumps([what, n & 1])
        if w not in self._objs:
            self._objs[w] = make()
        return self._objs[w]

    def _c(self, c):
        return self._kept(c, lambda: self._made(c))

    def _made(self, c):
        k, name, t = c[0], c[1], TYPES[c[2]]
        db = self.db
        for p in c[4] if len(c) > 4 else ():
            db = db.get_sub_db(bytes.fromhex(p))
        if k == 'V':
            return VarDB(name, db, t)
        if k == 'A':
            return ArrayDB(name, db, t)
        return DictDB(name, db, t, depth=c[3])

    def _path(self, c, ks):
        def make():
            d = self._made(c)
            for x in ks[:-1]:
                d = d[_val(x)]
            return d
        return self._kept([c, ks[:-1]], make), _val(ks[-1])

    def _exec(self, ops, how):
        m = self.msg
        self._dice += len(ops) + sum(map(len, ops))
        _obs('enter', how, _tok(m.sender), _tok(m.value), _tok(self.address))
        return self._steps(ops, None, 0, 0)

    def _steps(self, ops, ret, i, tryend):
        while i < len(ops):
            op = ops[i]
            i += 1
            if tryend and i > tryend:
                tryend = 0
            try:
                k = op['op']
                if k == 'try':
                    tryend = i + op['n']
                    continue
                if k == 'lazy':
                    _obs('ok', _tok(None))
                    return Lazy(lambda: self._steps(ops, ret, i, tryend))
                if k == 'ret':
                    ret = _val(op['v'])
                    r = None
                else:
                    r = self._op(k, op)
            except BaseException as e:
                code = None if isinstance(e, (SystemExit, Weird4)) else getattr(e, 'code', None)
                if isinstance(e, Coded):
                    _obs('ex', 1, e.message, 'x')
                elif code is None:
                    try:
                        text = str(e).encode('utf-8', 'replace').decode()
                    except BaseException:
                        text = ''
                    _obs('ex', 1, text, 'x')
                else:
                    _obs('ex', int(code), e.message, 'u' if isinstance(e, IconScoreException) else 'e')
                if tryend:
                    i, tryend = tryend, 0
                    continue
                raise
            _obs('ok', _tok(r))
        _obs('leave', _tok(self.msg.sender), _tok(self.msg.value), _tok(self.address))
        return ret

    def _op(self, k, op):
        if k == 'vset':
            self._c(op['c']).set(_val(op['v']))
        elif k == 'vget':
            return self._c(op['c']).get()
        elif k == 'vdel':
            self._c(op['c']).remove()
        elif k == 'dset':
            d, x = self._path(op['c'], op['k'])
            d[x] = _val(op['v'])
        elif k == 'dget':
            d, x = self._path(op['c'], op['k'])
            r = d[x]
            return 'sub' if isinstance(r, DictDB) else r
        elif k == 'ddel':
            d, x = self._path(op['c'], op['k'])
            if op.get('how') == 'del':
                del d[x]
            else:
                d.remove(x)
        elif k == 'dhas':
            d, x = self._path(op['c'], op['k'])
            return x in d
        elif k == 'diter':
            d = self._c(op['c'])
            return [x for x in d]
        elif k == 'aput':
            self._c(op['c']).put(_val(op['v']))
        elif k == 'apop':
            return self._c(op['c']).pop()
        elif k == 'aget':
            a = self._c(op['c'])
            return a.get(op['i']) if op.get('how') == 'get' else a[op['i']]
        elif k == 'aset':
            self._c(op['c'])[op['i']] = _val(op['v'])
        elif k == 'alen':
            return len(self._c(op['c']))
        elif k == 'ahas':
            return _val(op['v']) in self._c(op['c'])
        elif k == 'aiter':
            return [x for x in self._c(op['c'])]
        elif k == 'aiterw':
            out = []
            for n, x in enumerate(self._c(op['c'])):
                out.append(x)
                if n == op['at']:
                    for o in op['w']:
                        self._op(o['op'], o)
            return out
        elif k == 'bal':
            return self.icx.get_balance(_val(op['a']))
        elif k == 'ev':
            getattr(self, op['e'])(*[_val(x) for x in op['args']],
                                   **{n: _val(x) for n, x in op.get('kw', [])})
        elif k == 'call':
            return self._call(op)
        elif k == 'icx':
            self._peer(op['to']).icx(op['v'])
        elif k == 'revert':
            revert(_val(op['mv']) if 'mv' in op else op.get('m'), op.get('code', 0))
        elif k == 'raise':
            w = op['w']
            if w == 'value':
                raise ValueError(op.get('m', ''))
            if w == 'score':
                raise IconScoreException(op.get('m', ''), op.get('code', 0))
            if w == 'exit':
                raise SystemExit(3)
            if w == 'kbd':
                raise KeyboardInterrupt()
            if w == 'rec':
                return self._op(k, op)
            if w == 'weird':
                raise Weird()
            if w == 'weird2':
                raise Weird2()
            if w == 'weird3':
                raise Weird3()
            if w == 'weird4':
                raise Weird4('m', 3)
            if w == 'surr':
                raise ValueError('\ud800')
            if w == 'coded':
                e = Coded(op.get('m', ''))
                e.value = CODES[op['cv']]
                raise e
            if w == 'badidx':
                raise IconScoreException('m', 'x')
            if w == 'assert':
                assert False, op.get('m', '')
        elif k == 'fee':
            self.set_fee_sharing_proportion(op['v'])
        elif k == 'feeget':
            return self.get_fee_sharing_proportion()
        elif k == 'hash':
            f = sha3_256 if op.get('f') == 'sha3' else sha_256
            return len(f(b'x' * op['n']))
        elif k == 'jd':
            return json_dumps('x' * op['n'])
        elif k == 'jl':
            return json_loads('"' + 'x' * op['n'] + '"')
        elif k == 'cak':
            create_address_with_key(bytes([op.get('p', 4)]) + b'\x01' * (op['n'] - 1))
        elif k == 'rk':
            recover_key(b'\x01' * 32, b'\x01' * 65)
        elif k == 'ctx':
            return [self.msg.sender, self.msg.value, self.address, self.owner, self.tx.origin,
                    self.tx.hash, self.tx.index, self.tx.timestamp, self.tx.nonce,
                    self.block_height, self.now(), self.block.height, self.block.timestamp]
        elif k == 'cnt':
            self._cnt += 1
            return self._cnt
        elif k == 'nop':
            pass
        else:
            raise ValueError('op ' + k)

    def _peer(self, to):
        if to not in self._peers:
            self._peers[to] = self.create_interface_score(_val(['a', to]), Peer)
        return self._peers[to]

    def _call(self, op):
        to = _val(['a', op['to']])
        s = json.dumps(op.get('body', []))
        how, m, v = op['how'], op.get('m', 'run'), op.get('v', 0)
        if how == 'call':
            return self.call(to, m, {'script': s}, v)
        if how == 'iface':
            return getattr(self._peer(op['to']), m)(s)
        if how == 'ifacekw':
            return getattr(self._peer(op['to']), m)(script=s)
        if how == 'transfer':
            return self.icx.transfer(to, v)
        if how == 'send':
            return self.icx.send(to, v)
        if how == 'fb':
            return self.call(to, None, {}, v)
        raise ValueError(how)
