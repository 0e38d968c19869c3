"""A manager ("node") side of the execution-engine IPC, used to drive the real
engine as a black box: it starts `python -m pyexec` from /repo/pyee, speaks the
msgpack protocol of the node over a unix socket, serves storage/balance/call
requests from an in-memory world with per-call rollback, and records every
message in both directions.

Nothing in here imports the code under test.
"""
import hashlib
import os
import select
import shutil
import signal
import socket
import subprocess
import tempfile
import time

import msgpack

REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'

VERSION, INVOKE, RESULT, GETVALUE, SETVALUE, CALL, EVENT, GETINFO, GETBALANCE, \
    GETAPI, LOG, CLOSE = range(12)
SETFEEPCT, CONTAINS = 15, 16
NAMES = {0: 'VERSION', 1: 'INVOKE', 2: 'RESULT', 3: 'GETVALUE', 4: 'SETVALUE', 5: 'CALL',
         6: 'EVENT', 7: 'GETINFO', 8: 'GETBALANCE', 9: 'GETAPI', 10: 'LOG', 11: 'CLOSE',
         15: 'SETFEEPCT', 16: 'CONTAINS'}
FLAG_READONLY, FLAG_TRACE = 1, 2
DELETE, OLDVALUE = 1, 2

NIL, DICT, LIST, BYTES, STRING, BOOL, ADDRESS, INT = 0, 1, 2, 3, 4, 5, 10, 11


class EngineDied(Exception):
    pass


class EngineSilent(Exception):
    """The engine says nothing any more.  Once it has happened, later waits are shorter."""
    seen = 0

    def __init__(self, *a):
        super().__init__(*a)
        EngineSilent.seen += 1


class ProtocolError(Exception):
    pass


class Address:
    """The harness's own address type: 21 bytes."""
    __slots__ = ('b',)

    def __init__(self, b):
        if isinstance(b, str):
            b = (b'\x01' if b[:2] == 'cx' else b'\x00') + bytes.fromhex(b[2:])
        assert len(b) == 21, b
        self.b = bytes(b)

    def __eq__(self, o):
        return isinstance(o, Address) and o.b == self.b

    def __hash__(self):
        return hash(self.b)

    def __str__(self):
        return ('cx' if self.b[0] == 1 else 'hx') + self.b[1:].hex()

    __repr__ = __str__

    @property
    def is_contract(self):
        return self.b[0] == 1


def eoa(n):
    return Address(b'\x00' + n.to_bytes(20, 'big'))


def cx(n):
    return Address(b'\x01' + n.to_bytes(20, 'big'))


def enc_int(v):
    """Minimal big-endian two's complement, by search (independent of bit_length tricks)."""
    fits = lambda n: -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))
    n = 1
    while not fits(n):
        n *= 2
    step = n // 2
    while step:                  # the smallest that fits
        if n > step and fits(n - step):
            n -= step
        step //= 2
    return v.to_bytes(n, 'big', signed=True)


def dec_int(b):
    return int.from_bytes(b, 'big', signed=True)


def enc_any(o):
    if o is None:
        return [NIL, None]
    if isinstance(o, bool):
        return [BOOL, b'\x01' if o else b'\x00']
    if isinstance(o, int):
        return [INT, enc_int(o)]
    if isinstance(o, str):
        return [STRING, o.encode()]
    if isinstance(o, bytes):
        return [BYTES, o]
    if isinstance(o, Address):
        return [ADDRESS, o.b]
    if isinstance(o, dict):
        return [DICT, {k: enc_any(v) for k, v in o.items()}]
    if isinstance(o, (list, tuple)):
        return [LIST, [enc_any(v) for v in o]]
    raise TypeError(type(o))


def dec_any(t):
    tag, v = t[0], t[1]
    if tag == NIL:
        return None
    if tag == DICT:
        return {(k.decode() if isinstance(k, bytes) else k): dec_any(x) for k, x in v.items()}
    if tag == LIST:
        return [dec_any(x) for x in v]
    if tag == BYTES:
        return v
    if tag == STRING:
        return v.decode()
    if tag == BOOL:
        return {b'\x00': False, b'\x01': True}[v]
    if tag == ADDRESS:
        return Address(v)
    if tag == INT:
        return dec_int(v)
    raise ProtocolError('unknown tag %r' % (tag,))


def typed(t):
    """Whether t is a tagged value as a node reads it."""
    if not isinstance(t, list) or len(t) != 2 or type(t[0]) is not int:
        return False
    tag, v = t
    if tag == NIL:
        return v is None
    if tag == DICT:
        return isinstance(v, dict) and all(isinstance(k, bytes) and text(k) and typed(x) for k, x in v.items())
    if tag == LIST:
        return isinstance(v, list) and all(typed(x) for x in v)
    if tag == BYTES or tag == INT:
        return isinstance(v, bytes)
    if tag == STRING:
        return isinstance(v, bytes) and text(v)
    if tag == BOOL:
        return v in (b'\x00', b'\x01')
    return tag == ADDRESS and address(v)


def text(b):
    try:
        b.decode()
        return True
    except ValueError:
        return False


def address(b):
    return isinstance(b, bytes) and len(b) == 21 and b[0] < 2


def octets(*a):
    return all(isinstance(b, bytes) for b in a)


def call_data(t):
    """The data of a call: the name of a method, and its parameters."""
    d = t[1]
    return typed(t) and t[0] == DICT and set(d) == {b'method', b'params'} and d[b'method'][0] == STRING


# What a node can read: it gives up the engine for anything else.
READABLE = {
    RESULT: lambda d: len(d) == 3 and type(d[0]) is int and -2 ** 15 <= d[0] < 2 ** 31 and octets(d[1]) and typed(d[2]),
    GETVALUE: octets,
    SETVALUE: lambda d: len(d) == 3 and octets(d[0]) and type(d[1]) is int and (d[2] is None if d[1] & DELETE else octets(d[2])),
    CALL: lambda d: len(d) == 5 and address(d[0]) and octets(*d[1:4]) and call_data(d[4]),
    EVENT: lambda d: len(d) == 2 and octets(*[b for p in d for b in p if b is not None]) and len(d[0]) > 0 and octets(d[0][0]),
    GETINFO: lambda d: d == b'',
    GETBALANCE: address,
    GETAPI: lambda d: len(d) == 2 and type(d[0]) is int and (d[1] is None or isinstance(d[1], list)),
    LOG: lambda d: len(d) == 3 and 0 <= d[0] <= 6 and type(d[1]) is int and octets(d[2]) and text(d[2]),
    SETFEEPCT: lambda d: type(d) is int and 0 <= d <= 100,
    CONTAINS: lambda d: len(d) == 3 and octets(d[0], d[1]) and type(d[2]) is int,
    VERSION: lambda d: len(d) == 3 and type(d[0]) is int,
}


def readable(m):
    try:
        return len(m) == 2 and bool(READABLE[m[0]](m[1]))
    except Exception:
        return False


DEFAULT_COSTS = {
    "schema": 1, "default": 100000, "input": 200, "contractCall": 25000,
    "get": 25, "getBase": 3000, "set": 320, "setBase": 10000,
    "delete": -240, "deleteBase": 200, "log": 100, "logBase": 5000, "apiCall": 10000,
}
V0_COSTS = {"get": 0, "set": 320, "replace": 80, "delete": -240, "eventLog": 100, "apiCall": 10000}


NOBODY = object()      # an invocation without a sender


class World:
    """State the node owns: per-contract storage and balances."""
    shown = 0

    def __init__(self, costs=None, revision=0):
        self.store = {}       # addr bytes -> {key: value}
        self.balance = {}     # addr bytes -> int
        self.code = {}        # addr bytes -> path
        self.owner = {}       # addr bytes -> Address, or a list of them
        self.nth = 1          # number of the frame being entered
        self.ro_methods = {}  # addr bytes -> names of the methods the node runs read-only
        self.costs = dict(DEFAULT_COSTS if costs is None else costs)
        self.revision = revision
        self.block = (10, 1_000_000)
        self.tx = dict(hash=b'\x11' * 32, index=0, origin=eoa(1), timestamp=5, nonce=3)

    def of(self, addr):
        return self.store.setdefault(addr.b, {})

    def snapshot(self):
        return ({a: dict(s) for a, s in self.store.items()}, dict(self.balance))

    def restore(self, snap):
        self.store, self.balance = ({a: dict(s) for a, s in snap[0].items()}, dict(snap[1]))

    def owner_of(self, to):
        """One, or one for each frame of an invocation (owners may change while it is under way)."""
        o = self.owner.get(to.b, eoa(0xfeed))
        return o[(self.nth - 1) % len(o)] if isinstance(o, list) else o

    def step_costs(self):
        """Entries of zero may be left out; there are others which are the node's own."""
        World.shown += 1
        if World.shown % 3 == 0:
            return dict(self.costs)
        c = {k: v for k, v in self.costs.items() if v}
        if World.shown % 3 == 1:
            c = {'default': 100000, **c, 'contractCreate': 7, 'input': 200, 'contractSet': 15000}
        return c

    def info(self, to):
        return {
            'B.timestamp': self.block[1], 'B.height': self.block[0],
            'T.hash': self.tx['hash'], 'T.index': self.tx['index'], 'T.from': self.tx['origin'],
            'T.timestamp': self.tx['timestamp'], 'T.nonce': self.tx['nonce'],
            'Revision': self.revision, 'StepCosts': self.step_costs(),
            'C.owner': self.owner_of(to),
        }


class Frame:
    def __init__(self, to, readonly, limit, snap):
        self.to, self.readonly, self.limit, self.snap = to, readonly, limit, snap


class Result:
    def __init__(self, status, steps, value, raw):
        self.status, self.steps, self.value, self.raw = status, steps, value, raw

    def __repr__(self):
        return 'Result(status=%r, steps=%r, value=%r)' % (self.status, self.steps, self.value)


class Engine:
    """One running engine process and the node's end of its connection."""

    def __init__(self, verify=False, timeout=20.0, log_level='info', env=None, scratch=None):
        self.timeout = timeout
        self.dir = tempfile.mkdtemp(prefix='ee.', dir=scratch)
        path = os.path.join(self.dir, 's')
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        srv.bind(path)
        srv.listen(1)
        e = {'PATH': '/usr/bin:/bin', 'HOME': self.dir, 'PYTHONPATH': REPO + '/pyee',
             'PYTHONPYCACHEPREFIX': os.path.join(self.dir, 'pyc'), 'PYTHONHASHSEED': '0',
             'LANG': 'C.UTF-8'}
        e.update(env or {})
        args = [PYTHON, '-m', 'pyexec', '-s', path, '-u', 'uuid-1', '-d', log_level]
        if verify:
            args.append('-p')
        self.err = open(os.path.join(self.dir, 'err'), 'w+b')
        self.proc = subprocess.Popen(args, cwd=self.dir, env=e, stdin=subprocess.DEVNULL,
                                     stdout=self.err, stderr=self.err)
        srv.settimeout(30)
        t0 = time.time()
        srv.settimeout(0.05)
        while True:
            try:
                self.conn, _ = srv.accept()
                break
            except socket.timeout:
                if self.proc.poll() is not None or time.time() - t0 > 60:
                    raise EngineDied('engine did not connect: ' + self.stderr())
        srv.close()
        self.conn.setblocking(True)
        self.unp = msgpack.Unpacker(raw=True, max_bin_len=64 << 20, max_buffer_size=2**31 - 1)
        self.pk = msgpack.Packer(use_bin_type=True)
        self.trace = []
        self.hold = False       # withhold SETVALUE answers until the engine goes quiet
        self.chunk = 0          # >0: deliver answers to the engine in pieces of this size
        self.frames = []        # frames of the current top-level invocation, in order of INVOKE
        self.on_invoke = self.on_result = None
        self.faults = {}
        self.ncall = 0
        self.held = []
        self.api_in_call, self.apis = None, []
        self.logs = []
        self.hello = self.recv()
        self.dead = False

    def stderr(self):
        try:
            self.err.flush()
            with open(self.err.name, 'rb') as f:
                return f.read()[-2000:].decode('utf8', 'replace')
        except Exception:
            return ''

    # -- framing -------------------------------------------------------
    def send(self, msg, data):
        if self.hold and msg == SETVALUE:
            self.held.append((msg, data))
            return
        self.flush_held()
        self._send(msg, data)

    def _send(self, msg, data):
        self.trace.append(('>', msg, data))
        try:
            b = self.pk.pack([msg, data])
            if self.chunk:
                for i in range(0, len(b), self.chunk):
                    self.conn.sendall(b[i:i + self.chunk])
            else:
                self.conn.sendall(b)
        except (BrokenPipeError, ConnectionResetError):
            raise EngineDied('engine closed the connection: ' + self.stderr())

    def flush_held(self):
        h, self.held = self.held, []
        for m, d in h:
            self._send(m, d)

    def recv(self, timeout=None):
        wait = timeout or self.timeout
        if EngineSilent.seen:
            wait = min(wait, 12 if EngineSilent.seen < 4 else 5)
        deadline = time.time() + wait
        while True:
            try:
                m = self.unp.unpack()
                self.trace.append(('<', m[0], m[1]))
                if not readable(m):
                    raise ProtocolError('a node cannot read %s %.300r' % (NAMES.get(m[0], m[0]) if isinstance(m, list) and m else '', m))
                if m[0] == LOG:
                    self.logs.append(m[1])
                    continue
                return m[0], m[1]
            except msgpack.OutOfData:
                pass
            if self.held:
                r, _, _ = select.select([self.conn], [], [], 0.005)
                if not r:
                    self.flush_held()
                    continue
            r, _, _ = select.select([self.conn], [], [], max(0, deadline - time.time()))
            if not r:
                raise EngineSilent('no message from the engine in %.1fs' % wait)
            try:
                b = self.conn.recv(1 << 17)
            except ConnectionResetError:
                b = b''
            if not b:
                raise EngineDied('engine closed the connection: ' + self.stderr())
            self.unp.feed(b)
            n = len(b)
            while n >= 1 << 14 and select.select([self.conn], [], [], 0.01)[0]:     # a big message: not parsed for each piece of it
                try:
                    b = self.conn.recv(1 << 20)
                except ConnectionResetError:
                    b = b''
                if not b:
                    break
                self.unp.feed(b)
                n += len(b)

    # -- requests ------------------------------------------------------
    def send_invoke(self, world, code, to, frm, value, limit, method, params, readonly=False,
                    info=None, flags=0):
        self.send(INVOKE, [
            code, (FLAG_READONLY if readonly else 0) | flags,
            frm.b if frm is not None else None, to.b, enc_int(value), enc_int(limit), method,
            enc_any(params), enc_any(info if info is not None else world.info(to)),
            b'', 0, None])

    def invoke(self, world, to, method, params=(), frm=None, value=0, limit=1_000_000_000,
               readonly=False, code=None, info=None, handlers=None, rollback=True, flags=0):
        """One top-level invocation, served to completion.  Returns a Result."""
        frm = eoa(1) if frm is None else None if frm is NOBODY else frm
        code = world.code[to.b] if code is None else code
        self.frames = []
        self.ncall = 0
        self.flush_held()
        fr = self.new_frame(world, to, frm, value, limit, method, readonly)
        self.send_invoke(world, code, to, frm, value, limit, method,
                         params if isinstance(params, dict) else list(params), readonly, info, flags)
        return self.serve(world, fr, handlers or {}, rollback)

    def new_frame(self, world, to, frm, value, limit, method, readonly, snap=None):
        f = Frame(to, readonly, limit, snap or world.snapshot())
        f.frm, f.value, f.method = frm, value, method
        f.events, f.calls, f.scans, f.fees, f.writes, f.reads, f.result = [], [], [], [], [], 0, None
        self.frames.append(f)
        world.nth = len(self.frames)
        if self.on_invoke:
            self.on_invoke(f)
        return f

    def serve(self, world, frame, handlers, rollback=True):
        stack = [frame]
        while True:
            msg, d = self.recv()
            f = stack[-1]
            h = handlers.get(msg)
            if h is not None and h(self, world, stack, d):
                continue
            if msg == GETVALUE:
                v = world.of(f.to).get(d)
                f.reads += 1
                self.send(GETVALUE, [v is not None, v])
            elif msg == SETVALUE:
                key, flag, val = d
                st = world.of(f.to)
                old = st.get(key)
                f.writes.append((key, flag, val))
                if flag & DELETE:
                    st.pop(key, None)
                else:
                    st[key] = val
                if flag & OLDVALUE:
                    self.send(SETVALUE, [old is not None, len(old) if old is not None else 0])
            elif msg == GETBALANCE:
                self.send(GETBALANCE, enc_int(world.balance.get(d, 0)))
            elif msg == CONTAINS:
                f.scans.append(d[2])
                self.send(CONTAINS, list(self.contains(world, f.to, *d)))
            elif msg == EVENT:
                f.events.append(d)
            elif msg == SETFEEPCT:
                f.fees.append(d)
            elif msg == GETINFO:
                self.send(GETINFO, enc_any(world.info(f.to)))
            elif msg == CALL:
                self.on_call(world, stack, d)
            elif msg == RESULT:
                res = Result(d[0], dec_int(d[1]), dec_any(d[2]), d)
                stack.pop()
                f.result = res
                if self.on_result:
                    self.on_result(f)
                if res.status != 0 and rollback:
                    world.restore(f.snap)
                if not stack:
                    return res
                self.send(RESULT, [d[0], enc_int(res.steps + world.costs.get('contractCall', 0)), d[2], 0, 0])
            else:
                raise ProtocolError('unexpected message %s' % NAMES.get(msg, msg))

    @staticmethod
    def contains(world, to, prefix, value, limit):
        st = world.of(to)
        size = dec_int(st.get(hashlib.sha3_256(prefix).digest(), b'\x00'))
        get, base = world.costs.get('get', 0), world.costs.get('getBase', 0)
        cost = cnt = sz = 0
        for i in range(size):
            v = st.get(hashlib.sha3_256(prefix + rlp(enc_int(i))).digest())
            cnt += 1
            cost += base
            if v is not None:
                sz += len(v)
                cost += get * len(v)
                if v == value:
                    return True, cnt, sz
            if cost > limit:
                break
        return False, cnt, sz

    def on_call(self, world, stack, d):
        """The node's side of a contract-to-contract call or coin transfer."""
        f = stack[-1]
        to, value, limit = Address(d[0]), dec_int(d[1]), dec_int(d[2])
        data = dec_any(d[4])
        method, params = data['method'], data['params']
        f.calls.append((to, value, limit, d[3], method, params, d))
        self.ncall += 1
        cc = world.costs.get('contractCall', 0)
        if self.api_in_call:
            # the node may ask for an API while a call is under way
            self.apis.append(self.getapi(self.api_in_call))

        def reply(status, steps, v):
            self.send(RESULT, [status, enc_int(steps), enc_any(v), 0, 0])
        if self.ncall in self.faults:
            status, steps, text = self.faults[self.ncall]
            return reply(status, limit - steps if steps < 0 else steps, text if status else None)
        if limit < cc:
            return reply(10, limit, 'OutOfStep')
        if value > 0 and f.readonly:
            return reply(9, cc, 'ReadOnly')
        if value > world.balance.get(f.to.b, 0):
            return reply(11, cc, 'OutOfBalance')
        snap = world.snapshot()
        if value:
            world.balance[f.to.b] = world.balance.get(f.to.b, 0) - value
            world.balance[to.b] = world.balance.get(to.b, 0) + value
        if not to.is_contract:
            return reply(0, cc, None)
        code = world.code.get(to.b)
        if code is None:
            world.restore(snap)
            return reply(2, cc, 'NoContract')
        method = method or 'fallback'
        ro = f.readonly or method in world.ro_methods.get(to.b, ())
        g = self.new_frame(world, to, f.to, value, limit - cc, method, ro, snap)
        stack.append(g)
        self.send_invoke(world, code, to, f.to, value, limit - cc, method, params, ro)

    def getapi(self, code):
        self.send(GETAPI, code)
        msg, d = self.recv()
        if msg != GETAPI:
            raise ProtocolError('GETAPI answered by %s' % NAMES.get(msg, msg))
        return d

    def quiet(self, seconds=0.02):
        """Messages the engine sends without being asked (there should be none)."""
        out = []
        while True:
            try:
                m = self.unp.unpack()
                if m[0] != LOG:
                    out.append(m)
                continue
            except msgpack.OutOfData:
                pass
            r, _, _ = select.select([self.conn], [], [], seconds)
            if not r:
                return out
            b = self.conn.recv(1 << 17)
            if not b:
                raise EngineDied('engine closed the connection: ' + self.stderr())
            self.unp.feed(b)

    def close(self):
        if self.dead:
            return None
        self.dead = True
        rc = None
        try:
            self._send(CLOSE, None)
            rc = self.proc.wait(timeout=5)
        except Exception:
            pass
        self.kill()
        return rc

    def kill(self):
        self.dead = True
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGKILL)
            self.proc.wait()
        try:
            self.conn.close()
            self.err.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


def rlp(b):
    n = len(b)
    if n == 1 and b[0] < 0x80:
        return b
    if n <= 55:
        return bytes([0x80 + n]) + b
    ln = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0xb7 + len(ln)]) + ln + b
