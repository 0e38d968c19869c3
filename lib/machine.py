"""Programs for the interpreter contract: running them on the real engine and
turning what was observed into the records that Machine.tla talks about."""
import hashlib
import json
import os
import random
import shutil
import tempfile

import mgr
from mgr import Address, cx, eoa, enc_int

HERE = os.path.dirname(os.path.abspath(__file__))

CONTRACTS = ['c1', 'c2', 'c3']
EOAS = ['e1', 'e2', 'e3']
ADDR = {}
for _i in range(1, 10):
    ADDR['c%d' % _i] = cx(0xc0 + _i)
    ADDR['e%d' % _i] = eoa(0xe0 + _i)
NAME = {a.b.hex(): n for n, a in ADDR.items()}

SIGS = {
    'E0': ('E0()', 0, []),
    'E1': ('E1(int)', 1, ['i']),
    'E2': ('E2(str,bytes)', 1, ['s', 'b']),
    'E3': ('E3(Address,bool,int,str)', 2, ['a', 'z', 'i', 's']),
    'E4': ('E4(bytes,int,str,Address)', 3, ['b', 'i', 's', 'a']),
    'E5': ('E5(int,int,int)', 1, ['i', 'i', 'i']),
    'E6': ('E6(str,str)', 2, ['s', 's']),
}

ZERO_COSTS = {k: 0 for k in ('schema', 'get', 'getBase', 'set', 'setBase', 'replace', 'delete', 'deleteBase',
                             'eventLog', 'log', 'logBase', 'apiCall', 'contractCall')}


def costs(**kw):
    c = dict(ZERO_COSTS)
    c.update(kw)
    return c


PROD = costs(schema=1, get=25, getBase=3000, set=320, setBase=10000, delete=-240, deleteBase=200,
             log=100, logBase=5000, apiCall=10000, contractCall=25000)
V0 = costs(schema=0, set=320, replace=80, delete=-240, eventLog=100, apiCall=10000, contractCall=25000)
V0G = costs(schema=0, get=3, set=32, replace=8, delete=-24, eventLog=10, apiCall=1000, contractCall=100)
TINY = costs(schema=1, get=1, getBase=2, set=3, setBase=11, delete=-2, deleteBase=1, log=1, logBase=3,
             apiCall=10, contractCall=5)
FREE = costs()


# ---- values: [tag, text, encoded length, encoding] --------------------------------
def enc(v):
    t, x = v[0], v[1]
    if t == 'i':
        return enc_int(int(x))
    if t == 's':
        return x.encode()
    if t == 'b':
        return bytes.fromhex(x)
    if t == 'z':
        return b'\x01' if x == '1' else b'\x00'
    if t == 'a':
        return ADDR[x].b
    return b''


def V(t, x):
    x = str(x)
    b = enc([t, x])
    return [t, x, len(b), b.hex()]


def vi(n):
    return V('i', n)


def vs(s):
    return V('s', s)


def vb(b):
    return V('b', b.hex())


def vz(b):
    return V('z', '1' if b else '0')


def va(name):
    return V('a', name)


NIL = ['n', '', 0, '']
FLOAT = ['f', '1.5', 0, '']


def K(t, x):
    x = str(x)
    return [t, x, enc([t, x]).hex()]


def C(kind, name, t, depth=1, path=()):
    """A container: [kind, name, type, depth, sub-database path]"""
    return dict(k=kind, n=name, t=t, d=depth, p=list(path))


def _wirev(v):
    return ['a', ADDR[v[1]].b.hex()] if v[0] == 'a' else [v[0], v[1]]


def wire_ops(ops):
    """Operations in the form the interpreter contract takes."""
    out = []
    for o in ops:
        o = dict(o)
        if 'c' in o:
            c = o['c']
            o['c'] = [c['k'], c['n'], c['t'], c['d'], c['p']]
        if 'v' in o and isinstance(o['v'], list):
            o['v'] = _wirev(o['v'])
        for f in ('k', 'args'):
            if f in o:
                o[f] = [_wirev(x) for x in o[f]]
        if 'kw' in o:
            o['kw'] = [[n, _wirev(x)] for n, x in o['kw']]
        if o['op'] in ('call', 'icx'):
            o['to'] = ADDR[o['to']].b.hex()
        if o['op'] == 'bal':
            o['a'] = ['a', ADDR[o['a']].b.hex()]
        for f in ('body', 'w'):
            if isinstance(o.get(f), list):
                o[f] = wire_ops(o[f])
        if o['op'] == 'revert' and o.get('bad'):
            o['code'] = 'zz'
        out.append(o)
    return out


def tla_ops(ops):
    """Operations in the form Machine.tla takes: every field the specification reads."""
    out = []
    for o in ops:
        o = dict(o)
        k = o['op']
        if k == 'call':
            o.setdefault('m', 'run')
            o.setdefault('v', 0)
            o['body'] = tla_ops(o.get('body', []))
        elif k == 'revert':
            o.setdefault('bad', False)
            o.setdefault('code', 0)
        elif k == 'raise':
            o.setdefault('code', 0)
            o.setdefault('m', '')
        elif k == 'ev':
            o.setdefault('kw', [])
        elif k in ('jd', 'jl'):
            o['x'] = ('"%s"' if k == 'jd' else '%s') % ('x' * o['n'])
        out.append(o)
    return out


#: the contract of c2 inherits all it declares; that of c3 overrides what is declared otherwise
INHERITED = 'from . import interp\nclass Interp(interp.Interp):\n    pass\n'
OVERRIDDEN = '''class Overridden(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external(readonly=True)
    def run(self, script: int):
        pass
    @external
    @payable
    def ask(self, script: int):
        pass
    @payable
    def fallback(self):
        pass
    @eventlog
    def E1(self, a: str):
        pass
    @eventlog(indexed=2)
    def E2(self, a: str, b: bytes, c: int = 1):
        pass

'''


class Rig:
    """An engine process, a scratch directory with the interpreter contract deployed
    under several addresses, and the observation file."""

    def __init__(self, timeout=20.0, verify=False, log_level='error', hold=False, chunk=0, env=None):
        self.env = env or {}
        self.dir = tempfile.mkdtemp(prefix='rig.')
        self.obs = os.path.join(self.dir, 'obs')
        open(self.obs, 'w').close()
        self.kw = dict(timeout=timeout, verify=verify, log_level=log_level)
        self.code = {}
        for c in CONTRACTS:
            d = os.path.join(self.dir, 'code_' + c)
            os.makedirs(d)
            with open(os.path.join(HERE, 'scores', 'interp.py')) as f:
                text = f.read()
            if c == 'c3':
                assert 'class Interp(IconScoreBase):' in text
                text = text.replace('class Interp(IconScoreBase):', OVERRIDDEN + 'class Interp(Overridden):')
            with open(os.path.join(d, 'interp.py'), 'w') as f:
                f.write(text)
            with open(os.path.join(d, 'top.py'), 'w') as f:
                f.write(INHERITED)
            open(os.path.join(d, '__init__.py'), 'w').close()
            with open(os.path.join(d, 'package.json'), 'w') as f:
                json.dump({'version': '1.0', 'main_module': 'top' if c == 'c2' else 'interp', 'main_score': 'Interp'}, f)
            self.code[c] = d
        self.hold, self.chunk = hold, chunk
        self.worlds = 0
        self.eng = None
        self.invocations = 0
        self.restarts = 0
        self.session = None       # a list: keep all messages
        self.start()

    def start(self):
        if self.eng is not None:
            self.eng.kill()
            self.restarts += 1
        self.eng = mgr.Engine(env=dict(self.env, VERIF_OBS=self.obs), scratch=self.dir, **self.kw)
        self.eng.hold, self.eng.chunk = self.hold, self.chunk

    def close(self):
        self.eng.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    SHARED = ((1, 2, 3), (1, 1, 1), (1, 1, 3), (3, 2, 3), (2, 1, 1))

    def world(self, costs, js=False, bal=None, revision=None):
        w = mgr.World(costs, revision if revision is not None else (256 if js else 0))
        # contracts have code of their own, or the same
        self.worlds += 1
        for c, k in zip(CONTRACTS, self.SHARED[self.worlds % len(self.SHARED)]):
            w.code[ADDR[c].b] = self.code['c%d' % k]
            w.ro_methods[ADDR[c].b] = ('ask',)
            w.owner[ADDR[c].b] = [eoa(0xa0 + int(c[1]))]
        for n, v in (bal or {}).items():
            w.balance[ADDR[n].b] = v
        return w

    @staticmethod
    def vary(world, n):
        """Block, transaction and owners: others for every number."""
        r = random.Random(n)
        pick = lambda *xs: r.choice(xs)
        world.block = (pick(0, 1, 127, 128, r.randrange(1 << 40)), pick(0, r.randrange(1 << 50), 1 << 62))
        world.tx = dict(hash=bytes(r.randrange(256) for _ in range(32)), index=pick(0, 1, 200, r.randrange(1 << 31)),
                        origin=ADDR[pick('e1', 'e2', 'e3', 'e4', 'e5')], timestamp=pick(0, r.randrange(1 << 50)),
                        nonce=pick(None, 0, 1, -1, r.randrange(1 << 70)))
        if r.random() < .1:      # a query, without a transaction
            world.tx = dict(hash=None, index=0, origin=None, timestamp=0, nonce=None)
        for c in CONTRACTS:
            world.owner[ADDR[c].b] = [ADDR[pick('e1', 'e6', 'e7', 'c3', 'c7')] for _ in range(pick(1, 2, 3))]

    def invoke(self, world, inv, tweak=None):
        """Run one invocation; returns the list of observed frames (see Machine!NewObs)."""
        e = self.eng
        f = open(self.obs, 'r+')
        f.truncate(0)
        marks = open(self.obs, 'ab', buffering=0)
        e.on_invoke = lambda fr: marks.write(b'["I"]\n')
        e.on_result = lambda fr: marks.write(b'["R"]\n')
        e.faults = {int(k): tuple(v) for k, v in inv.get('faults', {}).items()}
        e.trace = []
        if inv['m'] == 'fallback':
            params = []
        elif inv.get('pk') == 'list':
            params = [json.dumps(wire_ops(inv['ops']))]
        else:
            params = {'script': json.dumps(wire_ops(inv['ops']))}
        self.invocations += 1
        try:
            e.invoke(world, ADDR[inv['to']], inv['m'], params, frm=ADDR[inv['from']] if inv['from'] else mgr.NOBODY, value=inv['value'],
                     limit=inv['limit'], readonly=inv['ro'])
        finally:
            e.on_invoke = e.on_result = None
            marks.close()
            if self.session is not None:
                self.session += e.trace
            f.seek(0)
            lines = [json.loads(x) for x in f.read().split('\n') if x]
            f.close()
        return frames_of(e.frames, lines)


def nm(a):
    """hex address -> name"""
    return NAME.get(a, a)


def tok(x):
    """what the interpreter reports -> token of the specification"""
    if x[0] == 'a':
        return ['a', nm(x[1])]
    if x[0] == 'l':
        return ['l', [tok(y) for y in x[1]]]
    return [x[0], x[1]]


def wtok(v):
    """decoded wire value -> token"""
    if v is None:
        return ['n', '']
    if isinstance(v, bool):
        return ['z', '1' if v else '0']
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, bytes):
        return ['b', v.hex()]
    if isinstance(v, Address):
        return ['a', nm(v.b.hex())]
    if isinstance(v, list):
        return ['l', [wtok(x) for x in v]]
    if isinstance(v, dict) and list(v) == ['x']:      # what the interpreter makes of a late value
        return wtok(v['x'])
    return ['d', sorted((k, wtok(x)) for k, x in v.items())]


def event_of(d):
    """An EVENT message -> [name, [argument tokens]], decoded from the declaration."""
    try:
        indexed, data = d
        sig = indexed[0].decode()
        name = sig.split('(')[0]
        want, nidx, types = SIGS[name]
        if sig != want or len(indexed) != 1 + nidx:
            return ['?' + sig, [['b', x.hex() if x is not None else ''] for x in indexed + data]]
        out = []
        for t, b in zip(types, indexed[1:] + data):
            if b is None:
                out.append(['n', ''])
            elif t == 'i':
                out.append(['i', str(mgr.dec_int(b))] if enc_int(mgr.dec_int(b)) == b else ['?', b.hex()])
            elif t == 's':
                out.append(['s', b.decode()])
            elif t == 'b':
                out.append(['b', b.hex()])
            elif t == 'z':
                out.append(['z', {b'\x01': '1', b'\x00': '0'}.get(b, '?' + b.hex())])
            else:
                out.append(['a', nm(b.hex())])
        if len(indexed) - 1 + len(data) != len(types):
            return ['?' + name, out]
        return [name, out]
    except Exception as e:     # a malformed event is reported as such
        return ['?', [['?', repr(d)]]]


def frames_of(frames, lines):
    out = []
    res = []
    stack = []
    n = 0
    for ln in lines:
        if ln[0] == 'I':
            stack.append(n)
            res.append([])
            n += 1
        elif ln[0] == 'R':
            stack.pop()
        elif ln[0] == 'ok':
            res[stack[-1]].append(['ok', tok(ln[1])])
        elif ln[0] == 'ex':
            res[stack[-1]].append(['ex', ln[1], ln[3], ln[2]])
        elif ln[0] == 'enter':
            res[stack[-1]].append(['enter', ln[1], tok(ln[2]), tok(ln[3]), tok(ln[4])])
        elif ln[0] == 'leave':
            res[stack[-1]].append(['leave', tok(ln[1]), tok(ln[2]), tok(ln[3])])
    for f, r in zip(frames, res):
        x = f.result
        calls = []
        for to, value, limit, dt, method, params, raw in f.calls:
            calls.append([nm(to.b.hex()), value, limit, method,
                          'dict' if isinstance(params, dict) else 'list' if isinstance(params, list) else '?'])
        out.append(dict(to=nm(f.to.b.hex()), m=f.method, flag=f.readonly, value=f.value, limit=f.limit,
                        res=r, ev=[event_of(d) for d in f.events], calls=calls, scans=f.scans,
                        fee=f.fees[-1] if f.fees else 0, nfee=len(f.fees), nw=len(f.writes),
                        status=x.status, steps=x.steps, val=wtok(x.value) if x.status == 0 else ['n', ''],
                        msg=x.value if x.status != 0 and isinstance(x.value, str) else ''))
    return out


def ctx_of(world):
    """The contract-visible context that does not depend on the frame."""
    r = {}
    for c in CONTRACTS:
        t = world.tx
        r[c] = [[['a', nm(o.b.hex())] for o in world.owner[ADDR[c].b]], wtok(t['origin'] and Address(t['origin'].b)),
                wtok(t['hash']), ['i', str(t['index'])], ['i', str(t['timestamp'])],
                ['n', ''] if t['nonce'] is None else ['i', str(t['nonce'])],
                ['i', str(world.block[0])], ['i', str(world.block[1])],
                ['i', str(world.block[0])], ['i', str(world.block[1])]]
    return r


# ---- storage labels ------------------------------------------------------
TAGS = {'A': b'\x00', 'D': b'\x01', 'V': b'\x02'}


def preimage(label):
    """The layout of the storage, from the documentation: tag, encoded name, encoded
    path and key elements."""
    parts = label.split('/')
    b = TAGS[parts[0]] + mgr.rlp(parts[1].encode())
    for p in parts[2:]:
        if p != '#':
            b += mgr.rlp(bytes.fromhex(p))
    return b


def key_of(label):
    return hashlib.sha3_256(preimage(label)).digest()


def _index(i):
    return i.to_bytes(1 + i.bit_length() // 8, 'big').hex()


def _keyhex(k):
    return k[2]


def labels_of(ops, out):
    """All storage labels the operations can touch."""
    for o in ops:
        for f in ('body', 'w'):
            if isinstance(o.get(f), list):
                labels_of(o[f], out)
        if 'c' not in o:
            continue
        c = o['c']
        base = '/'.join([c['k'], c['n']] + c['p'])
        if c['k'] == 'V':
            out.add(base)
        elif c['k'] == 'A':
            out.add(base + '/#')
            for i in range(40):
                out.add('%s/%02x' % (base, i))
        elif 'k' in o:
            ks = [_keyhex(x) for x in o['k']]
            for n in range(1, len(ks) + 1):
                out.add('/'.join([base] + ks[:n]))
    return out


def store_of(world, labels):
    """The node's storage with the keys replaced by labels (label -> hex)."""
    inv = {key_of(x): x for x in labels}
    out = {}
    for c in CONTRACTS:
        st = world.store.get(ADDR[c].b, {})
        out[c] = {inv.get(k, '?' + k.hex()): v.hex() for k, v in st.items()}
    return out


def run_program(rig, prog):
    """prog: dict(costs, js, bal, invs=[dict(to,m,from,value,limit,ro,ops,faults)]).
    Returns the record MachineTrace.tla reads."""
    w = rig.world(prog['costs'], prog.get('js', False), prog.get('bal'))
    for n, m in prog.get('init', {}).items():
        for l, v in m.items():
            w.of(ADDR[n])[key_of(l)] = enc(v)
    labels = set()
    for inv in prog['invs']:
        labels_of(inv['ops'], labels)
    for n, m in prog.get('init', {}).items():
        labels |= set(m)
        for l, v in m.items():
            if l.endswith('/#'):
                n = int(v[1])
                labels |= {l[:-1] + _index(i) for i in range(max(0, n - 6), n + 7)}
    invs = []
    for inv in prog['invs']:
        rig.vary(w, inv.get('w', 0))
        w.costs, js = dict(inv.get('costs', prog['costs'])), inv.get('js', prog.get('js', False))
        w.revision = 256 if js else 0
        obs = rig.invoke(w, inv)
        invs.append(dict(costs=inv.get('costs', prog['costs']), js=js, ctx=ctx_of(w), to=inv['to'], m=inv['m'], value=inv['value'], limit=inv['limit'], ro=inv['ro'],
                         ops=tla_ops(inv['ops']), faults={str(k): list(v) for k, v in inv.get('faults', {}).items()},
                         obs=obs, after=store_of(w, labels),
                         balafter={n: w.balance.get(ADDR[n].b, 0) for n in CONTRACTS + EOAS}, **{'from': inv['from']}))
    g = dict(store=prog.get('init', {}), bal=prog.get('bal', {}),
             eoas=['e%d' % i for i in range(1, 10)], contracts=CONTRACTS, marks=prog.get('marks', False))
    return dict(g=g, invs=invs)
