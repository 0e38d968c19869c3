"""Library functions (Library.tla)."""
import hashlib
import json

import mgr
import tlc
from contracts import Shop

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)
P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)

USER = '''from iconservice import *
import json
def T(s): return ''.join(map(chr, s))
class Lying(bytes):
    """bytes which say they are of another length"""
    def __len__(self): return 0
    def __iter__(self): return iter(())
    def __getitem__(self, i): return 4
class Short(str):
    """a text which says its encoding is empty"""
    def encode(self, *a, **k): return b''
    def __len__(self): return 0
def V(v):
    t = v[0]
    if t == 'text': return T(v[1])
    if t == 'num': return int(T(v[1]))
    if t == 'list': return [V(x) for x in v[1]]
    if t == 'map': return {V(k): V(x) for k, x in v[1]}
    return {'null': None, 'true': True, 'false': False, 'none': b'ab'}[t]
def C(s): return [ord(c) for c in s]
def W(v):
    if v is None: return ['null']
    if v is True or v is False: return ['true' if v else 'false']
    if type(v) is int: return ['num', C(str(v))]
    if type(v) is str: return ['text', C(v)]
    if type(v) is list: return ['list', [W(x) for x in v]]
    if type(v) is dict: return ['map', [[W(k), W(x)] for k, x in v.items()]]
    return ['other', str(type(v))]
def spoil(v):
    # what is read belongs to the reader
    if type(v) is list:
        for x in v: spoil(x)
        v.append(7)
    if type(v) is dict:
        for x in v.values(): spoil(x)
        v['zz'] = 7
def D(d, lie=False):
    k, x = d
    if k == 'bytes': return (Lying if lie else bytes)(bytes.fromhex(x))
    if k == 'array': return bytearray.fromhex(x)
    return {'text': x, 'nothing': None, 'num': 7, 'list': [1, 2]}[k]
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    def go(self, script: str):
        out = []
        for c in json.loads(script):
            f = c['f']
            try:
                if f == 'dumps': r = C(json_dumps(V(c['v'])))
                elif f == 'loads': 
                    o = json_loads((Short if c['lie'] else str)(T(c['v'])))
                    r = W(o)
                    spoil(o)
                elif f == 'loadsother': r = json_loads(D(c['d']))
                elif f == 'sha3': r = sha3_256(D(c['d'], c['lie'])).hex()
                elif f == 'sha2': r = sha_256(D(c['d'], c['lie'])).hex()
                elif f == 'address':
                    r = create_address_with_key(D(c['d'], c['lie']))
                    r = r and r.to_bytes().hex()
                else:
                    r = recover_key(D(c['h']), D(c['s']), c['c']) if c['c'] is not None else recover_key(D(c['h']), D(c['s']))
                    r = r and r.hex()
                out.append(['none', 0] if r is None else ['ok', r])
            except BaseException as e:
                if int(getattr(e, 'code', 0)) == 10: raise
                out.append(['error', int(getattr(e, 'code', 1))])
        return json.dumps(out)
'''


# ---- the curve, by the definition (nothing of the library under test)
def add(a, b):
    if a is None or b is None:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def mul(k, a):
    r = None
    while k:
        if k & 1:
            r = add(r, a)
        a = add(a, a)
        k >>= 1
    return r


def lift(x, odd):
    if x >= P:
        return None
    y2 = (pow(x, 3, P) + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    if y * y % P != y2:
        return None
    return x, (P - y if y % 2 != odd else y)


def long(p):
    return b'\x04' + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')


def short(p):
    return bytes([2 + p[1] % 2]) + p[0].to_bytes(32, 'big')


def recovered(h, sig):
    """the public key or None"""
    r, s, v = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:64], 'big'), sig[64]
    if v > 3 or not (0 < r < N and 0 < s < N):
        return None
    R = lift(r + (N if v & 2 else 0), v & 1)
    if R is None:
        return None
    z, ri = int.from_bytes(h, 'big') % N, pow(r, -1, N)
    return add(mul(s * ri % N, R), mul((-z * ri) % N, G))


def key_table(rnd, n):
    ks = []
    for i in range(n):
        p = mul(rnd.randrange(1, N), G)
        ks += [short(p), long(p), long((p[0], P - p[1])), bytes([5 - short(p)[0]]) + short(p)[1:]]
        ks += [bytes([rnd.choice([0, 1, 4, 5, 0x82])]) + short(p)[1:], bytes([rnd.choice([0, 2, 3, 5, 6, 7, 0x84])]) + long(p)[1:],
               rnd.choice([long(p)[1:], short(p)[1:], long(p) + b'\x00', long(p)[:-1], short(p) + b'\x00'])]
    ks += [b'', b'\x02' + (5).to_bytes(32, 'big'), b'\x03' + (5).to_bytes(32, 'big'), b'\x02' + (P + 1).to_bytes(32, 'big'),
           b'\x02' + bytes(32), b'\x02' + b'\xff' * 32, b'\x02' + (1).to_bytes(32, 'big')]
    out = []
    for k in ks:
        e = {'d': ['bytes', k.hex()], 'kind': 'bytes', 'n': len(k), 'first': k[0] if k else -1, 'point': False, 'address': ''}
        full = None
        if len(k) == 33 and k[0] in (2, 3):
            pt = lift(int.from_bytes(k[1:], 'big'), k[0] - 2)
            e['point'] = pt is not None
            full = pt and long(pt)
        elif len(k) == 65:
            full = k
        if full:
            e['address'] = '00' + hashlib.sha3_256(full[1:]).digest()[-20:].hex()
        out.append(e)
    good = ks[0].hex()
    for d in (['text', 'x' * 33], ['array', good], ['nothing', ''], ['num', ''], ['list', '']):
        out.append({'d': d, 'kind': 'other', 'n': 33, 'first': 2, 'point': True, 'address': ''})
    return out


def sig_table(rnd, n):
    cases = []
    for _ in range(n):
        h, d, k = rnd.randbytes(32), rnd.randrange(1, N), rnd.randrange(1, N)
        R = mul(k, G)
        r = R[0] % N
        s = pow(k, -1, N) * (int.from_bytes(h, 'big') + r * d) % N
        base = lambda r, s, v: r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([v])
        cases += [(h, base(r, s, R[1] % 2)), (h, base(r, N - s, 1 - R[1] % 2)), (h, base(r, s, 1 - R[1] % 2)),
                  (h, base(r, s, rnd.choice([2, 3]))), (h, base(r, s, rnd.choice([4, 27, 28, 255]))),
                  (h, base(rnd.randrange(1, 10 ** 30), s, rnd.choice([2, 3]))), (h, base(rnd.randrange(1, N), s, 0)),
                  (h[:-1], base(r, s, 0)), (h + b'\x00', base(r, s, 0)), (h, base(r, s, 0)[:-1]), (h, base(r, s, 0) + b'\x00'), (b'', b'')]
    h = cases[0][0]
    cases += [(h, base(0, 5, 0)), (h, base(5, 0, 0)), (h, base(N, 5, 0)), (h, base(5, N, 0)), (h, base(1, N - 1, 1)), (h, base(N - 1, 1, 0)),
              (bytes(32), base(1, 1, 0)), (b'\xff' * 32, cases[0][1]), (h, bytes(65)), (h, b'\xff' * 65)]
    out = []
    for i, (h, g) in enumerate(cases):
        p = recovered(h, g) if len(h) == 32 and len(g) == 65 else None
        for c in ((True, False, None) if i % 5 == 0 else (True, False)):
            out.append({'h': ['bytes', h.hex()], 's': ['bytes', g.hex()], 'c': c, 'compressed': c is not False, 'hn': len(h), 'sn': len(g),
                        'valid': p is not None, 'short': short(p).hex() if p else '', 'long': long(p).hex() if p else ''})
    h, g = cases[0]
    for a, b in ((['array', h.hex()], ['bytes', g.hex()]), (['bytes', h.hex()], ['array', g.hex()]), (['text', 'x' * 32], ['bytes', g.hex()]),
                 (['bytes', h.hex()], ['text', 'x' * 65]), (['nothing', ''], ['nothing', ''])):
        out.append({'h': a, 's': b, 'c': True, 'compressed': True, 'hn': 32, 'sn': 65, 'valid': False, 'short': '', 'long': ''})
    return out


def data_table(rnd):
    out = []
    for n in (0, 1, 31, 32, 33, 63, 64, 65, 100, 319, 320, 321, 5000):
        b = rnd.randbytes(n)
        out.append({'d': ['bytes', b.hex()], 'kind': 'bytes', 'n': n, 'sha3': hashlib.sha3_256(b).hexdigest(), 'sha2': hashlib.sha256(b).hexdigest()})
    for d in (['text', 'abc'], ['array', '0102'], ['nothing', ''], ['num', ''], ['list', '']):
        out.append({'d': d, 'kind': 'other', 'n': 0, 'sha3': '', 'sha2': ''})
    return out


def cp(s):
    return [ord(c) for c in s]


def txt(s):
    return ['text', cp(s)]


def num(n):
    return ['num', cp(str(n))]


class Runner:
    def __init__(self, ctx, shop, tables, api):
        self.ctx, self.shop, self.t, self.api = ctx, shop, tables, api
        self.path = shop.package(USER)
        self.me = mgr.cx(0xa1)

    def call(self, c):
        """the call as the contract gets it; what it's given may be of a type of the contract which lies about it"""
        lie = self.ctx.rng.random() < .3
        f, v = c['f'], c['v']
        if f in ('dumps', 'loads'):
            return {'f': f, 'v': v, 'lie': lie}
        e = self.t['keys' if f == 'address' else 'sigs' if f == 'recover' else 'data'][v - 1]
        return {'f': f, 'h': e['h'], 's': e['s'], 'c': e['c']} if f == 'recover' else {'f': f, 'd': e['d'], 'lie': lie}

    def run(self, x):
        """one printed behaviour; whether the engine can go on"""
        ctx, shop = self.ctx, self.shop
        ctx.traces += 1
        w = shop.world
        w.costs = {'apiCall': self.api}
        w.revision = x['rev']
        w.code = {self.me.b: self.path}
        try:
            shop.eng.trace = []
            got = shop.eng.invoke(w, self.me, 'go', {'script': json.dumps([self.call(c) for c in x['p']])}, limit=x['lim'])
        except FAIL as e:
            ctx.violation('library: %s: %s' % (type(e).__name__, e), x)
            shop.start()
            return
        if x['out'][-1][0] == 'steps':
            bad = got.status != 10
        else:
            bad = got.status != 0 or json.loads(got.value) != x['out']
        if bad or got.steps != x['used']:
            ctx.violation('library: result, specified %s steps %d %s, got %r' % (
                'status %d' % (10 if x['out'][-1][0] == 'steps' else 0), x['used'], json.dumps(x['out'])[:300], got), {'specified': x, 'observed': repr(got)})


def lib(ctx, run, shop, d):
    r = tlc.run('LibraryEnum', 'SPECIFICATION Spec\nINVARIANT Bounded\n', {'lib.json': json.dumps(d)}, timeout=800)
    if r.violated:
        raise tlc.TlcError('library: %s does not hold of the specification' % r.violated)
    ctx.tlc(r, 'programs of %d library calls' % d['length'])
    ctx.count('library programs', len(r.lines))
    ctx.sample(r.lines[-1])
    return r.lines


def c22(ctx):
    rnd = ctx.rng
    tables = {'data': data_table(rnd), 'keys': key_table(rnd, ctx.scale(6, 40)), 'sigs': sig_table(rnd, ctx.scale(3, 20))}
    spec_t = {k: [{a: b for a, b in e.items() if a not in ('d', 'h', 's', 'c')} for e in v] for k, v in tables.items()}
    atoms = [['null'], ['true'], ['false'], num(0), num(-1), num(10 ** 40), txt(''), txt('a "b"\\/\n'), txt('\x00\x1f\x7f\x80é\u2028\uffff\U0001f600\U0010ffff'),
             txt('\ud800'), txt('\udc00\ud83d'), ['none']]
    few = [num(7), txt('x'), ['none']]
    names = [txt(''), txt('a'), txt('é"'), num(5), ['null'], ['true']]
    every = [{'f': f, 'v': i + 1} for f in ('sha3', 'sha2') for i in range(len(tables['data']))] \
        + [{'f': 'address', 'v': i + 1} for i in range(len(tables['keys']))] + [{'f': 'recover', 'v': i + 1} for i in range(len(tables['sigs']))] \
        + [{'f': 'loadsother', 'v': i + 1} for i in range(len(tables['data'])) if tables['data'][i]['d'][0] != 'text'] \
        + [{'f': 'loads', 'v': cp(s)} for s in (
            '', ' ', ' 1 ', '\t[\n1 ,\r2 ]', '[1,]', '[,1]', '{"a":1,}', "{'a':1}", '{"a":1,"b":2,"a":[3]}', '{"a":{"b":[{}]}}', '01', '-', '-0', '--1', '+1', '1 2',
            '"\\u00e9\\ud83d\\ude00\\ud83d"', '"\\ud83d\\u0041"', '"\\udc00\\ud83d"', '"\\u12g4"', '"\\x41"', '"a\nb"', '"é\U0001f600"', 'nul', 'nulll', 'True', 'None', '\ufeff1', '\xa01',
            '[' * 60 + ']' * 60, '1' * 300, '"' + 'é' * 99 + '"', '"' + 'x' * 101 + '"', '\ud800', '"\ud800"', '{1:2}', '{"a" : 1 , "b":null}', '[]]', '{}{}')]
    light = [{'f': 'sha3', 'v': 4}, {'f': 'sha2', 'v': 5}, {'f': 'sha3', 'v': len(tables['data'])}, {'f': 'address', 'v': 1}, {'f': 'address', 'v': 2},
             {'f': 'address', 'v': 5}, {'f': 'recover', 'v': 1}, {'f': 'recover', 'v': 9}, {'f': 'loads', 'v': cp('[1,2]')}, {'f': 'loads', 'v': cp('[é')},
             {'f': 'dumps', 'v': ['list', [num(1), num(2)]]}, {'f': 'dumps', 'v': ['none']}, {'f': 'loadsother', 'v': 1}]
    base = {'T': spec_t, 'revs': [0, 255, 256, 511, 512, 769], 'calls': every, 'length': 1, 'limits': [], 'atoms': atoms, 'few': few, 'names': names,
            'depth': 1, 'edit': [cp('{"a":[1,-20,true],"é":null}')], 'chars': cp('1",:[}- \\u\n'), 'check': True}
    shop = Shop()
    with shop:
        for api in (1777, 10000):
            run = Runner(ctx, shop, tables, api)
            d = dict(base, api=api)
            if api == 10000:
                d.update(revs=[0, 256], depth=ctx.scale(1, 2), atoms=atoms if ctx.quick else atoms[:8:3] + [atoms[8]], few=few[:2], names=names[:2] + names[3:4])
            for x in lib(ctx, run, shop, d):
                run.run(x)
            # the limits at which the calls of a program end, and next to them
            d = dict(base, api=api, revs=[0, 256], calls=light, length=2, check=False, edit=[], atoms=[num(1)], few=[], names=[], depth=0)
            marks = set()
            for x in lib(ctx, run, shop, dict(d, length=1)):
                marks.add(x['used'])
            both = {a + b for a in marks for b in marks} | marks
            lims = sorted({m + k for m in both for k in (-1, 0, 1) if m + k >= 0})
            if ctx.quick:
                lims = sorted(rnd.sample(lims, min(len(lims), 12)))
            for x in lib(ctx, run, shop, dict(d, limits=lims)):
                run.run(x)
    ctx.exhaustive = True
