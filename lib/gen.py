"""Random programs for the interpreter contract.  Everything is drawn from one
random.Random, so a run is determined by its seed."""
from machine import C, FLOAT, K, NIL, PROD, TINY, V, V0, V0G, FREE, costs, va, vb, vi, vs, vz

CONT = [C('V', 'x', 'i'), C('V', 'y', 's'), C('V', 'z', 'b'), C('V', 'w', 'z'), C('V', 'q', 'a'),
        C('D', 'd', 's', 1), C('D', 'd2', 'i', 2), C('D', 'd3', 'b', 3), C('D', 'x', 'i', 1), C('D', 'd6', 'i', 6),
        C('A', 'arr', 'i'), C('A', 'x', 's'), C('A', 'ab', 'z'), C('A', 'aa', 'a'),
        C('V', 'x', 'i', 1, ('aa',)), C('D', 'd', 's', 1, ('aa', 'bbcc')), C('A', 'arr', 'b', 1, ('7f',))]
INTS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 10**6, -10**9, 2**31, 2**63, -2**63,
        2**64 + 1, 10**18, 2**255, -2**255, 2**256]
STRS = ['a', 'zz', 'hello', '0', 'x' * 20, 'y' * 55, 'z' * 56, 'w' * 200, 'A' * 700]
KEYS = [K('i', 0), K('i', 1), K('i', -1), K('i', 200), K('s', 'k'), K('s', ''), K('s', 'kk'), K('b', '01'),
        K('b', 'ff' * 40), K('a', 'e1'), K('a', 'c2')]
MSGS = ['', 'no', 'failed: 1', 'm' * 60]


class Gen:
    def __init__(self, rng, weights=None, depth=3, empty=True, size=8, contracts=('c1', 'c2', 'c3'), small=False, lazy=0.06):
        self.r = rng
        self.depth, self.empty, self.size, self.contracts = depth, empty, size, contracts
        self.small, self.lazy = small, lazy
        w = dict(v=6, d=5, a=8, bad=1, ev=3, call=4, icx=1, bal=1, fee=1, feeget=1, ctx=2, util=2, fail=1, ret=1, tr=1)
        if weights is not None:
            w = dict(weights)
        self.w = w

    def value(self, t, bad=0.02):
        r = self.r
        if r.random() < bad:
            return r.choice([NIL, FLOAT])
        if t == 'i':
            return vi(r.choice(INTS) if r.random() < .7 else r.randint(-70000, 70000))
        if t == 's':
            if self.empty and r.random() < .15:
                return vs('')
            return vs(r.choice(STRS[:5] if self.small else STRS))
        if t == 'b':
            if self.empty and r.random() < .15:
                return vb(b'')
            return vb(bytes([r.randrange(256)]) * r.choice([1, 2, 5, 31, 32, 33, 100]))
        if t == 'z':
            return vz(r.random() < .5)
        return va(r.choice(['e1', 'e2', 'c1', 'c3']))

    def cont(self, kind):
        cs = [c for c in CONT if c['k'] == kind]
        # a few favourites, so that containers are used again
        return self.r.choice(cs[:2] if self.r.random() < .6 else cs)

    def op_v(self):
        c, r = self.cont('V'), self.r
        k = r.choice(['vset', 'vset', 'vset', 'vget', 'vdel'])
        return dict(op=k, c=c, v=self.value(c['t'])) if k == 'vset' else dict(op=k, c=c)

    def op_d(self):
        c, r = self.cont('D'), self.r
        k = r.choice(['dset', 'dset', 'dset', 'dget', 'ddel', 'dhas', 'dget', 'diter' if r.random() < .1 else 'dget'])
        if k == 'diter':
            return dict(op=k, c=c)
        n = c['d']
        if r.random() < .08 and n > 1:
            n -= 1
        ks = [r.choice(KEYS[:4] if r.random() < .7 else KEYS) for _ in range(n)]
        if r.random() < .03:
            ks[r.randrange(n)] = r.choice([['n', '', ''], ['f', '1.5', '']])
        o = dict(op=k, c=c, k=ks)
        if k == 'dset':
            o['v'] = self.value(c['t'])
        if k == 'ddel' and r.random() < .5:
            o['how'] = 'del'
        return o

    def op_a(self):
        c, r = self.cont('A'), self.r
        k = r.choice(['aput', 'aput', 'aput', 'apop', 'aget', 'aset', 'alen', 'ahas', 'aiter', 'aiterw'] if r.random() < .7 else ['aput', 'aiterw'])
        o = dict(op=k, c=c)
        if k == 'aiterw':
            o['at'] = r.choice([0, 0, 1, 2])
            o['w'] = [self.op_w(c if r.random() < .8 else self.cont('A')) for _ in range(r.randrange(4))]
        if k in ('aput', 'aset'):
            o['v'] = self.value(c['t'])
        if k == 'ahas':
            o['v'] = self.value(c['t'] if r.random() < .85 else r.choice('isbza'), 0)
        if k in ('aget', 'aset'):
            o['i'] = r.choice([0, 0, -1, 1, 2, -2, 3, -4, 100])
        if k == 'aget' and r.random() < .3:
            o['how'] = 'get'
        return o

    def op_w(self, c):
        k = self.r.choice(['aput', 'aput', 'apop', 'aset', 'aget', 'alen'])
        o = dict(op=k, c=c)
        if k in ('aput', 'aset'):
            o['v'] = self.value(c['t'])
        if k in ('aset', 'aget'):
            o['i'] = self.r.choice([0, -1, 1, 2])
        return o

    def op_ev(self):
        r = self.r
        types = {'E0': '', 'E1': 'i', 'E2': 'sb', 'E3': 'azis', 'E4': 'bisa', 'E5': 'iii', 'E6': 'ss'}
        e = r.choice(list(types))
        a = [self.value(t, 0) if r.random() > .1 else NIL for t in types[e]]
        if e in ('E4', 'E5', 'E6') and r.random() < .4:
            a.pop()
        if r.random() < .06:
            if a and r.random() < .5:
                i = r.randrange(len(a))
                a[i] = self.value(r.choice('isbza'), 0)
            elif r.random() < .5:
                a.append(vi(1))
            elif len(a) > 1:
                a = a[:1]
        kw = []
        if a and len(a) <= len(types[e]) and r.random() < .4:
            n = r.randrange(len(a))
            kw = [['abcd'[i], a[i]] for i in range(n, len(a))]
            r.shuffle(kw)
            a = a[:n]
            if r.random() < .08 and len(kw) + len(a) < len(types[e]) and a:
                kw.append(['a', self.value(types[e][0], 0)])
            elif r.random() < .05:
                kw.insert(r.randrange(len(kw) + 1), ['zz', vi(2)])
        return dict(op='ev', e=e, args=a, kw=kw)

    def op_call(self, d):
        r = self.r
        how = r.choice(['call', 'call', 'call', 'iface', 'ifacekw', 'send', 'transfer', 'fb'])
        to = r.choice(self.contracts)
        o = dict(op='call', how=how)
        if how in ('send', 'transfer', 'fb'):
            o['to'] = r.choice(['e1', 'e2', 'c1', 'c2', 'c9'])
            o['v'] = r.choice([0, 1, 5, 40, 1000])
        else:
            o['to'] = to if r.random() < .97 else 'c9'
            o['m'] = r.choice(['run', 'run', 'run', 'ask'])
            if how == 'call':
                if r.random() < .05:
                    o['m'] = 'nope'
                o['v'] = r.choice([0, 0, 0, 1, 7, 1000])
            o['body'] = self.ops(d - 1) if d > 0 and o['m'] != 'nope' else []
            if how == 'call' and r.random() < .04:
                o['to'], o['body'] = 'e2', []
        return o

    def op_fail(self):
        r = self.r
        x = r.random()
        if x < .45:
            if r.random() < .15:
                m, v = r.choice([('7', ['i', '7']), ('0', ['i', '0']), ('None', ['n', '']), ('False', ['z', '0'])])
                return dict(op='revert', m=m, mv=v, code=r.choice([0, 3]))
            return dict(op='revert', m=r.choice(MSGS), code=r.choice([0, 1, 5, -3, 900, 967, 968, 5000]))
        if x < .5:
            return dict(op='revert', m='x', bad=True)
        w = r.choice(['value', 'score', 'assert', 'badidx', 'weird', 'exit', 'kbd', 'rec', 'weird2', 'weird3', 'weird4', 'surr', 'coded'])
        if w == 'coded':
            return dict(op='raise', w=w, m=r.choice(MSGS), cv=r.choice(['abc', 'zero', 'float', 'big', 'neg', 'bytes', 'end']))
        return dict(op='raise', w=w, m=r.choice(MSGS), code=r.choice([0, 3, -1, 1000]))

    def op_util(self):
        r = self.r
        k = r.choice(['hash', 'hash', 'jd', 'jl', 'cak', 'rk'])
        o = dict(op=k, n=r.choice([0, 1, 31, 32, 33, 64, 65, 100, 150]))
        if k == 'hash':
            o['f'] = r.choice(['sha3', 'sha2'])
        if k == 'cak':
            o['n'], o['p'] = r.choice([(33, 2), (33, 3), (65, 4), (33, 9), (64, 4)])
        return o

    def one(self, d):
        r = self.r
        ks = [x for x in self.w if x != 'tr']
        k = r.choices(ks, [self.w[x] for x in ks])[0]
        if k == 'v':
            return self.op_v()
        if k == 'd':
            return self.op_d()
        if k == 'a':
            return self.op_a()
        if k == 'ev':
            return self.op_ev()
        if k == 'call':
            return self.op_call(d)
        if k == 'icx':
            return dict(op='icx', to=r.choice(self.contracts), v=r.choice([0, 1, 3, 2000, -1]))
        if k == 'bal':
            return dict(op='bal', a=r.choice(['c1', 'c2', 'e2']))
        if k == 'fee':
            return dict(op='fee', v=r.choice([0, 1, 50, 100, 101, -1]))
        if k == 'feeget':
            return dict(op=r.choice(['feeget', 'feeget', 'cnt']))
        if k == 'ctx':
            return dict(op='ctx')
        if k == 'util':
            return self.op_util()
        if k == 'fail':
            return self.op_fail()
        if k == 'ret':
            return dict(op='ret', v=self.value(r.choice('isbza'), .05)[:4] if r.random() < .98 else NIL)
        if k == 'bad':
            return dict(op='nop')
        raise KeyError(k)

    def ops(self, d=None):
        d = self.depth if d is None else d
        r = self.r
        n = self.r.randint(1, self.size if d == self.depth else max(1, self.size // 2))
        out = []
        guard = 0
        while len(out) < n:
            if guard == 0 and self.w.get('tr') and self.r.random() < .06 * self.w['tr']:
                guard = self.r.randint(1, 3)
                out.append(dict(op='try', n=guard))
                continue
            k = self.one(d)
            out.append(k)
            guard = max(0, guard - 1)
        while out and out[-1]['op'] == 'try':
            out.pop()
        if r.random() < self.lazy and out:
            out.insert(self.r.randrange(len(out)), dict(op='lazy'))
            # inside a guarded part, it is one of its operations
            i = next(j for j, o in enumerate(out) if o['op'] == 'lazy')
            for j, o in enumerate(out[:i]):
                if o['op'] == 'try' and j + o['n'] >= i:
                    o['n'] += 1
        # a guard never reaches past the end
        for i, o in enumerate(out):
            if o['op'] == 'try':
                o['n'] = min(o['n'], len(out) - 1 - i)
        return out

    def inv(self, **kw):
        r = self.r
        m = r.choice(['run'] * 6 + ['ask'])
        i = dict(to=r.choice(self.contracts[:2]), m=m, value=0 if m == 'ask' else r.choice([0, 0, 0, 5]),
                 limit=300_000_000, ro=m == 'ask' or r.random() < .1, ops=self.ops(), pk=r.choice(['dict', 'list']))
        i['from'] = r.choice(['e1', 'e2', 'c3'])
        i['w'] = r.randrange(1 << 30)
        if i['ro'] and r.random() < .9:
            i['value'] = 0
            if r.random() < .3:
                i['from'] = ''
        if r.random() < .1:
            i['js'] = True
        i.update(kw)
        return i

    def faults(self, p=.15):
        r = self.r
        out = {}
        for n in range(1, 6):
            if r.random() < p:
                st = r.choice([0, 0, 1, 2, 7, 10, 11, 32, 35, 998])
                out[n] = (st, r.choice([0, 5, 3000]), '' if st == 0 else r.choice(MSGS))
                if r.random() < .1:
                    out[n] = (st, -r.randint(1, 9), out[n][2])
        return out

    def prog(self, n=2, table=None, js=None, init=None, **kw):
        r = self.r
        return dict(costs=table if table is not None else r.choice([PROD, V0, V0G, TINY, FREE]),
                    js=r.random() < .5 if js is None else js,
                    bal={'c1': r.choice([0, 10, 1000]), 'c2': r.choice([0, 50])}, init=init or {},
                    invs=[self.inv(**kw) for _ in range(n)])
