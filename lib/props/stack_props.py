"""Contracts that use up their stack (Stack.tla)."""
import json
import os
import random

import mgr
import tlc
from contracts import Shop

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)

SOURCE = '''from iconservice import *
class S(IconScoreBase):
    @eventlog(indexed=1)
    def E(self, a: int, b: str): pass
    def __init__(self, db):
        super().__init__(db)
        self.x = VarDB('x', db, int)
        self.y = VarDB('y', db, str)
        self.a = ArrayDB('a', db, int)
        self.d = DictDB('d', db, int, depth=2)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    def sink(self, k, f):
        return f() if k <= 0 else self.sink(k - 1, f)
    @external
    def go(self, k: int, op: str, pre: int, caught: int):
        for i in range(pre):
            # these give steps back, which the engine learns later
            self.d['k'][i] = i
        f = getattr(self, '_' + op)
        if not caught:
            return self.sink(k, f)
        try:
            return self.sink(k, f)
        except BaseException:
            return 'caught'
    def _get(self):
        return self.x.get()
    def _set(self):
        self.x.set(7)
    def _del(self):
        self.y.remove()
    def _put(self):
        self.a.put(5)
    def _pop(self):
        return self.a.pop()
    def _has(self):
        return 9 in self.a
    def _iter(self):
        return [x for x in self.a]
    def _deep(self):
        return self.d['k'][3]
    def _ev(self):
        self.E(7, 'seven')
    def _bal(self):
        return self.icx.get_balance(self.address)
    def _hash(self):
        return sha3_256(b'abc')
    def _json(self):
        return json_dumps([1, {'a': 2}])
    def _call(self):
        return self.call(self.tx.origin, 'leaf', {'n': '0x5'})
    def _deepret(self):
        x, n = self.call(self.tx.origin, 'nested', {'n': '0x64'}), 0
        while isinstance(x, list):
            x, n = x[0], n + 1
        return n
    def _log(self):
        Logger.info('x' * 9)
        Logger.debug(7)
    def _send(self):
        return self.icx.send(self.msg.sender, 0)
    def _fails(self):
        try:
            self.call(self.tx.origin, 'no', {})
        except IconServiceBaseException as e:
            return e.message
    @external
    def leaf(self, n: int) -> int:
        self.x.set(n)
        return self.x.get()
    @external
    def nested(self, n: int) -> list:
        r = 1
        for i in range(n):
            r = [r]
        return r
    @external
    def no(self):
        revert('no', 5)
    @external
    def chain(self, n: int, pad: int) -> int:
        if n <= 0:
            return 0
        return self.sink(pad, lambda: 1 + self.call(self.address, 'chain', {'n': hex(n - 1), 'pad': hex(pad)}))
'''.replace(' -> list', '')
OPS = ['get', 'set', 'del', 'put', 'pop', 'has', 'iter', 'deep', 'ev', 'bal', 'hash', 'json', 'call', 'deepret', 'send', 'fails', 'log']
SILENT = ('hash', 'json', 'log')


class Bench:
    """One engine, contract c1 which sinks and contract c2 which it calls."""

    def __init__(self, shop, path, path2, cold=None, **kw):
        self.args = dict(scratch=shop.dir, timeout=20, **kw)
        self.path, self.path2 = path, path2
        self.cold = cold          # gives a new directory of the same code for the callee
        self.base = None
        self.start()

    def start(self):
        self.eng = mgr.Engine(**self.args)
        self.session = []

    def world(self):
        w = mgr.World(revision=(1 << 62) - 1)
        c1, c2 = mgr.cx(1), mgr.cx(2)
        w.code = {c1.b: self.path, c2.b: self.path2}
        w.owner = {c1.b: mgr.eoa(9), c2.b: mgr.eoa(9)}
        w.balance = {c1.b: 77}
        w.tx = dict(w.tx, origin=c2)
        return w, c1

    def run(self, op, k, pre, caught, limit):
        """[sent, status, steps, value, served afterwards, calls]"""
        w, c1 = self.world()
        if self.cold:
            w.code[mgr.cx(2).b] = self.cold()
        if self.base is None:
            # what is replaced is longer than what replaces it
            self.eng.invoke(w, c1, 'leaf', {'n': hex(1 << 600)})
            self.eng.invoke(w, c1, 'go', [0, 'put', 6, 0])
            self.base = w.snapshot()
        w.restore(self.base)
        self.eng.trace = []
        r = self.eng.invoke(w, c1, 'go', [k, op, pre, caught], limit=limit)
        tr = self.eng.trace
        ses = [(d, m, x) for d, m, x in tr if m != mgr.LOG]
        depth, sent = 0, []
        for d, m, x in ses:
            if d == '>' and m == mgr.INVOKE:
                depth += 1
            elif d == '<' and m == mgr.RESULT:
                depth -= 1
            elif d == '<' and depth == 1:
                sent.append('%s %r' % (mgr.NAMES.get(m, m), x) if m != mgr.CALL else 'CALL')
        r2 = self.eng.invoke(w, c1, 'leaf', {'n': '0x5'})
        after = r2.status == 0 and r2.value == 5 and not self.eng.quiet(0.0005)
        self.session += [(d, m, x) for d, m, x in self.eng.trace]
        self.msgs = [(m, repr(x)) for d, m, x in tr if d == '<' and m != mgr.LOG]
        v = r.value
        text = 'caught' if v == 'caught' else 'x' if r.status == 1 else repr(v)
        return dict(k=k, sent=sent, status=r.status, steps=r.steps, val=text, after=after, calls=sent.count('CALL'))


def sweeps(ctx, ops, ks, what='stack'):
    """Every operation at every depth of the stack."""
    from .machine_props import events_of
    with Shop() as shop:
        a, b = shop.package(SOURCE), shop.package(SOURCE)
        bench = Bench(shop, a, b)
        out, dead = [], 0
        for op in ops:
            for pre, caught in ((0, 0), (4, 1)):
                for tight in ((0, 1) if not ctx.quick else (caught,)):
                    try:
                        lim = 10 ** 9
                        full = bench.run(op, 0, pre, caught, lim)
                        if tight:
                            lim = max(full['steps'], 10000)
                            full = bench.run(op, 0, pre, caught, lim)
                        sw = dict(op=op, limit=lim, silent=op in SILENT, caught=bool(caught), full=full, rows=[])
                        out.append((sw, dict(op=op, pre=pre, caught=caught, limit=lim)))
                        for k in ks:
                            sw['rows'].append(bench.run(op, k, pre, caught, lim))
                            ctx.traces += 1
                    except FAIL as e:
                        dead += 1
                        ctx.violation('%s: a contract which does %s after many frames: %s: %s' % (what, op, type(e).__name__, str(e)[-200:]),
                                      {'op': op, 'pre': pre, 'caught': caught, 'tight': tight, 'depths done': len(out and out[-1][0]['rows']) if out else 0})
                        bench.eng.kill()
                        if dead >= 3:
                            return
                        bench.start()
        # contracts which call each other without end, with paddings that shift where the stack ends
        for pad in range(0, 14):
            try:
                w, c1 = bench.world()
                bench.eng.trace = []
                r = bench.eng.invoke(w, c1, 'chain', [400, pad], limit=10 ** 12)
                fr = bench.eng.frames
                bench.session += bench.eng.trace
                ok = r.status == 1 and r.steps < 10 ** 11 and all(f.result.status == 1 for f in fr) and \
                    [f.result.steps for f in fr[:-1]] == [f.result.steps + 25000 for f in fr[1:]]
                r2 = bench.eng.invoke(w, c1, 'leaf', {'n': '0x5'})
                if not ok or r2.value != 5 or bench.eng.quiet(0.001):
                    ctx.violation('%s: contracts calling each other without end: %r, %d frames' % (what, r, len(fr)),
                                  {'pad': pad, 'results': [repr(f.result) for f in fr[-3:]]})
                ctx.traces += 1
            except FAIL as e:
                ctx.violation('%s: contracts calling each other without end: %s: %s' % (what, type(e).__name__, str(e)[-200:]), {'pad': pad})
                bench.eng.kill()
                bench.start()
        bench.eng.close()
        r = tlc.run('Stack', 'SPECIFICATION Spec\n', {'sweeps.json': json.dumps([s for s, _ in out])}, workers=4)
        ctx.tlc(r, 'stack')
        vd = {x['sweep']: x for x in r.lines}
        if len(vd) != len(out):
            raise tlc.TlcError('stack: no verdict for some sweeps\n' + tlc.tail(r.out))
        for t, x in sorted(vd.items()):
            s, how = out[t - 1]
            if x['bad']:
                rows = [q for q in s['rows'] if q['k'] in x['bad'][:2]]
                ctx.violation('%s: %s with %s frames in use: %r' % (what, s['op'], x['bad'][:3], [(q['sent'], q['status'], q['val'], q['after']) for q in rows])[:400],
                              dict(how, full=s['full'], rows=rows))
            if x['phase'] == 'room':
                ctx.count('sweeps that never ran out of stack')
        ctx.count('operations at some depth of the stack', sum(len(s['rows']) for s, _ in out))
        p = tlc.run('Protocol', 'SPECIFICATION Spec\nINVARIANT Nested\n', {'sessions.json': json.dumps([events_of(bench.session)])}, stack='512m')
        ctx.tlc(p, 'message protocol')
        for x in p.lines:
            if x['bad']:
                ctx.violation('%s: message protocol: %s' % (what, x['bad']), {})


def replicas(ctx, ops, ks):
    """The end of the stack is at the same place in every process."""
    first, order = {}, [(op, k) for op in ops for k in ks]
    with Shop() as shop:
        a, b = shop.package(SOURCE), shop.package(SOURCE)

        def cold():
            return shop.package(SOURCE)
        for n, (level, fresh, env) in enumerate((('info', None, None), ('trace', None, {'PYTHONHASHSEED': '77'}), ('error', cold, {'LANG': 'C', 'PYTHONHASHSEED': '3'}))):
            bench = Bench(shop, a, b, cold=fresh, log_level=level, env=env)
            if n:
                random.Random(n).shuffle(order)
            for op, k in order:
                try:
                    bench.run(op, k, 0, 1, 10 ** 9)
                except FAIL as e:
                    ctx.violation('replicas, stack: %s: %s' % (type(e).__name__, str(e)[-200:]), {'op': op, 'k': k, 'log_level': level})
                    bench.eng.kill()
                    return
                ctx.traces += 1
                want = first.setdefault((op, k), bench.msgs)
                if want != bench.msgs:
                    x, y = next(((x, y) for x, y in zip(bench.msgs + [None], want + [None]) if x != y), (None, None))
                    ctx.violation('a contract which does %s with %d frames in use sends different messages: %r here, %r elsewhere' % (op, k, x, y),
                                  {'op': op, 'k': k, 'log_level': level, 'cold callee': bool(fresh)})
                bench.session = []
            bench.eng.close()
    ctx.count('operations near the end of the stack, in every place', len(first))


def c01(ctx):
    sweeps(ctx, OPS, range(935, 988) if ctx.quick else range(900, 998))


def c23(ctx):
    replicas(ctx, OPS, range(957, 987) if ctx.quick else range(930, 995))
