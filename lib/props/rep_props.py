"""Agreement of nodes (Replicas.tla)."""
import json
import os
import random
import shutil
import tempfile

import mgr
import tlc
import gen
from contracts import Shop, Source, api_of, method, INIT
from machine import Rig, key_of, run_program
from . import decl_props as dp

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)
# what may differ between nodes
PLACES = [dict(env={'PYTHONHASHSEED': '0'}, log_level='error'),
          dict(env={'PYTHONHASHSEED': '1', 'LANG': 'C', 'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, log_level='debug'),
          dict(env={'PYTHONHASHSEED': '4242', 'TZ': 'Asia/Seoul', 'LANG': 'tr_TR.UTF-8'}, log_level='trace')]

REPLICA = '''from iconservice import *
class Peer(InterfaceScore):
    @interface
    def put(self, v: int): pass
    @interface
    def bad(self, v: int): pass
class Sé(IconScoreBase):
    @eventlog(indexed=1)
    def Put(self, v: int, n: int): pass
    def __init__(self, db):
        super().__init__(db)
        self.arr = ArrayDB('arr', db, int)
        self.ups = VarDB('ups', db, int)
        self.seen = DictDB('seen', db, str)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
        self.ups.set(self.ups.get() + 1)
    @external
    def put(self, v: int) -> int:
        self.arr.put(v + %d)
        self.seen['v%%d' %% v] = str(self.arr[-1])
        self.Put(v, len(self.arr))
        return [len(self.arr)]
    @external
    def take(self):
        if not self.arr:
            revert('empty', 7)
        return [self.arr.pop()]
    @external(readonly=True)
    def sum(self) -> list:
        return [self.ups.get()] + [x for x in self.arr]
    @external
    def bad(self, v: int):
        self.put(v)
        self.take()
        revert('no ' + str(v), 3)
    @external
    def other(self, to: Address, v: int):
        n = self.create_interface_score(to, Peer).put(v)
        return n + self.put(v)
    @external
    def catch(self, to: Address, v: int):
        try:
            self.create_interface_score(to, Peer).bad(v)
        except BaseException as e:
            return [int(e.code)] + self.put(35)
'''.replace(' -> list', ' -> List[int]').replace('import *\n', 'import *\nfrom typing import List\n', 1)


class Node:
    """One engine and the storage its node keeps."""

    def __init__(self, run, place):
        self.run, self.place, self.eng = run, place, None
        self.start()

    def start(self):
        if self.eng is not None:
            self.eng.close()
        env = dict(self.place['env'], PYTHONPYCACHEPREFIX=os.path.join(self.run.dir, 'pyc'))
        self.eng = mgr.Engine(scratch=self.run.dir, timeout=60, env=env, log_level=self.place['log_level'])

    def reset(self):
        w = self.world = mgr.World(dict(schema=1, get=1, getBase=2, set=3, setBase=11, delete=-2, deleteBase=1, log=1, logBase=3, contractCall=5), 256)
        for c in ('c1', 'c2'):
            w.code[self.run.ad[c].b] = self.run.shop_paths[0]
            w.ro_methods[self.run.ad[c].b] = ('sum',)

    def do(self, t, query=False):
        """one transaction; (outcome, messages of the engine)"""
        what, c, d, v = t
        ad, w = self.run.ad, self.world
        args = {'put': {'v': str(v)}, 'bad': [v], 'other': [ad.get(d), v], 'catch': [ad.get(d), v], 'dear': {'v': hex(v)}}.get(what, [])
        code = w.code[ad[c].b]
        if what == 'upgrade':
            code = self.run.shop_paths[1 - self.run.shop_paths.index(code)]
            w.code[ad[c].b], old = code, w.code[ad[c].b]
        snap = w.snapshot()
        self.eng.trace = []
        r = self.eng.invoke(w, ad[c], {'dear': 'put', 'upgrade': 'on_update'}.get(what, what), args, code=code, limit=40 if what == 'dear' else 10 ** 6)
        msgs = [(m, d) for x, m, d in self.eng.trace if x == '<' and m != mgr.LOG]
        if query:
            w.restore(snap)
            if what == 'upgrade':
                w.code[ad[c].b] = old
        return [r.status, list(r.value) if r.status == 0 and r.value is not None else []], msgs


class Run:
    def __init__(self, ctx, shop):
        self.ctx, self.dir = ctx, shop.dir
        self.shop_paths = [shop.package(REPLICA % n, info={'version': '1.0é', 'main_module': 'main', 'main_score': 'Sé'}) for n in (0, 100)]
        self.apis = self.shop_paths + [shop.package('import nothing\n'), os.path.join(shop.dir, 'gone')]
        self.ad = {'c1': mgr.cx(0xc1), 'c2': mgr.cx(0xc2)}
        self.nodes = [Node(self, p) for p in PLACES]
        self.first, self.api0 = {}, {}

    def close(self):
        for n in self.nodes:
            n.eng.close()

    def replay(self, x, word, i):
        ctx, n = self.ctx, self.nodes[i % len(self.nodes)]
        n.reset()
        done = 0
        ctx.traces += 1
        for act, out in x['sched']:
            try:
                if act[0] == 'restart':
                    n.start()
                    continue
                if act[0] == 'api':
                    n.eng.trace = []
                    got = repr(n.eng.getapi(self.apis[act[1]]))
                    want = self.api0.setdefault(act[1], got)
                    if got != want:
                        ctx.violation('the API of a contract differs from node to node: %s and %s' % (got[:200], want[:200]), {'schedule': x, 'place': n.place})
                    continue
                if act[0] == 'query':
                    got, _ = n.do(act[1], True)
                    msgs = key = None
                else:
                    done += 1
                    key = json.dumps(word[:done])
                    got, msgs = n.do(word[done - 1])
            except FAIL as e:
                ctx.violation('replicas: %s: %s' % (type(e).__name__, e), {'word': word, 'schedule': x, 'place': n.place})
                n.start()
                return
            if got != out:
                ctx.violation('%s gives %s, specified %s' % (act if act[0] == 'query' else word[done - 1], got, out), {'word': word, 'schedule': x, 'place': n.place})
                return
            if key is not None:
                want = self.first.setdefault(key, msgs)
                if want != msgs:
                    a, b = next(((a, b) for a, b in zip(msgs + [None], want + [None]) if a != b), (None, None))
                    ctx.violation('nodes which executed the same transactions sent different messages: %r here, %r elsewhere' % (a, b),
                                  {'word': word, 'schedule': x, 'place': n.place, 'here': repr(msgs), 'elsewhere': repr(want)})
                    return


def words(rnd, n, length):
    out = []
    while len(out) < n:
        w = []
        for _ in range(length):
            c = rnd.choice(['c1', 'c2'])
            w.append([rnd.choice(['put', 'put', 'take', 'sum', 'bad', 'other', 'other', 'catch', 'dear', 'upgrade', 'upgrade']),
                      c, rnd.choice(['c1', 'c2']), rnd.choice([0, 1, -1, 127, 200, -40000])])
        out.append(w)
    return out


def c23(ctx):
    rnd = ctx.rng
    shop = Shop()
    with shop:
        run = Run(ctx, shop)
        try:
            ws = words(rnd, ctx.scale(6, 40), 4)
            loc = [['query', ['put', 'c1', '', 5]], ['query', ['upgrade', 'c1', '', 0]], ['query', ['catch', 'c2', 'c1', 9]], ['query', ['dear', 'c2', '', 1]],
                   ['query', ['other', 'c1', 'c2', 3]], ['api', 0], ['api', 1], ['api', 2], ['api', 3]]
            i = 0
            for locs, budget, part in ((loc, 2, ws), (loc[:2] + [['restart']], ctx.scale(1, 2), ws[:ctx.scale(3, 6)])):
                r = tlc.run('ReplicasEnum', 'SPECIFICATION Spec\nINVARIANT Agreement\n', {'replicas.json': json.dumps({'words': part, 'locals': locs, 'budget': budget})})
                if r.violated:
                    raise tlc.TlcError('replicas: %s does not hold of the specification' % r.violated)
                ctx.tlc(r, 'schedules of a node')
                ctx.count('schedules of a node', len(r.lines))
                ctx.sample({'word': part[r.lines[-1]['w'] - 1], 'schedule': r.lines[-1]['sched']})
                rnd.shuffle(r.lines)
                for x in r.lines:
                    run.replay(x, part[x['w'] - 1], i)
                    i += 1
        finally:
            run.close()
    texts(ctx, ctx.scale(150, 3000))
    programs(ctx, ctx.scale(150, 1500))
    declarations(ctx)
    ctx.exhaustive = True
    ctx.assumptions.append('contracts which themselves depend on the order of sets, object identities, or what they keep in modules and classes are outside')


def programs(ctx, n):
    """The same programs of the interpreter contract, in other orders, in different places."""
    progs = [gen.Gen(ctx.rng).prog() for _ in range(n)]
    first = {}
    for k, place in enumerate(PLACES):
        order = list(range(n))
        if k:
            random.Random(k).shuffle(order)
        with Rig(env=place['env'], log_level=place['log_level'], timeout=60) as rig:
            for i in order:
                rig.session = ses = []
                try:
                    run_program(rig, progs[i])
                except FAIL + (ValueError, KeyError, IndexError, TypeError, AttributeError, UnicodeDecodeError) as e:
                    ctx.violation('replicas: %s: %s' % (type(e).__name__, e), {'program': progs[i], 'place': place})
                    rig.start()
                    continue
                msgs = [(m, repr(d)) for x, m, d in ses if x == '<' and m != mgr.LOG]
                ctx.traces += 1
                want = first.setdefault(i, msgs)
                if want != msgs:
                    a, b = next(((a, b) for a, b in zip(msgs + [None], want + [None]) if a != b), (None, None))
                    ctx.violation('the same program sends different messages: %r here, %r elsewhere' % (a, b), {'program': progs[i], 'place': place})
    ctx.count('programs run in every place', n)


def declarations(ctx):
    """APIs, byte for byte and in order."""
    rnd = ctx.rng
    P, V = dp.P, dp.V
    types = [['int'], ['str'], ['bytes'], ['bool'], ['Address'], ['ref'], ['list', ['int']], ['struct', [['x', ['int']], ['y', ['list', ['struct', [['z', ['bool']], ['w', ['str']]]]]]]],
             ['opt', ['int']], ['bad', 'float'], ['bad', 'Union[int,str]']]
    texts = []
    for i in range(ctx.scale(60, 400)):
        layers = [list(INIT), []]
        names = rnd.sample(['transfer', 'balanceOf', 'a', 'b', 'zeta', 'Event', 'Other', 'x1', 'x2', 'mint', 'burn', 'fallback'], rnd.randrange(1, 9))
        for nm in names:
            d = rnd.choice([['external'], ['readonly'], ['external', 'payable'], ['payable'], ['eventlog'], ['eventlog1'], ['external', 'isolated'], []])
            ps = [P(p, rnd.choice(types if i % 4 == 0 else types[:9])) for p in rnd.sample(['p', 'q', 'r', 's'], rnd.randrange(0, 4))]
            layers[rnd.randrange(2)].append(method(nm, d if nm != 'fallback' else ['payable'], ps if nm != 'fallback' else []))
        src = Source()
        body = src.classes(layers)
        texts.append(body)
    from contracts import PRELUDE
    first = {}
    with Shop() as shop:
        paths = [shop.package(PRELUDE + t) for t in texts]
        for k, place in enumerate(PLACES):
            eng = mgr.Engine(scratch=shop.dir, timeout=60, env=place['env'], log_level=place['log_level'])
            order = list(range(len(paths)))
            random.Random(k).shuffle(order)
            for i in order:
                try:
                    got = repr(eng.getapi(paths[i]))
                except FAIL as e:
                    ctx.violation('replicas: %s: %s' % (type(e).__name__, e), {'contract': texts[i], 'place': place})
                    eng.kill()
                    eng = mgr.Engine(scratch=shop.dir, timeout=60, env=place['env'], log_level=place['log_level'])
                    continue
                ctx.traces += 1
                if first.setdefault(i, got) != got:
                    ctx.violation('the API differs from node to node: %s here, %s elsewhere' % (got[:200], first[i][:200]), {'contract': texts[i], 'place': place})
            eng.close()
    ctx.count('APIs asked in every place', len(texts))


TEXTS = '''from iconservice import *
class Txt:
    def __init__(self, s): self.s = s
    def __str__(self):
        self.s.x.set(self.s.x.get() + 1)
        return 'o'
    __repr__ = __str__
    def __format__(self, f):
        return str(self)
class Sub(str):
    s = None
    def __str__(self):
        self.s.x.set(self.s.x.get() + 1)
        return 'o'
    __repr__ = __str__
    def __format__(self, f):
        return str(self)
class Own(Exception):
    s = None
    def __str__(self):
        self.s.x.set(self.s.x.get() + 1)
        return 'o'
class Leaf(InterfaceScore):
    @interface
    def leaf(self, n: int): pass
class S(IconScoreBase):
    @eventlog
    def E(self, a: int): pass
    @eventlog
    def F(self, a: str): pass
    def __init__(self, db):
        super().__init__(db)
        self.x = VarDB('x', db, int)
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    def val(self, k):
        if k == 'sub':
            r = Sub('a')
            r.s = self
            return r
        return {'obj': Txt(self), 'big': 10 ** 5000, 'plain': 'p', 'list': [Txt(self)], 'dict': {'a': Txt(self)}}[k]
    @payable
    def fallback(self): pass
    @external
    def leaf(self, n: int):
        return n %% 3
    @external
    def own(self):
        e = Own('z')
        e.s = self
        raise e
    @external(readonly=True)
    def dflt(self, n: int = 10 ** 5000):
        return n %% 3
    @payable
    @external
    def go(self, prog: str):
        ret = None
        for o, k, g in json_loads(prog):
            try:
                r = self.do(o, self.val(k))
            except BaseException:
                if not g:
                    raise
            else:
                ret = r if o in ('ret', 'pos') else ret
        return ret
    def do(self, o, v):
        if o in ('debug', 'info', 'warning', 'error', 'exception'):
            getattr(Logger, o)(v)
        elif o == 'tag':
            Logger.info('a', v)
        elif o == 'raise':
            raise Exception(v)
        elif o == 'own':
            self.own()
        elif o == 'caught':
            try:
                self.own()
            except Own:
                Logger.exception('t')
        elif o == 'score':
            raise IconScoreException(v)
        elif o == 'revert':
            revert(v)
        elif o == 'ret':
            return v
        elif o == 'pos':
            return self.create_interface_score(self.address, Leaf).leaf(v)
        elif o == 'amount':
            self.icx.transfer(self.address, v)
        elif o == 'nested':
            self.call(self.address, 'own', {})
        elif o == 'ev':
            self.E(v)
        elif o == 'evs':
            self.F(v)
        elif o == 'key':
            DictDB('d', self.db, int)[v] = 1
        elif o == 'json':
            json_dumps(v)
        elif o == 'fee':
            self.set_fee_sharing_proportion(v)
        elif o == 'hash':
            sha3_256(v)
        elif o == 'bal':
            self.icx.get_balance(self.address)
'''.replace('%%', '%')
T_OPS = ['debug', 'info', 'warning', 'error', 'exception', 'tag', 'raise', 'own', 'caught', 'score', 'revert', 'ret', 'pos', 'amount',
         'nested', 'ev', 'evs', 'key', 'json', 'fee', 'hash', 'bal']
T_KINDS = ['obj', 'sub', 'list', 'dict', 'big', 'plain']
LEVELS = ['error', 'warn', 'info', 'debug', 'trace']


def texts(ctx, n):
    """Values whose text is made by the contract, at every log level."""
    rnd = ctx.rng
    words = [[[rnd.choice(T_OPS), rnd.choice(T_KINDS), rnd.random() < .7] for _ in range(rnd.randint(2, 4))] for _ in range(n)]
    r = tlc.run('TextsEnum', 'SPECIFICATION Spec\nINVARIANT Agreement\n', {'texts.json': json.dumps({'ops': T_OPS, 'kinds': T_KINDS, 'words': words})})
    if r.violated:
        raise tlc.TlcError('texts: %s does not hold of the specification' % r.violated)
    ctx.tlc(r, 'texts of values')
    ctx.count('programs with texts of their own', len(r.lines))
    first = {}
    big = 10 ** 5000
    with Shop() as shop:
        path = shop.package(TEXTS)
        c = mgr.cx(0xc1)
        for level in LEVELS:
            eng = mgr.Engine(scratch=shop.dir, timeout=60, log_level=level)
            try:
                for i, x in enumerate(r.lines):
                    w = mgr.World(dict(schema=1, get=1, getBase=2, set=3, setBase=11, delete=-2, deleteBase=1, log=1, logBase=3, apiCall=20, contractCall=5), 256)
                    w.code[c.b], w.balance[c.b] = path, 3 * big
                    if i % 3 == 0:
                        w.tx = dict(w.tx, nonce=big, timestamp=i)
                    w.block = (i, i * 7)
                    eng.trace = []
                    try:
                        f = eng.invoke(w, c, 'go', [json.dumps(x['p'])], value=big if i % 5 == 0 else 0, limit=10 ** 6)
                    except FAIL as e:
                        ctx.violation('values with texts of their own, log level %s: %s: %s' % (level, type(e).__name__, e), {'program': x, 'level': level})
                        eng.kill()
                        eng = mgr.Engine(scratch=shop.dir, timeout=60, log_level=level)
                        continue
                    ctx.traces += 1
                    own = mgr.dec_int(w.of(c).get(key_of('V/x'), b''))
                    vals = {'none': None, 'sub': 'a', 'plain': 'p', 'big': big, 'one': 1}
                    o = x['out']
                    if (f.status != o['status'] and o['status'] != -1) or (o['status'] == -1 and f.status == 0) or own != o['x'] or \
                            (o['status'] == 0 and f.value != vals[o['ret']]):
                        ctx.violation('values with texts of their own, log level %s: %s gives status %s, value %.40r, texts %s; specified %s' % (
                            level, x['p'], f.status, f.value if not isinstance(f.value, int) else 'int', own, o), {'program': x, 'level': level})
                    msgs = [(m, d) for y, m, d in eng.trace if y == '<' and m != mgr.LOG]
                    want = first.setdefault(i, msgs)
                    if msgs != want:
                        ctx.violation('log level %s: %s sends %d messages, %d elsewhere, or others' % (level, x['p'], len(msgs), len(want)), {'program': x, 'level': level})
                got = repr(eng.getapi(path))
                if first.setdefault('api', got) != got:
                    ctx.violation('log level %s: another API' % level, {'here': got[:500], 'elsewhere': first['api'][:500]})
            except mgr.EngineDied as e:
                ctx.violation('log level %s: %s' % (level, e), {'level': level})
            finally:
                eng.close()
