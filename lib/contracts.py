"""Contract packages made from the declarations of spec/Contract.tla."""
import json
import os
import shutil
import tempfile

import mgr

PRELUDE = '''from iconservice import *
from typing import *
class _Bare: pass
class _Sub(int): pass
_TV = TypeVar('_TV')
class _Cy(TypedDict): x: int
class _Cz(TypedDict): x: int
class _Cv(TypedDict): x: int
class _Cw(TypedDict): x: _Cv
_Cy.__annotations__['y'], _Cz.__annotations__['y'], _Cv.__annotations__['y'] = _Cy, List[_Cz], Optional[_Cw]
def _tok(v):
    if v is None: return ['n', '']
    if isinstance(v, bool): return ['z', '1' if v else '0']
    if isinstance(v, int): return ['i', str(v)]
    if isinstance(v, str): return ['s', v]
    if isinstance(v, bytes): return ['b', v.hex()]
    if isinstance(v, Address): return ['a', str(v)]
    if isinstance(v, list): return ['l', str(v)]
    if isinstance(v, dict): return ['d', str(v)]
    return ['?', str(type(v))]
'''
DECO = {'external': '@external', 'readonly': '@external(readonly=True)', 'payable': '@payable', 'isolated': '@isolated',
        'eventlog': '@eventlog', 'eventlog1': '@eventlog(indexed=1)', 'eventlog2': '@eventlog(indexed=2)',
        'eventlog3': '@eventlog(indexed=3)', 'eventlog4': '@eventlog(indexed=4)', 'interface': '@interface'}
BADTYPES = {'dict': 'dict', 'Dict[str,int]': 'Dict[str, int]', 'float': 'float', 'Union[int,str]': 'Union[int, str]', 'object': 'object',
            'list': 'list', 'List': 'List', 'any': 'Any', 'tuple': 'Tuple[int, int]', 'class': '_Bare', 'text': "'int'",
            'None': 'None', 'set': 'Set[int]'}
ODD = ['list[int, str]', 'dict[str, int]', 'Optional[Union[int, str]]', 'Union[int, str, None]', 'type[int]', 'Callable', 'bytearray',
       'complex', 'int | str', '_Sub', 'Literal[1]', 'Final[int]', 'IconScoreBase', 'Type', '"str"', '"Optional[int]"', 'Sequence[int]',
       'Iterable[int]', '_TV', 'Optional[None]', 'InterfaceScore', 'ArrayDB', 'list[list[int, int]]', 'Dict', 'Tuple', 'range',
       'frozenset', 'Exception', 'dict[str, list]', 'list[type]', 'List[_Sub]', 'Tuple[int]', 'Dict[str, Address]', 'str | int', '_Cy', '_Cz', '_Cv', '_Cw', 'List[_Cv]']
BADTYPES.update((t, t) for t in ODD)


class Source:
    """One module of contract classes."""

    def __init__(self):
        self.structs, self.n, self.named, self.opts = [], 0, {}, 0

    def type(self, t):
        k = t[0]
        if k in ('int', 'str', 'bytes', 'bool', 'Address'):
            return k
        if k == 'ref':
            return "'Address'"
        if k == 'list':
            return 'List[%s]' % self.type(t[1])
        if k == 'opt':
            self.opts += 1
            return ('Optional[%s]', 'Union[%s, None]', 'Union[None, %s]')[self.opts % 3] % self.type(t[1])
        if k == 'bad':
            return BADTYPES[t[1]]
        if k == 'struct':
            key = json.dumps(t)
            if key in self.named:      # the same structure is the same class
                return self.named[key]
            fs = [(n, self.type(x)) for n, x in t[1]]
            self.n += 1
            name = self.named[key] = 'T%d' % self.n
            self.structs.append(self.struct(name, fs, self.n))
            return name
        raise ValueError(t)

    @staticmethod
    def struct(name, fs, n):
        """a structure, in one of the ways it can be written"""
        lines = ['    %s: %s\n' % f for f in fs]
        if n % 3 == 1 and len(fs) > 1:
            k = 1 + n % (len(fs) - 1)
            return 'class %s_(TypedDict):\n%sclass %s(%s_):\n%s' % (name, ''.join(lines[:k]), name, name, ''.join(lines[k:]))
        if n % 3 == 2 and all(f[0].isidentifier() for f in fs):
            return '%s = TypedDict(%r, {%s})\n' % (name, name, ', '.join('%r: %s' % f for f in fs))
        return 'class %s(TypedDict%s):\n%s' % (name, ', total=False' if n % 2 else '', ''.join(lines) or '    pass\n')

    @staticmethod
    def literal(v):
        k, x = v[0], v[1]
        if k == 'n':
            return 'None'
        if k == 'i':
            return x
        if k == 'z':
            return 'True' if x == '1' else 'False'
        if k == 's':
            return repr(x)
        if k == 'b':
            return repr(bytes.fromhex(x))
        if k == 'a':
            return 'Address.from_string(%r)' % x
        if k in 'ldf':
            return x
        raise ValueError(v)

    def member(self, m):
        out = ''.join('    %s\n' % DECO[d] for d in m['d'])
        ps, star = ['self'], False
        for p in m['ps']:
            n, t = p[0], p[1]
            if t[0] == 'var':
                if t[1] == 'kwonly':
                    ps += [] if star else ['*']
                    ps.append(n + ': int')
                elif t[1] == 'posonly':
                    ps += [n + ': int', '/']
                else:
                    ps.append({'args': '*', 'kwargs': '**'}[t[1]] + n)
                continue
            s = n if t[0] == 'none' else '%s: %s' % (n, self.type(t))
            if p[2][0] != 'no':
                s += ' = ' + self.literal(p[2])
            ps.append(s)
        ret = '' if m['r'][0] == 'none' else ' -> ' + self.type(m['r'])
        names = ', '.join('_tok(%s)' % p[0] for p in m['ps'] if p[1][0] != 'var')
        out += '    def %s(%s)%s:\n        return [%r, [%s]]\n' % (m['n'], ', '.join(ps), ret, m['n'], names)
        return out

    def classes(self, layers, prefix=''):
        """Source text of the chain of classes; the last is <prefix>S."""
        out, base = [], 'IconScoreBase'
        for i, ms in enumerate(layers):
            name = prefix + ('S' if i == len(layers) - 1 else 'B%d' % i)
            body = ''.join(self.member(m) for m in ms)
            out.append('class %s(%s):\n    def __init__(self, db):\n        super().__init__(db)\n%s' % (name, base, body))
            base = name
        return '\n'.join(self.structs) + '\n' + '\n'.join(out)


def method(n, d=(), ps=(), r=('none',)):
    return {'n': n, 'd': list(d), 'ps': [list(p) for p in ps], 'r': list(r)}


INIT = [method('on_install'), method('on_update')]


class Shop:
    """A directory of packages and an engine that loads them."""

    def __init__(self, verify=False, timeout=60, log_level='error', env=None):
        self.dir = tempfile.mkdtemp(prefix='shop.')
        self.kw = dict(verify=verify, timeout=timeout, log_level=log_level, env=env)
        self.n = 0
        self.eng = None
        self.start()

    def start(self):
        if self.eng is not None:
            self.eng.kill()
        self.eng = mgr.Engine(scratch=self.dir, **self.kw)
        self.world = mgr.World()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.eng.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def package(self, text, files=None, info=None, name=None):
        """A new package directory; its path."""
        self.n += 1
        # names as nodes give them: alike, but for a few digits at either end
        own = '%06x' % self.n
        d = os.path.join(self.dir, name or ('0x' + own + 'ab' * 29 if self.n % 2 else '0x' + 'ab' * 29 + own))
        os.makedirs(d)
        allf = {'__init__.py': '', 'main.py': text,
                'package.json': json.dumps({'version': '1.0', 'main_module': 'main', 'main_score': 'S'} if info is None else info, ensure_ascii=False)}
        allf.update(files or {})
        for f, t in allf.items():
            if t is None:
                continue
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(t.encode() if isinstance(t, str) else t)
        return d

    def drop(self, path):
        shutil.rmtree(path, ignore_errors=True)

    def api(self, path):
        """[status, list or None] as the engine answers, texts decoded."""
        self.eng.trace = []
        return clean(self.eng.getapi(path))

    def call(self, path, m, params, value=0, readonly=False, to=None, limit=1_000_000_000):
        to = to or mgr.cx(self.n)
        self.eng.trace = []
        return self.eng.invoke(self.world, to, m, params, value=value, limit=limit, readonly=readonly, code=path)


def clean(x):
    """keys and names as text; encoded defaults as hexadecimal text"""
    if isinstance(x, (list, tuple)):
        return [clean(y) for y in x]
    return x


def api_of(data):
    """The engine's API answer as the specification writes it."""
    def inputs(ps, hexdef=True):
        return [[p[0].decode(), p[1], 'null' if p[2] is None else p[2].hex()] + ([inputs(p[3])] if len(p) > 3 else []) for p in ps]
    return [[e[0], e[1].decode(), e[2], e[3], inputs(e[4]), list(e[5])] for e in data]


def wire(v):
    """argument of the specification -> value put on the wire"""
    k, x = v[0], v[1]
    if k == 't':
        return ''.join(x)
    if k == 'n':
        return None
    if k == 'i':
        return int(x)
    if k == 'z':
        return x == '1'
    if k == 's':
        return x
    if k == 'b':
        return bytes.fromhex(x)
    if k == 'a':
        return mgr.Address(x)
    if k in 'ld':
        import ast
        return ast.literal_eval(x)
    raise ValueError(v)


def params(c):
    if c['kind'] == 'list':
        return [wire(a) for a in c['a']]
    return {n: wire(a) for n, a in c['a']}
