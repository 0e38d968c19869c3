"""Checks of the package check and of loading (Validator.tla, Loader.tla)."""
import json
import os
import py_compile
import tempfile

import mgr
import tlc
from contracts import Shop

FAIL = (mgr.EngineDied, mgr.EngineSilent, mgr.ProtocolError)

BODY = '''
_yes = True
class _O: pass
_o = _O()
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    def go(self, a: int):
        return a + 1
'''
LIBS = {'star': 'from iconservice import *\n',
        'plain': 'import iconservice\nIconScoreBase = iconservice.IconScoreBase\nexternal = iconservice.external\n',
        'alias': 'import iconservice as lib\nIconScoreBase, external = lib.IconScoreBase, lib.external\n'}

# statement templates: where a statement can be nested (@ the statement, # the padding)
NEST = {
    'module': '#@\n',
    'if': 'if _yes:\n    #    @\n', 'else': 'if not _yes:\n    pass\nelse:\n    #    @\n',
    'try': 'try:\n    #    @\nexcept ValueError:\n    pass\n',
    'except': 'try:\n    _o.none\nexcept AttributeError:\n    #    @\n',
    'finally': 'try:\n    pass\nfinally:\n    #    @\n',
    'for': 'for _i in [0]:\n    #    @\n', 'while': 'while _yes:\n    #    @\n    break\n',
    'with': 'class _W:\n    def __enter__(s): pass\n    def __exit__(s, *a): pass\nwith _W():\n    #    @\n',
    'function': 'def _f():\n    #    @\n', 'function2': 'def _f():\n    def _g():\n        #        @\n    return _g\n',
    'cell': 'def _f(_c=1):\n    #    @\n    return lambda: _c\n', 'closure': 'def _f(_c=1):\n    def _g():\n        #        @\n        return _c\n    return _g\n',
    'match': 'match _yes:\n    case True:\n        #        @\n    case _:\n        pass\n', 'generic': 'def _f[_T](a: _T):\n    #    @\n',
    'generic class': 'class _C[_T]:\n    def m(self):\n        #        @\n',
    'generator': 'def _f():\n    #    @\n    yield 1\n', 'coroutine': 'async def _f():\n    #    @\n',
    'class': 'class _C:\n    #    @\n', 'method': 'class _C:\n    def m(self):\n        #        @\n',
    'static': 'class _C:\n    class D:\n        @staticmethod\n        def m():\n            def g():\n                #                @\n            return g\n'.replace('@s', '\1s'),
    'deep': 'def _f():\n    for _j in [0]:\n        try:\n            class _K:\n                def m(self):\n                    if _yes:\n                        #                        @\n        finally:\n            pass\n',
}
GLOBAL = {'module', 'if', 'else', 'try', 'except', 'finally', 'for', 'while', 'with'}
# expression templates (@ the expression)
EXPR = {
    'lambda': '_v = lambda: @', 'lambda2': '_v = lambda a: [lambda b: (a, @)]', 'list': '_v = [@ for _i in []]', 'dict': '_v = {1: @ for _i in []}',
    'generator': '_v = (@ for _i in [])', 'condition': '_v = [1 for _i in [] if @]', 'default': 'def _f(a=@): pass', 'default of lambda': '_v = lambda a=@: a',
    'annotation': 'def _f(a: @): pass', 'base': 'class _C:\n    x = lambda s: (@, s)', 'text': '_v = f"{@}"', 'if': '_v = @ if not _yes else 1',
    'argument': '_v = [].extend([*[], @][:0])', 'named': '_v = dict(a=@)', 'walrus': '_v = (w := @)', 'index': '_v = {@: 1}', 'assert': 'assert @ or True',
    'decorator': 'def _f(a):\n    @(lambda f: (@, f))\n    def g(): pass\n'.replace('    @(', '    \1('), 'nested': 'def _f():\n    class C:\n        def m(self):\n            return [lambda: {@} for _ in [1]]',
    'method default': 'class _C:\n    def m(self, a=lambda: @): pass', 'call': 'def _f(): return @("1")', 'or': '_v = lambda: 0 or @', 'global': 'def _f():\n    global _gg\n    _gg = @',
    'closure': 'def _f(_c=1):\n    def _g():\n        return _c, @\n    return _g', 'cell': 'def _f(_c=1):\n    return lambda: _c, @', 'alias': 'type _v = list[@]',
    'bound': 'def _f[_T: @](): pass', 'generic': 'class _C[_T]:\n    def m(self): return @', 'case': 'match 1:\n    case _i if [_yes, @]: pass',
    'set': '_v = {@ for _i in []}', 'star': 'def _f(a, *b): return a(*b, **{"a": @})', 'await': 'async def _f(): return [await @ async for _i in _o]',
    'keyword default': 'class _C:\n    def m(self, *, a=lambda: @): pass',
}


def pad(n, inside, indent):
    if not n:
        return ''
    if inside:
        ls = ['_o.a%d = %d' % (i, 1000 + i) for i in range(n)]
    else:
        ls = ['z%d = %d' % (i, 1000 + i) for i in range(n)]
    return ('\n' + indent).join(ls) + '\n' + indent


def nested(st, nest, n=0):
    out = []
    for ln in NEST[nest].replace('\1', '~').split('\n'):
        i = ln.find('#')
        if i >= 0:
            ind = ln[:i]
            out.append(ind + pad(n, nest not in GLOBAL and nest != 'class', ind) + st)
        else:
            out.append(ln)
    return '\n'.join(out).replace('~', '@')


def expr(e, where):
    return EXPR[where].replace('@', e).replace('\1', '@') + '\n'


class Checked:
    """A package check in the running engine; `mark` tells which files ran."""

    def __init__(self, ctx, verify=True):
        self.ctx, self.shop = ctx, Shop(verify=verify)
        self.verify = verify
        self.mark = os.path.join(self.shop.dir, 'ran')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shop.__exit__(*a)

    def files(self, pkg):
        """texts of the files of a package of the specification"""
        out = {}
        for f in pkg:
            kind, path = f['at']
            if path not in out:
                first = 'open(%r, "a").write(%r)\n' % (self.mark, path + ' ')
                if path == 'main.py':
                    out[path] = [kind, LIBS['star'] + first, BODY]
                elif path in ('helper.py', 'sub/x.py'):
                    out[path] = [kind, first + 'h = 1\n_yes = True\nclass _O: pass\n_o = _O()\n', '']
                else:
                    out[path] = [kind, first + '_yes = True\nclass _O: pass\n_o = _O()\n', '']
            if f.get('lib'):
                out[path][1] = LIBS[f['lib']] + out[path][1].replace(LIBS['star'], '')
            if f.get('early'):
                out[path][1] += '_yes = True\nclass _O: pass\n_o = _O()\n' + f['text']
            else:
                out[path][2] += f['text']
        return {p: (k, a + b) for p, (k, a, b) in out.items()}

    def deploy(self, pkg):
        fs = {}
        for p, (kind, text) in self.files(pkg).items():
            if kind == 'compiled':
                d = tempfile.mkdtemp(prefix='pyc.')
                try:
                    with open(os.path.join(d, 'm.py'), 'w') as fh:
                        fh.write(text)
                    fs[p] = open(py_compile.compile(os.path.join(d, 'm.py'), os.path.join(d, 'm.pyc'), doraise=True), 'rb').read()
                finally:
                    for x in os.listdir(d):
                        os.unlink(os.path.join(d, x))
                    os.rmdir(d)
            elif kind == 'native':
                fs[p] = b'\x7fELF not a module'
            else:
                fs[p] = text
        fs.setdefault('main.py', None)
        return self.shop.package(fs.pop('main.py'), files=fs)

    def run(self, pkg, ok, what):
        ctx, path, text = self.ctx, self.deploy(pkg), None
        try:
            text = {p: t for p, (k, t) in self.files(pkg).items()}
            if os.path.exists(self.mark):
                os.unlink(self.mark)
            a = self.shop.api(path)
            ran = open(self.mark).read() if os.path.exists(self.mark) else ''
            b = self.shop.api(path)
            note = {'files': text, 'answer': repr(a)}
            if not ok:
                if a[0] == 0 or a[1] is not None or b[0] == 0 or b[1] is not None:
                    ctx.violation('%s: to be refused, but the engine answers %r, then %r' % (what, a, b), note)
                elif ran:
                    ctx.violation('%s: refused, but %s was executed' % (what, ran), note)
            else:
                if a[0] != 0 or b[0] != 0:
                    ctx.violation('%s: refuses nothing forbidden, but refused: %r, then %r' % (what, a, b), note)
                elif not any(e[1] == b'go' for e in a[1]) or a != b:
                    ctx.violation('%s: accepted with a different interface: %r, then %r' % (what, a, b), note)
                elif 'main.py' not in ran:
                    ctx.violation('%s: accepted, but not loaded' % what, note)
                else:
                    r = self.shop.call(path, 'go', [41])
                    if r.status != 0 or r.value != 42:
                        ctx.violation('%s: accepted, but an invocation gives %r' % (what, r), note)
        except FAIL as e:
            ctx.violation('%s: %s: %s' % (what, type(e).__name__, e), {'files': text})
            self.shop.start()
        ctx.traces += 1
        self.shop.drop(path)


def enumerate_packages(ctx, slots, what):
    light = [[[{'at': f['at'], 'ss': f['ss']} for f in o] for o in s] for s in slots]
    r = tlc.run('ValidatorEnum', 'SPECIFICATION Spec\nINVARIANT Contained\nINVARIANT Decided\n',
                {'packages.json': json.dumps({'slots': light})}, heap='8g')
    if r.violated:
        raise tlc.TlcError('%s: %s does not hold of the specification' % (what, r.violated))
    ctx.tlc(r, what)
    want = 1
    for s in slots:
        want *= len(s)
    if len(r.lines) != want:
        raise tlc.TlcError('%s: incomplete enumeration' % what)
    return sorted((tuple(x['p']), x['ok']) for x in r.lines)


def replay_packages(ctx, slots, what):
    cases = enumerate_packages(ctx, slots, what)
    with Checked(ctx) as c:
        for pick, ok in cases:
            pkg = [f for s, i in zip(slots, pick) for f in s[i - 1]]
            c.run(pkg, ok, what)
            ctx.count('packages %s' % ('accepted' if ok else 'refused'))
    ctx.sample({'packages': what, 'files': [[f['at'][1], f['ss']] for f in pkg], 'accepted': ok})


def F(path, *sts, kind='source', **kw):
    """a file with statements (specification, text)"""
    return dict(at=[kind, path], ss=[s for s, _ in sts], text=''.join(t + ('' if t.endswith('\n') else '\n') for _, t in sts), **kw)


MAIN, HELPER, SUB = F('main.py'), F('helper.py'), F('sub/x.py')
FORBIDDEN = ['exec', 'eval', 'compile', '__import__']
IMPORTS = [(['import', 'os'], 'import os'), (['import', 'os.path'], 'import os.path as p'), (['import', 'json'], 'from json import dumps'),
           (['import', 'main'], 'import main'), (['import', 'pyexec'], 'import pyexec'), (['import', 'pyexec.base.address'], 'from pyexec.base.address import Address'),
           (['import', 'builtins'], 'import builtins'), (['import', 'sys'], 'import sys as lib'), (['import', 'icon'], 'import icon'),
           (['import', 'service'], 'from service import a'), (['import', 'iconservice2'], 'import iconservice2'), (['import', 'typing'], 'from typing import List'),
           (['import', 'importlib'], 'import importlib'), (['import', 'sub.x'], 'from sub.x import h'), (['import', 'math'], 'from math import sqrt as iconservice'),
           (['import', 'functools'], 'import functools')]
GOODIMP = [(['import', 'iconservice'], 'import iconservice'), (['import', 'iconservice'], 'import iconservice as q'), (['own', 1, 'helper'], 'from . import helper'),
           (['own', 1, 'helper'], 'from .helper import h'), (['own', 1, 'helper'], 'from .helper import h as q, h as r'), (['own', 1, 'sub'], 'from .sub import x'),
           (['own', 1, 'sub.x'], 'from .sub.x import h')]
STARS = [(['star', 'os'], 'from os import *'), (['star', 'pyexec'], 'from pyexec.base.address import *'), (['star', 'iconservice'], 'from iconservice import *'),
         (['own', 1, 'helper'], 'from .helper import *'), (['own', 1, 'sub.x'], 'from .sub.x import *')]


def two(a, b, text):
    """one statement importing two modules"""
    return [(a, ''), (b, text)]


def c18(ctx):
    import itertools
    deep = not ctx.quick
    # forms of import at every nesting of the main module
    opts = []
    for nest in NEST:
        for i, (s, t) in enumerate(IMPORTS + GOODIMP):
            for n in ((0, 300) if i in (0, 2, len(IMPORTS), len(IMPORTS) + 3) or deep else (0,)):
                opts.append([F('main.py', (s, nested(t, nest, n)))])
        if nest in GLOBAL:
            opts += [[F('main.py', (s, nested(t, nest, n)))] for s, t in STARS for n in ((0, 300) if deep or s[1] != 1 else (0,))]
    replay_packages(ctx, [[[MAIN, HELPER, SUB]], opts], 'imports')
    near = ['iconservice_x', 'iconservices', 'Iconservice', 'xiconservice', 'iconservice.x', 'iconservice.iconservice', '_iconservice', 'i', 'con', 'ice',
            'iconservic', 'iconservice__init__', 'iconservice.__init__', 'iconserviceiconservice', 'helper', 'sub', 'package', 'S', 'iconservice_']
    opts = [[F('main.py', (['import', n], nested(t % n, nest)))] for n in near for nest in ('module', 'method', 'closure')
            for t in ('import %s', 'import %s as q', 'from %s import a')]
    replay_packages(ctx, [[[MAIN, HELPER, SUB]], opts], 'names near those allowed')
    # more than one module in a statement, and several statements
    ok, bad = ['import', 'iconservice'], ['import', 'os']
    multi = [[F('main.py', *two(a, b, nested(t, nest)))] for nest in ('module', 'function', 'method')
             for a, b, t in ((ok, bad, 'import iconservice, os'), (bad, ok, 'import os, iconservice'), (ok, ok, 'import iconservice as a, iconservice as b'))]
    multi += [[F('main.py', (ok, 'import iconservice'), (bad, nested('import os', n)))] for n in NEST]
    multi += [[F('main.py', lib=l)] for l in LIBS] + [[F('main.py', (bad, 'import os'), lib=l)] for l in LIBS]
    multi += [[F('main.py', (['import', 'os'], 'import os'), early=True)], [F('main.py', (['name', 'eval'], 'eval'), early=True)]]
    multi += [[F('main.py', (['word', 'pad'], pad(n, False, '')), (ok, 'import iconservice as q'), (['own', 1, 'helper'], 'from .helper import h as r'), early=True)] for n in (200, 250, 253, 254, 255, 256, 257, 300, 700)]
    multi += [[F('main.py', (['word', 'pad'], pad(n, False, '')), (bad, 'from os import path'), early=True)] for n in (200, 250, 253, 254, 255, 256, 257, 300, 700)]
    multi += [[F('main.py', (['word', 'pad'], 'def _p():\n    %s\n' % pad(n, True, '    ')), (s, 'def _p2():\n    %simport %s as k\n' % (pad(n, True, '    '), s[1])))]
              for n in (253, 255, 256, 257, 70000 if deep else 600) for s in (ok, bad)]
    replay_packages(ctx, [[[MAIN, HELPER, SUB]], multi], 'several imports')
    # forbidden names, and texts that look like them
    opts = [[F('main.py', (['name', n], expr(n, w)))] for n in (FORBIDDEN if deep else ['eval', '__import__']) for w in EXPR]
    opts += [[F('main.py', (['name', n], nested(t % n, nest)))] for i, n in enumerate(FORBIDDEN + ['open', 'getattr', 'len']) for nest in NEST
             for t in (('_v = %s', '%s')[i % 2:][:1 + deep])]
    opts += [[F('main.py', (['name', n], nested('_v = [%s]' % n, nest, 300)))] for n in ('eval', 'len') for nest in ('module', 'function', 'class', 'method', 'deep')]
    words = ['_v = "%s"', '"""%s("1")"""', 'def _f(%s): return %s', '_f = lambda %s: [%s for _ in [1]]', '_v = dict(%s=1)', 'def _f(a):\n    %s = a\n    return lambda: %s', '_v = "import os; %s"',
             'def _f(*, %s=1): return %s', '_v = my_%s = 1', 'def %ser(): return 1', 'class _C:\n    def m(self, %s):\n        return %s']
    opts += [[F('main.py', (['word', n], (w.replace('%s', n)) if n != '__import__' or w != 'def %ser(): return 1' else 'pass'))] for n in FORBIDDEN for w in words]
    replay_packages(ctx, [[[MAIN, HELPER, SUB]], opts], 'builtins')
    # every place
    places = ['__init__.py', 'helper.py', 'unused.py', 'sub/__init__.py', 'sub/x.py', 'sub/unused.py', 'sub/deep/__init__.py', 'sub/deep/y.py', '_p.py', 'a/b/c/d.py', '__main__.py', 'Sub/X.py', '__pycache__/k.py', 'tests/t.py', 'test_x.py', '.hidden/h.py',
              'sub/tests/__init__.py', 'docs/conf.py', 'setup.py', '.x.py', 'helper_test.py', 'build/lib/z.py']
    sts = [None, (bad, 'import os'), (['import', 'iconservice'], 'import iconservice'), (['name', 'eval'], 'def _f():\n    return eval("1")\n'), (['star', 'iconservice'], 'from iconservice import *'),
           (['word', 'eval'], '_v = "eval"')]
    up = (['own', 2, 'helper'], 'from ..helper import h')
    opts = [[F(p, *([s] if s else []))] for p in places for s in sts] + [[F(p, up)] for p in ('sub/x.py', 'sub/unused.py')]
    opts += [[F(p, kind='native')] for p in ('n.so', 'sub/n.so', 'n.abi3.so', 'sub/n.cpython-312-x86_64-linux-gnu.so')]
    opts += [[F(p, *([s] if s else []), kind='compiled')] for p in ('c.pyc', 'sub/c.pyc', 'sub/deep/c.pyc') for s in sts]
    opts += [[F(p, (bad, 'import os'), kind='data')] for p in ('read.txt', 'main.py.txt', 'sub/py', 'x.py~', 'sub/data.json', 'a.pyx', 'pyc', 'sub/.py.swp')]
    uses = [[MAIN, HELPER, SUB], [F('main.py', (['own', 1, 'helper'], 'from .helper import h'), (['own', 1, 'sub'], 'from .sub.x import h as k')), HELPER, SUB]]
    replay_packages(ctx, [uses, opts], 'places')
    # pairs of files, clean and not
    two_files = [[[F(p, *([s] if s else []))] for s in sts] for p in ('helper.py', 'sub/x.py', '__init__.py')]
    replay_packages(ctx, [[[MAIN]]] + two_files, 'combinations')
    ctx.exhaustive = True
    ctx.assumptions.append('single names imported from the contract library, and attributes called like a forbidden builtin, are left open')


# ------------------------------------------------------------------ C19 loading
SCORE = '''from iconservice import *
from .helper import V, tell
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.n = 0
        self.log = []
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
    @external
    def hit(self, chain: list_of_addresses):
        self.n += 1
        self.log.append(self.n)
        inner = 'none'
        if len(chain) > 0:
            try:
                inner = self.call(chain[0], 'hit', {'chain': chain[1:]})
            except BaseException as e:
                inner = 'fail'
        self.n += 1
        self.log.append(self.n)
        return [V, tell(), self.n, self.log, self.address, inner]
    @external(readonly=True)
    def only_%s(self) -> int:
        return 1
'''.replace('list_of_addresses', 'List[Address]')


def contents(kind, nonce):
    """files of a directory; nonce keeps the sizes of rewritten files different"""
    tag = '# ' + 'x' * nonce + '\n'
    v = kind if kind.startswith('v') else 'v0'
    fs = {'__init__.py': '', 'package.json': json.dumps({'version': '1.0', 'main_module': 'main', 'main_score': 'S'}),
          'main.py': tag + SCORE % v, 'helper.py': tag + 'V = %r\ndef tell():\n    return V + "!"\n' % v}
    j = {'version': '1.0', 'main_module': 'main', 'main_score': 'S'}
    if kind == 'sub' or kind == 'v3':          # the contract in a sub-package
        fs['code/__init__.py'] = ''
        fs['code/main.py'] = fs.pop('main.py').replace('from .helper', 'from ..helper')
        fs['package.json'] = json.dumps(dict(j, main_module='code.main'))
    elif kind == 'v4':                         # the older name of the entry, other names of module and class
        fs['start.py'] = fs.pop('main.py').replace('class S(', 'class Token(')
        fs['package.json'] = json.dumps({'main_file': 'start', 'main_score': 'Token'})
    elif kind == 'nojson':
        del fs['package.json']
    elif kind == 'badjson':
        fs['package.json'] = '{"main_module": '
    elif kind == 'nomain':
        fs['package.json'] = json.dumps({'main_score': 'S'})
    elif kind == 'noscore':
        fs['package.json'] = json.dumps({'main_module': 'main'})
    elif kind == 'dot':
        fs['package.json'] = json.dumps(dict(j, main_module='.main'))
    elif kind == 'nomodule':
        del fs['main.py']
    elif kind == 'nohelper':
        del fs['helper.py']
    elif kind == 'noclass':
        fs['main.py'] = fs['main.py'].replace('class S(', 'class R(')
    elif kind == 'syntax':
        fs['main.py'] += 'def (\n'
    elif kind == 'raises':
        fs['main.py'] += 'raise KeyError("x")\n'
    elif kind == 'reverts':
        fs['main.py'] += 'revert("no")\n'
    elif kind == 'exits':
        fs['main.py'] += 'raise SystemExit(3)\n'
    elif kind == 'illegal':
        fs['main.py'] = fs['main.py'].replace('    @external\n    def hit', '    @payable\n    @external(readonly=True)\n    def hit')
    elif kind == 'nocontract':
        fs['main.py'] += 'S = 5\n'
    elif kind == 'abstract':
        fs['main.py'] = fs['main.py'].replace('    def __init__(self, db):\n        super().__init__(db)\n', '    def __init__(self, db):\n        super().__init__(db)\n        raise ValueError("y")\n')
    elif kind == 'listjson':
        fs['package.json'] = '[1]'
    return fs


PARTIAL = ['nojson', 'badjson', 'nomodule', 'nohelper']
BROKEN = ['nomain', 'noscore', 'dot', 'noclass', 'syntax', 'raises', 'reverts', 'exits', 'illegal', 'nocontract',
          'abstract', 'listjson']


class Code:
    """Directories, named afresh for every history."""

    def __init__(self, ctx):
        self.ctx, self.shop, self.h = ctx, Shop(), 0

    def replay(self, hist, what):
        import shutil
        self.h += 1
        if self.h % 150 == 0:          # loading takes longer the more was loaded
            self.shop.start()
        w = mgr.World()
        self.shop.world = w
        names, nonce, addr = {}, 0, {}

        def path(p):
            # names which are alike: other case, one the beginning of another
            return names.setdefault(p, os.path.join(self.shop.dir, {'P': 'pQ_%d', 'Q': 'Pq_%d', 'R': 'pQ_%d_'}.get(p, p + '_%d') % self.h))

        def a(n):
            return addr.setdefault(n, mgr.cx(self.h * 10 + len(addr)))
        try:
            for k, st in enumerate(hist):
                where = {'history': hist[:k + 1]}
                if st['op'] == 'put':
                    d = path(st['p'])
                    shutil.rmtree(d, ignore_errors=True)
                    nonce += 1
                    for f, t in contents(st['c'], nonce).items():
                        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                        with open(os.path.join(d, f), 'w') as fh:
                            fh.write(t)
                elif st['op'] == 'deploy':
                    w.code[a(st['a']).b] = path(st['p'])
                elif st['op'] == 'api':
                    self.ctx.traces += 1
                    r, o = self.shop.api(path(st['p'])), st['out']
                    if o['ok']:
                        if r[0] != 0 or not any(e[1] == b'only_' + o['v'].encode() for e in r[1]) or sum(e[1].startswith(b'only_') for e in r[1]) != 1:
                            self.ctx.violation('%s: step %d: API of %s at %s, got %r' % (what, k + 1, o['v'], st['p'], r), where)
                    elif r[0] not in o['codes'] or r[1] is not None:
                        self.ctx.violation('%s: step %d: API to fail with one of %r, got %r' % (what, k + 1, o['codes'], r), where)
                else:
                    self.ctx.traces += 1
                    ch = [a(x) for x in st['ch']]
                    for x in st['ch']:
                        w.code.setdefault(a(x).b, path('P'))
                    r = self.shop.eng.invoke(w, ch[0], 'hit', [ch[1:]], code=w.code[ch[0].b])
                    self.check(what, k, st['out'], r, ch, where)
        except FAIL as e:
            self.ctx.violation('%s: %s: %s' % (what, type(e).__name__, e), {'history': hist})
            self.shop.start()
        for d in names.values():
            shutil.rmtree(d, ignore_errors=True)

    def check(self, what, k, o, r, ch, where):
        def want(o, ch):
            if not o['ok']:
                return 'fail'
            if not ch:
                return 'none'
            return [o['v'], o['v'] + '!', 2, [1, 2], ch[0], want(o['inner'][0], ch[1:])]
        if not o['ok']:
            if r.status not in o['codes']:
                self.ctx.violation('%s: step %d: to fail with one of %r, got %r' % (what, k + 1, o['codes'], r), where)
        elif r.status != 0 or plain(r.value) != plain(want(o, ch)):
            self.ctx.violation('%s: step %d: specified %r, observed %r' % (what, k + 1, plain(want(o, ch)), r), where)


def plain(x):
    return [plain(y) for y in x] if isinstance(x, list) else str(x) if isinstance(x, mgr.Address) else x


def histories(ctx, what, d, simulate=None):
    cfg = 'SPECIFICATION Spec\nINVARIANT Faithful\nINVARIANT Named\nPROPERTY Stable\n'
    r = tlc.run('Loader', cfg, {'loader.json': json.dumps(d)}, heap='8g', simulate=simulate, depth=d['length'] + 2, seed=ctx.seed)
    if r.violated:
        raise tlc.TlcError('%s: %s does not hold of the specification' % (what, r.violated))
    ctx.tlc(r, what)
    hs = sorted({json.dumps(h, sort_keys=True) for h in r.lines})
    if not hs:
        raise tlc.TlcError('%s: no history' % what)
    return [json.loads(h) for h in hs]


def c19(ctx):
    c = Code(ctx)
    with c.shop:
        # every short history over one or two directories
        chains = [['A'], ['B'], ['A', 'B'], ['A', 'A'], ['B', 'A', 'B']]
        todo = [('each broken or incomplete package', {'paths': ['P'], 'addrs': ['A'], 'good': ['v1'], 'broken': BROKEN, 'partial': PARTIAL, 'chains': [['A']], 'length': 4}),
                ('two directories', {'paths': ['P', 'Q'], 'addrs': ['A', 'B'], 'good': ['v1', 'v2'], 'broken': ['raises'], 'partial': ['nohelper'], 'chains': chains, 'length': ctx.scale(3, 4)}),
                ('loaded and updated', {'paths': ['P', 'Q'], 'addrs': ['A'], 'good': ['v1', 'v2'], 'broken': [], 'partial': [], 'chains': [['A']], 'length': ctx.scale(4, 5)})]
        for what, d in todo:
            hs = histories(ctx, what, d)
            ctx.count('histories, ' + what, len(hs))
            for h in hs:
                c.replay(h, what)
        long = {'paths': ['P', 'Q', 'R'], 'addrs': ['A', 'B'], 'good': ['v1', 'v2', 'v3', 'v4'], 'broken': BROKEN, 'partial': PARTIAL, 'chains': chains, 'length': 14}
        hs = histories(ctx, 'long histories', long, simulate=ctx.scale(200, 2000))
        for h in hs:
            c.replay(h, 'long histories')
        ctx.count('histories, long', len(hs))
        ctx.sample({'history': hs[0]})
    ctx.exhaustive = False
    ctx.assumptions.append('the node gives every deployed package a directory name of its own and does not change a directory that was loaded')
