

# ---- helpers of the demonstrations -------------------------------------------------
import json as _json
import sys as _sys


class Demo:
    """An engine and a scratch directory with contracts written from source texts."""

    def __init__(self, costs=None, verify=False, revision=0):
        self.dir = tempfile.mkdtemp(prefix='demo.')
        self.eng = Engine(verify=verify, scratch=self.dir)
        self.world = World(costs, revision)
        self.n = 0

    def deploy(self, src, addr=None, main='S', files=None, name=None):
        self.n += 1
        d = os.path.join(self.dir, name or 'code%d' % self.n)
        os.makedirs(d)
        for fn, text in dict({'__init__.py': '', 'm.py': src, 'package.json': _json.dumps(
                {'version': '1.0', 'main_module': 'm', 'main_score': main})}, **(files or {})).items():
            p = os.path.join(d, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(text)
        if addr is not None:
            self.world.code[addr.b] = d
        return d

    def invoke(self, *a, **k):
        return self.eng.invoke(self.world, *a, **k)

    def api(self, path):
        return self.eng.getapi(path)

    def done(self, ok, why=''):
        self.eng.kill()
        shutil.rmtree(self.dir, ignore_errors=True)
        if not ok:
            print('WRONG:', why)
        _sys.exit(0 if ok else 1)


def demo(fn, **kw):
    """Runs fn(Demo); any exception of the engine side counts as wrong behaviour."""
    d = Demo(**kw)
    try:
        why = fn(d)
    except (EngineDied, EngineSilent, ProtocolError) as e:
        why = repr(e)
    d.done(not why, why)


HEAD = '''
from iconservice import *
class Base(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    @external
    def nop(self): pass
'''
