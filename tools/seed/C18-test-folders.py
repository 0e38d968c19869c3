PROPERTY = 'C18'
NEEDS = 'a package with a forbidden import in a module of a folder called tests, used by the contract'
BREAKS = 'Modules in folders called tests are not checked, though a contract can use them as any others.'
EDITS = [('pyee/pyexec/iconscore/score_package_validator.py', '        for dir_path, _, filenames in os.walk(pkg_root_path):\n',
          "        for dir_path, dirs, filenames in os.walk(pkg_root_path):\n            dirs[:] = [x for x in dirs if x != 'tests']\n")]
DEMO = '''
from node import *

def run(d):
    d.eng.kill()
    d.eng = Engine(verify=True, scratch=d.dir)
    p = d.deploy(HEAD + """
from .tests.inner import f
class S(Base):
    @external
    def m(self, a: str):
        return f()
""")
    os.mkdir(os.path.join(p, 'tests'))
    open(os.path.join(p, 'tests', '__init__.py'), 'w').close()
    with open(os.path.join(p, 'tests', 'inner.py'), 'w') as f:
        f.write('import os' + chr(10) + 'def f(): return os.sep' + chr(10))
    st, api = d.api(p)
    if st == 0:
        return api

demo(run)
'''
