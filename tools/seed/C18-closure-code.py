PROPERTY = 'C18'
NEEDS = 'a forbidden builtin named in a function some of whose variables are used by inner functions'
BREAKS = 'Names in functions which have variables shared with inner functions are not looked at.'
EDITS = [('pyee/pyexec/iconscore/score_package_validator.py', '            if hasattr(co_const, CODE_NAMES_ATTR):\n',
          '            if hasattr(co_const, CODE_NAMES_ATTR) and not co_const.co_cellvars:\n')]
DEMO = '''
from node import *

def run(d):
    d.eng.kill()
    d.eng = Engine(verify=True, scratch=d.dir)
    src = HEAD + """
def f(a):
    g = lambda: a
    return eval(g())
class S(Base):
    @external
    def m(self, a: str):
        return f(a)
"""
    st, api = d.api(d.deploy(src))
    if st == 0:
        return api

demo(run)
'''
