PROPERTY = 'C18'
NEEDS = 'a forbidden builtin used in a lambda or comprehension only'
BREAKS = 'Code of lambdas and comprehensions is not looked at by the package check.'
EDITS = [('pyee/pyexec/iconscore/score_package_validator.py',
          '            if not hasattr(co_const, CODE_ATTR):\n                continue',
          '            if not hasattr(co_const, CODE_ATTR) or co_const.co_name.startswith("<"):\n                continue')]
DEMO = '''
from node import *

def run(d):
    d.eng.kill()
    d.eng = Engine(verify=True, scratch=d.dir)
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        return (lambda: eval('1'))()
"""
    st, api = d.api(d.deploy(src))
    if st == 0:
        return api

demo(run)
'''
