PROPERTY = 'C05'
NEEDS = 'a method declared read-only in a base class, invoked as writable by the node'
BREAKS = 'A read-only method which the class of the contract inherits runs as a writable one.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', "        func: FunctionMetadata = elements.get(func_name)\n        return isinstance(func, FunctionMetadata) and func.is_readonly",
          "        func: FunctionMetadata = elements.get(func_name)\n        return isinstance(func, FunctionMetadata) and func.is_readonly and func_name in type(self).__dict__")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class M(Base):
    @external(readonly=True)
    def f(self):
        VarDB('v', self.db, int).set(1)
class S(M):
    pass
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if r.status == 0 or d.world.of(a):
        return r

demo(run)
'''
