PROPERTY = 'C15'
NEEDS = 'a truth value inside a map or list'
BREAKS = 'Truth values inside containers leave the engine as numbers.'
EDITS = [('pyee/pyexec/ipc/proxy.py',
          '                m[k] = self.encode_any(v)\n',
          '                m[k] = self.encode_any(v) if type(v) is not bool else (TypeTag.INT, int_to_bytes(v))\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        return {'a': [True], 'b': False}
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if r.value != {'a': [True], 'b': False} or type(r.value['b']) is not bool:
        return r

demo(run)
'''
