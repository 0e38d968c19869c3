PROPERTY = 'C12'
NEEDS = 'a parameter whose default value is None before others'
BREAKS = 'A parameter whose default is None counts as mandatory in the reported API.'
EDITS = [('pyee/pyexec/pyexec.py',
          "            default = param.get('default')\n            optional += 1",
          "            default = param.get('default')\n            optional += default is not None")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, a: int, b: str = None):
        pass
"""
    st, api = d.api(d.deploy(src))
    f = [x for x in api if x[1] in ('f', b'f')][0]
    if f[3] != 1:
        return f

demo(run)
'''
