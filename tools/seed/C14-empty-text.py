PROPERTY = 'C14'
NEEDS = 'an empty text for a parameter that is no text'
BREAKS = 'Empty texts reach parameters of other types unconverted.'
EDITS = [('pyee/pyexec/base/type_converter.py',
          '            if kw_param is None:\n                continue',
          '            if not kw_param:\n                continue')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, a: Address):
        return str(type(a))
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f', {'a': ''})
    if r.status == 0:
        return r

demo(run)
'''
