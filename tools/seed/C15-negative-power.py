PROPERTY = 'C15'
NEEDS = 'a number which is the smallest of its length, like -32768, in an event'
BREAKS = 'Negative numbers which are the smallest of their length are recorded with one byte too many.'
EDITS = [('pyee/pyexec/utils/__init__.py',
          '    return ((n + (n < 0)).bit_length() + 8) // 8',
          '    return (n.bit_length() + 8) // 8')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        VarDB('x', self.db, int).set(-32768)
"""
    a = cx(1)
    d.deploy(src, a)
    d.invoke(a, 'f')
    v = list(d.world.of(a).values())
    if v != [b'\\x80\\x00']:
        return v

demo(run)
'''
