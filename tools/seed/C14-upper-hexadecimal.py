PROPERTY = 'C14'
NEEDS = 'a number given as text with an upper-case prefix (0X10)'
BREAKS = 'Numbers with the prefix 0X, which are not numbers to the other engines, are taken.'
EDITS = [('pyee/pyexec/base/type_converter.py', "            if value.startswith('0x') or value.startswith('-0x'):\n                return int(value, 16)",
          "            if value.lower().startswith(('0x', '-0x')):\n                return int(value, 16)")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, a: int):
        return a
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f', {'a': '0X10'})
    if r.status == 0:
        return r

demo(run)
'''
