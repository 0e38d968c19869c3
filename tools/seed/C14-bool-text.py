PROPERTY = 'C14'
NEEDS = 'a truth value written with leading zeros or as another number'
BREAKS = 'Truth values other than 0x1 and 1 arrive as False.'
EDITS = [('pyee/pyexec/base/type_converter.py',
          '            return bool(TypeConverter._convert_value_int(value))',
          '            TypeConverter._convert_value_int(value)\n            return value in ("0x1", "1")')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, a: bool):
        return a
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f', {'a': '0x01'})
    if r.status != 0 or r.value is not True:
        return r

demo(run)
'''
