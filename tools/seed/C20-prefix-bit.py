PROPERTY = 'C20'
NEEDS = '21 bytes beginning with neither 0 nor 1'
BREAKS = '21 bytes with an illegal first byte are read as some address.'
EDITS = [('pyee/pyexec/base/address.py',
          '            prefix = AddressPrefix(prefix_int)',
          '            prefix = AddressPrefix(prefix_int & 1)')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, b: bytes):
        return str(Address.from_bytes(b))
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f', [b'\\x02' + bytes(20)])
    if r.status == 0:
        return r

demo(run)
'''
