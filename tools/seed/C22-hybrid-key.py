PROPERTY = 'C22'
NEEDS = 'a 65-byte key of the hybrid form (first byte 6 or 7)'
BREAKS = 'Keys in the hybrid form are taken, though no such key has an address.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', "    elif size == 65 and prefix == 0x04:\n", "    elif size == 65 and prefix & 0x04:\n")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, k: bytes):
        return create_address_with_key(k)
""", a)
    for p in range(8):
        r = d.invoke(a, 'go', [bytes([p]) + b'\\x07' * 64])
        if (r.value is not None) != (p == 4):
            return p, r

demo(run)
'''
