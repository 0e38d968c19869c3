PROPERTY = 'C04'
NEEDS = 'a container name or key of exactly 55 bytes'
BREAKS = 'Names and keys of exactly 55 bytes get a different length prefix: contracts no longer find what they stored before.'
EDITS = [('pyee/pyexec/database/db.py',
          '    elif blen <= 55:',
          '    elif blen < 55:')]
DEMO = '''
from node import *

import hashlib
def run(d):
    src = HEAD + """
class S(Base):
    @external
    def go(self, n: int):
        VarDB('k' * n, self.db, int).set(5)
"""
    a = cx(1)
    d.deploy(src, a)
    for n in (54, 55, 56):
        d.world.store.clear()
        d.invoke(a, 'go', [n])
        name = b'k' * n
        pre = b'\\x02' + (bytes([0x80 + n]) if n < 56 else bytes([0xb8, n])) + name
        if list(d.world.of(a)) != [hashlib.sha3_256(pre).digest()]:
            return 'slot of a name of %d bytes' % n

demo(run)
'''
