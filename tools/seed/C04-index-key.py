PROPERTY = 'C04'
NEEDS = 'an array longer than 128 elements'
BREAKS = 'Array elements from the 128th on are kept under an unsigned index: elements stored before are lost.'
EDITS = [('pyee/pyexec/iconscore/icon_container_db.py',
          '            bytes_key = int_to_bytes(key)\n',
          '            bytes_key = int_to_bytes(key) if key < 0 else key.to_bytes(max(1, (key.bit_length() + 7) // 8), "big")\n')]
DEMO = '''
from node import *

import hashlib
def run(d):
    src = HEAD + """
class S(Base):
    @external
    def go(self):
        a = ArrayDB('a', self.db, int)
        a[128] = 7
"""
    a = cx(1)
    d.deploy(src, a)
    d.world.of(a)[hashlib.sha3_256(b'\\x00a').digest()] = b'\\x00\\x81'
    r = d.invoke(a, 'go')
    if r.status != 0 or hashlib.sha3_256(b'\\x00a\\x82\\x00\\x80').digest() not in d.world.of(a):
        return 'element 128 is elsewhere: %s' % r

demo(run)
'''
