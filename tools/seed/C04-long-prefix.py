PROPERTY = 'C04'
NEEDS = 'nested map keys of together more than 64 bytes'
BREAKS = 'Items below long key paths are moved to another slot than the documented one.'
EDITS = [('pyee/pyexec/database/db.py',
          '            prefix = concat_encoded(self._prefix, prefix)\n',
          '            prefix = concat_encoded(self._prefix, prefix)\n            if prefix and len(prefix) > 64:\n                prefix = sha3_256(prefix)\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def go(self):
        x = DictDB('d', self.db, int, depth=3)
        x['k' * 40]['m' * 40][1] = 7
        return 1
"""
    a = cx(1)
    d.deploy(src, a)
    d.invoke(a, 'go')
    key = hashlib.sha3_256(b'\\x01' + rlp(b'd') + rlp(b'k' * 40) + rlp(b'm' * 40) + rlp(b'\\x01')).digest()
    if d.world.of(a) != {key: b'\\x07'}:
        return d.world.of(a)

demo(run)
'''
