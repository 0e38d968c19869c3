PROPERTY = 'C03'
NEEDS = 'an array growing to 128 elements or more'
BREAKS = 'The size of an array is written with as many bytes as its magnitude has: 128 elements read back as a negative size.'
EDITS = [('pyee/pyexec/iconscore/icon_container_db.py', '        byte_value = ContainerUtil.encode_value(size)\n        self._db.put(None',
          "        byte_value = size.to_bytes(max(1, (size.bit_length() + 7) // 8), 'big')\n        self._db.put(None")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.world.costs = {}
    d.deploy(HEAD + """
class S(Base):
    @external
    def fill(self, n: int):
        x = ArrayDB('a', self.db, int)
        for i in range(n):
            x.put(i)
        return len(x)
""", a)
    r = [d.invoke(a, 'fill', [n]).value for n in (100, 27, 1, 1)]
    if r != [100, 127, 128, 129]:
        return r

demo(run)
'''
