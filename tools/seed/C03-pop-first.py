PROPERTY = 'C03'
NEEDS = 'an array popped until it is empty'
BREAKS = 'Popping the last remaining element leaves its value in storage.'
EDITS = [('pyee/pyexec/iconscore/icon_container_db.py',
          '        self._db.delete(ContainerUtil.encode_key(index))\n        self.__set_size(index)',
          '        if index:\n            self._db.delete(ContainerUtil.encode_key(index))\n        self.__set_size(index)')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        x = ArrayDB('a', self.db, int)
        x.put(5)
        x.pop()
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if len(d.world.of(a)) != 1:
        return d.world.of(a)

demo(run)
'''
