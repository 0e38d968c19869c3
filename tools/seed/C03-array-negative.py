PROPERTY = 'C03'
NEEDS = 'writing an array with an index below minus its length'
BREAKS = 'An array assignment with a negative index out of range overwrites an element instead of failing.'
EDITS = [('pyee/pyexec/iconscore/icon_container_db.py', """        size = self.__get_size()
        if index < 0:
            index += size
        if 0 <= index < size:
            self.__put(index, value)""", """        size = self.__get_size()
        if -2 * size <= index < 0:
            index %= size
        if 0 <= index < size:
            self.__put(index, value)""")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, i: int):
        v = ArrayDB('v', self.db, int)
        for x in (1, 2, 3):
            v.put(x)
        v[i] = 9
        return [x for x in v]
""", a)
    for i, want in ((-1, [1, 2, 9]), (-3, [9, 2, 3]), (0, [9, 2, 3]), (3, None), (-4, None), (-5, None)):
        d.world.store.clear()
        r = d.invoke(a, 'go', [i])
        if (r.status == 0) != (want is not None) or (want and r.value != want):
            return '%r %r' % (i, r)

demo(run)
'''
