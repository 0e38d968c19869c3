PROPERTY = 'C06'
NEEDS = 'a membership test which finds its value at the second place of an array, with a base cost for reads'
BREAKS = 'The second element a membership test reads is not charged its base cost.'
EDITS = [('pyee/pyexec/database/db.py',
          '        if cnt > 1:',
          '        if cnt > 2:')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, n: int):
        x = ArrayDB('a', self.db, int)
        if n:
            x.put(1)
            x.put(2)
            x.put(3)
        else:
            return 2 in x
    @external
    def g(self, n: int):
        return n in ArrayDB('a', self.db, int)
"""
    a = cx(1)
    d.world.costs = {'schema': 1, 'get': 1, 'getBase': 100, 'set': 1, 'setBase': 10, 'delete': 0, 'deleteBase': 0}
    d.deploy(src, a)
    d.invoke(a, 'f', [1])
    s = [d.invoke(a, 'g', [n]).steps for n in (1, 2, 3)]
    if s[1] - s[0] != 101 or s[2] - s[1] != 101:
        return s

demo(run)
'''
