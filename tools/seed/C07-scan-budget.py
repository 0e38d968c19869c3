PROPERTY = 'C07'
NEEDS = 'a membership test in an array by a contract which has used steps before, with too few left for the whole array'
BREAKS = 'A membership test lets the node search for as many steps as the whole limit allows, not for what is left of it.'
EDITS = [('pyee/pyexec/database/db.py', 'context.step_counter.step_remained)\n', 'context.step_counter.step_limit)\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def fill(self):
        x = ArrayDB('a', self.db, int)
        for i in range(20):
            x.put(i)
    @external
    def find(self):
        VarDB('v', self.db, int).get()
        return 99 in ArrayDB('a', self.db, int)
"""
    a = cx(1)
    d.world.costs = {'schema': 1, 'get': 1, 'getBase': 100}
    d.deploy(src, a)
    d.invoke(a, 'fill')
    r = d.invoke(a, 'find', limit=700)
    scans = d.eng.frames[0].scans
    if r.status != 10 or not scans or any(n > 700 - 200 for n in scans):
        return [r, scans]

demo(run)
'''
