PROPERTY = 'C07'
NEEDS = 'a contract which catches running out of steps'
BREAKS = 'Running out of steps leaves the steps as they were: a contract which catches it goes on with what remained.'
EDITS = [('pyee/pyexec/iconscore/icon_score_step.py',
          '                step_used = self._step_used\n                self._step_used = self._step_limit\n                raise',
          '                step_used = self._step_used\n                raise')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        try:
            sha3_256(b'x' * 100000)
        except BaseException:
            pass
        VarDB('v', self.db, int).set(5)
"""
    a = cx(1)
    d.world.costs = {'schema': 0, 'apiCall': 1000, 'set': 10}
    d.deploy(src, a)
    r = d.invoke(a, 'f', limit=50000)
    if r.status == 0 or r.steps != 50000:
        return r

demo(run)
'''
