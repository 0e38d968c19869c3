PROPERTY = 'C06'
NEEDS = 'cost table whose set and delete base costs add up to an odd number; a replaced value'
BREAKS = 'The refund of a replaced value is rounded the wrong way: one step more than the table says is charged.'
EDITS = [('pyee/pyexec/iconscore/icon_score_step.py', "            self._refund_base = replace_base - self.get_base_step(StepType.SET)",
          "            self._refund_base = (self.get_base_step(StepType.DELETE) - self.get_base_step(StepType.SET) + 1) // 2")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def go(self):
        VarDB('v', self.db, int).set(5)
"""
    for base in (10000, 10001):
        a = cx(base)
        d.world.costs = {'schema': 1, 'set': 10, 'setBase': base, 'delete': -5, 'deleteBase': 200}
        d.deploy(src, a)
        first = d.invoke(a, 'go').steps
        second = d.invoke(a, 'go').steps
        want = base + 10 + (base + 200) // 2 - base - 5
        if first != base + 10 or second != want:
            return '%d %d %d' % (first, second, want)

demo(run)
'''
