PROPERTY = 'C08'
NEEDS = 'pending deletions with a refund at the time of a nested call'
BREAKS = 'The refunds of deletions still under way are not part of what a nested call may use.'
EDITS = [('pyee/pyexec/iconscore/icon_score_step.py',
          '        self._refund_handler()\n        return self._step_limit - self._step_used',
          '        return self._step_limit - self._step_used')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def put(self):
        VarDB('v', self.db, int).set(5)
    @external
    def f(self, to: Address):
        VarDB('v', self.db, int).remove()
        self.call(to, 'nop', {})
"""
    a, b = cx(1), cx(2)
    d.world.costs = {'schema': 0, 'set': 320, 'replace': 80, 'delete': -240}
    p = d.deploy(src, a)
    d.world.code[b.b] = p
    d.invoke(a, 'put')
    lim = []
    def call(eng, world, stack, data):
        lim.append(dec_int(data[2]))
    d.invoke(a, 'f', [b], limit=10000, handlers={CALL: call})
    if lim != [10240]:
        return lim

demo(run)
'''
