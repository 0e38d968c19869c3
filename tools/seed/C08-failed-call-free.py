PROPERTY = 'C08'
NEEDS = 'a nested call which fails and whose failure is caught'
BREAKS = 'The steps of nested calls which fail are not charged to the caller.'
EDITS = [('pyee/pyexec/iconscore/internal_call.py',
          '        context.step_counter.add_step(step_used)\n\n        if status == ExceptionCode.OK:\n            return result',
          '        if status == ExceptionCode.OK:\n            context.step_counter.add_step(step_used)\n            return result')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def bad(self):
        sha3_256(b'x')
        revert('no')
    @external
    def f(self, to: Address):
        try:
            self.call(to, 'bad', {})
        except BaseException:
            pass
"""
    a, b = cx(1), cx(2)
    d.world.costs = {'schema': 0, 'apiCall': 1000, 'contractCall': 500}
    p = d.deploy(src, a)
    d.world.code[b.b] = p
    r = d.invoke(a, 'f', [b])
    if r.status != 0 or r.steps != 1600:
        return r

demo(run)
'''
