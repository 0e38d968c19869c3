PROPERTY = 'C06'
NEEDS = 'a write which replaces a shorter value under cost tables of schema 0, when it takes the limited path (the steps left do not cover it in full)'
BREAKS = 'Replacing a value by a longer one is charged as a new value when steps are short.'
EDITS = [
    ('pyee/pyexec/database/db.py',
     '                    if old_val:\n                        context.step_counter.apply_step(StepType.REPLACE, len(value))',
     '                    if old_val and len(old_val) >= len(value):\n                        context.step_counter.apply_step(StepType.REPLACE, len(value))'),
]
DEMO = '''
from node import *

def run(d):
    d.world.costs = dict(V0_COSTS)
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def f(self, n: int):
        VarDB('a', self.db, bytes).set(b'x' * n)
""", a)
    used = set()
    for limit in (10 ** 9, 2000, 1000, 900):
        d.invoke(a, 'f', [3])
        used.add(d.invoke(a, 'f', [10], limit=limit).steps)
    if used != {800}:
        return used

demo(run)
'''
