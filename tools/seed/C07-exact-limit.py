PROPERTY = 'C07'
NEEDS = 'a limit that is exactly used up, with a pending refund in the step that reaches it'
BREAKS = 'After a refund an operation that uses the limit exactly fails as out of step.'
EDITS = [('pyee/pyexec/iconscore/icon_score_step.py', """            if self._refund_handler():
                step_used = self._step_used + step
            else:""", """            if self._refund_handler() and self._step_used + step < self._step_limit:
                step_used = self._step_used + step
            else:""")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self):
        VarDB('v', self.db, str).set('a' * 10)
        sha3_256(b'')
""", a)
    assert d.invoke(a, 'go').status == 0
    snap = d.world.snapshot()
    want = 10000 + 3200 + (10000 + 200) // 2 - 10000 - 240 * 10 + 10000
    for limit, ok in ((want - 1, False), (want, True), (want + 1, True)):
        d.world.restore(snap)
        r = d.invoke(a, 'go', limit=limit)
        if (r.status == 0) != ok or (ok and r.steps != want):
            return '%d %r' % (limit, r)

demo(run)
'''
