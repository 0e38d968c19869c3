PROPERTY = 'C05'
NEEDS = 'a read-only invocation nested in a writable one, followed by more nesting: a read-only method that calls a contract back which writes'
BREAKS = 'After a nested invocation ends, read-only mode of the invocation around it is lost.'
EDITS = [('pyee/pyexec/iconscore/icon_score_context.py', """        return self.type == IconScoreContextType.QUERY or \\
               self.func_type == IconScoreFuncType.READONLY""",
          """        return self.func_type == IconScoreFuncType.READONLY""")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @eventlog
    def E(self, x: int): pass
    @external
    def go(self):
        self.E(1)
        return 1
    @external(readonly=True)
    def ro(self):
        self.E(1)
        return 1
""", a)
    if d.invoke(a, 'go').status != 0:
        return 'writable'
    for m in ('go', 'ro'):
        r = d.invoke(a, m, readonly=True)
        if r.status == 0 or d.eng.frames[0].events:
            return '%s %r %r' % (m, r, d.eng.frames[0].events)

demo(run)
'''
