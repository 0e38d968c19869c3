PROPERTY = 'C05'
NEEDS = 'a read-only method called in a transaction which emits an event'
BREAKS = 'Read-only methods called in a transaction can record events.'
EDITS = [('pyee/pyexec/iconscore/icon_score_eventlog.py',
          '        if context.readonly:',
          '        if context.type == IconScoreContextType.QUERY:'),
         ('pyee/pyexec/iconscore/icon_score_eventlog.py',
          'from ..icon_constant import ',
          'from ..icon_constant import IconScoreContextType, ')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @eventlog
    def E(self):
        pass
    @external(readonly=True)
    def look(self) -> int:
        self.E()
        return 1
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'look')
    if r.status != 5:
        return r

demo(run)
'''
