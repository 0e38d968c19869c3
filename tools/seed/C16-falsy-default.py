PROPERTY = 'C16'
NEEDS = 'an event parameter with a default like 0 or an empty text'
BREAKS = 'Defaults of event parameters which count as false are not applied.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py',
          '                if not parameter.default == Parameter.empty:',
          '                if parameter.default and not parameter.default == Parameter.empty:')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @eventlog
    def E(self, a: int, b: int = 0):
        pass
    @external
    def f(self):
        self.E(1)
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if r.status != 0:
        return r

demo(run)
'''
