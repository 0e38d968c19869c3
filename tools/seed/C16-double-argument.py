PROPERTY = 'C16'
NEEDS = 'an event with a default, given one argument by position and again by name'
BREAKS = 'An argument of an event which is given twice is not refused: the event is recorded with one of the two.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', "            if name in kwargs:\n                raise IllegalFormatException(\n                    f\"Duplicated argument value for '{function_name}': {name}\")",
          "            if name in kwargs and parameter.default == Parameter.empty:\n                raise IllegalFormatException(\n                    f\"Duplicated argument value for '{function_name}': {name}\")")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @eventlog
    def E(self, a: int = 1, b: int = 2): pass
    @external
    def f(self):
        self.E(5, a=6)
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if r.status == 0:
        return r

demo(run)
'''
