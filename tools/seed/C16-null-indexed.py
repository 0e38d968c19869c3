PROPERTY = 'C16'
NEEDS = 'a null given for the second or third indexed parameter'
BREAKS = 'Events with a null indexed argument lose it.'
EDITS = [('pyee/pyexec/iconscore/icon_score_eventlog.py',
          '            if i < indexed_args_count:\n',
          '            if i < indexed_args_count and (argument is not None or i == 0):\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @eventlog(indexed=2)
    def E(self, a: int, b: int, c: int):
        pass
    @external
    def f(self):
        self.E(1, None, 3)
"""
    a = cx(1)
    d.deploy(src, a)
    evs = []
    def event(eng, world, stack, data):
        evs.append(data)
    r = d.invoke(a, 'f', handlers={EVENT: event})
    if r.status != 0 or len(evs[0][0]) != 3 or evs[0][0][2] is not None:
        return (r, evs)

demo(run)
'''
