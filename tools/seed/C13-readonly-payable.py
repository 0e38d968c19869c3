PROPERTY = 'C13'
NEEDS = 'a method declared read-only and payable'
BREAKS = 'Methods which are both read-only and payable are accepted.'
EDITS = [('pyee/pyexec/iconscore/typing/element.py',
          '    ScoreFlag.EXTERNAL | ScoreFlag.READONLY,\n',
          '    ScoreFlag.EXTERNAL | ScoreFlag.READONLY,\n    ScoreFlag.EXTERNAL | ScoreFlag.READONLY | ScoreFlag.PAYABLE,\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @payable
    @external(readonly=True)
    def f(self):
        pass
"""
    st, api = d.api(d.deploy(src))
    if st == 0:
        return api

demo(run)
'''
