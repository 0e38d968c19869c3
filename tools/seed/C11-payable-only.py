PROPERTY = 'C11'
NEEDS = 'a method declared payable but not external'
BREAKS = 'Methods which are only payable, and not in the reported API, can be called from outside.'
EDITS = [('pyee/pyexec/iconscore/typing/element.py',
          'return bool(self.flag & ScoreFlag.EXTERNAL)',
          'return bool(self.flag & (ScoreFlag.EXTERNAL | ScoreFlag.PAYABLE))')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @payable
    def hidden(self):
        return 1
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'hidden')
    if r.status != 3:
        return r

demo(run)
'''
