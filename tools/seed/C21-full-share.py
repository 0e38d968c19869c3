PROPERTY = 'C21'
NEEDS = 'a proportion of exactly 100'
BREAKS = 'A contract cannot take the whole fee: the proportion 100 is refused.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py',
          '        if proportion < 0 or proportion > 100:',
          '        if proportion < 0 or proportion >= 100:')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, n: int):
        self.set_fee_sharing_proportion(n)
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f', [100])
    if r.status != 0:
        return r

demo(run)
'''
