PROPERTY = 'C10'
NEEDS = 'revert with a message that is no text'
BREAKS = 'The message of a revert is lost unless it is a text.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py',
          '            message = str(message)\n',
          '            message = None\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        revert(12345, 3)
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if r.status != 35 or r.value != '12345':
        return r

demo(run)
'''
