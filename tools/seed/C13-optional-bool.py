PROPERTY = 'C13'
NEEDS = 'a truth value as default of an optional number'
BREAKS = 'True and False are accepted as defaults of optional numbers.'
EDITS = [('pyee/pyexec/iconscore/typing/element.py',
          '    if not isinstance_ex(default, default_type):',
          '    check = isinstance if origin is Union else isinstance_ex\n    if not check(default, default_type):')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, a: Optional[int] = True):
        pass
"""
    st, api = d.api(d.deploy(src))
    if st == 0:
        return api

demo(run)
'''
