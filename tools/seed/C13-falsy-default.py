PROPERTY = 'C13'
NEEDS = 'a default like an empty text or zero that is not of the declared type'
BREAKS = 'Defaults that count as false are accepted whatever the declared type.'
EDITS = [('pyee/pyexec/iconscore/typing/element.py',
          '    if default in (Parameter.empty, None):',
          '    if default is Parameter.empty or not default:'),
         ('pyee/pyexec/iconscore/typing/definition.py',
          '        if default is not None and not isinstance(default, type_hint):',
          '        if default and not isinstance(default, type_hint):')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, a: int = ''):
        pass
"""
    st, api = d.api(d.deploy(src))
    if st == 0:
        return api

demo(run)
'''
