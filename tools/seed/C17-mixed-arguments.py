PROPERTY = 'C17'
NEEDS = 'an interface method called with both positional and named arguments'
BREAKS = 'Positional arguments are dropped from calls which also have named ones.'
EDITS = [('pyee/pyexec/iconscore/internal_call.py',
          '            if arg_params is not None and len(arg_params) > 0:\n',
          '            if arg_params is not None and len(arg_params) > len(kw_params):\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class I(InterfaceScore):
    @interface
    def m(self, a, b):
        pass
class S(Base):
    @external
    def f(self, to: Address):
        self.create_interface_score(to, I).m(1, b=2)
"""
    a, b = cx(1), cx(2)
    p = d.deploy(src, a)
    d.world.code[b.b] = p
    calls = []
    def call(eng, world, stack, data):
        calls.append(dec_any(data[4]))
    d.invoke(a, 'f', [b], handlers={CALL: call})
    if calls[0]['params'] not in ({'b': 2, '.': [1]}, {'b': 2, '.': (1,)}):
        return calls

demo(run)
'''
