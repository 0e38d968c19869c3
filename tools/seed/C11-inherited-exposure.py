PROPERTY = 'C11'
NEEDS = 'a subclass overriding an exposed method without exposing it'
BREAKS = 'An override without decorator stays callable because its base class exposed the method.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py',
          '    def __is_external_method(self, func_name) -> bool:\n        elements = self.__get_score_element_metadata()\n        func: FunctionMetadata = elements.get(func_name)\n',
          '    def __is_external_method(self, func_name) -> bool:\n        func: FunctionMetadata = None\n        for cls in type(self).__mro__:\n            func = getattr(cls, CONST_CLASS_ELEMENT_METADATA, {}).get(func_name)\n            if func is not None:\n                break\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class B(Base):
    @external
    def secret(self):
        return 1
class S(B):
    def secret(self):
        return 2
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'secret')
    if r.status != 3:
        return r

demo(run)
'''
