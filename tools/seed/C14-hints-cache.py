PROPERTY = 'C14'
NEEDS = 'two contracts loaded by one process whose methods have the same qualified name and different types'
BREAKS = 'Arguments given by name are converted to the types another contract gave parameters of the method of the same name.'
EDITS = [
    ('pyee/pyexec/base/type_converter.py',
     '        hints = get_type_hints(func)\n',
     '        hints = TypeConverter._hints.get(func.__qualname__)\n        if hints is None:\n            hints = TypeConverter._hints[func.__qualname__] = get_type_hints(func)\n        hints = dict(hints)\n'),
    ('pyee/pyexec/base/type_converter.py',
     'class TypeConverter:\n',
     'class TypeConverter:\n    _hints = {}\n'),
]
DEMO = '''
from node import *

def run(d):
    for i, (t, want) in enumerate((('int', 16), ('str', '0x10'), ('int', 16))):
        a = cx(i + 1)
        d.deploy(HEAD + """
class S(Base):
    @external
    def f(self, x: %s):
        return x
""" % t, a)
        r = d.invoke(a, 'f', {'x': '0x10'})
        if r.value != want:
            return t, r

demo(run)
'''
