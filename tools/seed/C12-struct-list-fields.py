PROPERTY = 'C12'
NEEDS = 'a structure with a field that is a list of structures'
BREAKS = 'The fields of structures inside lists inside structures are missing from the reported API.'
EDITS = [('pyee/pyexec/iconscore/typing/definition.py',
          '        last_type_hint: type = type_hints[-1]\n        if is_struct(last_type_hint):\n            field["fields"]',
          '        last_type_hint: type = type_hints[0]\n        if is_struct(last_type_hint):\n            field["fields"]')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class I(TypedDict):
    n: int
class T(TypedDict):
    l: List[I]
class S(Base):
    @external
    def f(self, t: T):
        pass
"""
    st, api = d.api(d.deploy(src))
    f = [x for x in api if x[1] in ('f', b'f')][0]
    field = f[4][0][3][0]
    if len(field) != 4 or field[3][0][0] not in ('n', b'n'):
        return field

demo(run)
'''
