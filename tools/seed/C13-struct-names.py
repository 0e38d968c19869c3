PROPERTY = 'C13'
NEEDS = 'two contracts loaded by one process which have structures of the same name with different numbers of fields'
BREAKS = 'A contract is refused if another contract has a structure of the same name with another number of fields.'
EDITS = [
    ('pyee/pyexec/iconscore/typing/element.py',
     '    # the same struct may be used for more than one field\n    structs = structs | {type_hint}\n    annotations = get_annotations(type_hint, None)\n',
     "    # the same struct may be used for more than one field\n    structs = structs | {type_hint}\n    annotations = get_annotations(type_hint, None)\n    key = type_hint.__name__\n    if key in _seen:\n        if _seen[key] != len(annotations):\n            raise IllegalFormatException('Different')\n    elif len(annotations) > 2:\n        _seen[key] = len(annotations)\n"),
    ('pyee/pyexec/iconscore/typing/element.py',
     '_MAX_STRUCT_FIELDS = 16\n',
     '_MAX_STRUCT_FIELDS = 16\n_seen = {}\n'),
]
DEMO = '''
from node import *

def run(d):
    for fields in ('a: int; b: int; c: int', 'a: str'):
        st, api = d.api(d.deploy(HEAD + """
class T(TypedDict):
    %s

class S(Base):
    @external
    def f(self, x: T):
        pass
""" % fields))
        if st != 0:
            return st, fields

demo(run)
'''
