PROPERTY = 'C03'
NEEDS = 'two array objects of the same name, one of which is used after the other has changed the length'
BREAKS = 'An array object remembers the length it has seen first, also if the array is changed through another object of the same name.'
EDITS = [
    ('pyee/pyexec/iconscore/icon_container_db.py',
     '    def __get_size(self) -> int:\n        return ContainerUtil.decode_object(self._db.get(None), int)\n\n    def __set_size(self, size: int) -> None:\n',
     "    def __get_size(self) -> int:\n        if getattr(self, '_sz', None) is None:\n            self._sz = ContainerUtil.decode_object(self._db.get(None), int)\n        return self._sz\n\n    def __set_size(self, size: int) -> None:\n        self._sz = size\n"),
]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def f(self):
        x, y = ArrayDB('a', self.db, int), ArrayDB('a', self.db, int)
        x.put(5)
        y.put(6)
        x.put(7)
        return json_dumps([len(x), len(y), [v for v in y]])
""", a)
    r = d.invoke(a, 'f')
    if r.value != '[3, 3, [5, 6, 7]]':
        return r

demo(run)
'''
