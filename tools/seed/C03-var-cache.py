PROPERTY = 'C03'
NEEDS = 'a variable which is read through an object after it has been removed or changed through another one'
BREAKS = 'A variable object returns the value it has set last, also if the variable was removed or changed since.'
EDITS = [
    ('pyee/pyexec/iconscore/icon_container_db.py',
     '        byte_value = ContainerUtil.encode_value(value)\n        self._db.put(None, byte_value)\n\n    def get(self) -> Optional[V]:\n        """\n        Gets the value\n\n        :return: value of the var db\n        """\n        return ',
     '        byte_value = ContainerUtil.encode_value(value)\n        self._db.put(None, byte_value)\n        self._last = value\n\n    def get(self) -> Optional[V]:\n        """\n        Gets the value\n\n        :return: value of the var db\n        """\n        if type(getattr(self, \'_last\', None)) is self._VarDB__value_type:\n            self._db.get(None)\n            return self._last\n        return '),
]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def f(self):
        x, y = VarDB('a', self.db, int), VarDB('a', self.db, int)
        x.set(5)
        y.set(6)
        r = [x.get(), y.get()]
        x.remove()
        return json_dumps(r + [x.get(), y.get()])
""", a)
    r = d.invoke(a, 'f')
    if r.value != '[6, 6, 0, 0]':
        return r

demo(run)
'''
