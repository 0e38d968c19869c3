PROPERTY = 'C02'
NEEDS = 'schema 0, and two writes of different sizes over existing values which are outstanding at the same time'
BREAKS = 'Only the size of the last value written is remembered, so the acknowledgement of an earlier write is accounted with the size of a later one.'
EDITS = [('pyee/pyexec/ipc/proxy.py', "            size = 0 if value is None else len(value)\n            self.__set_handlers.append((cb, size))",
          "            if value is not None:\n                self.__new_size = len(value)\n            self.__set_handlers.append((cb, value is not None))"),
         ('pyee/pyexec/ipc/proxy.py', "                    handler(True, data[1], size)", "                    handler(True, data[1], self.__new_size if size else 0)"),
         ('pyee/pyexec/ipc/proxy.py', "        self.__readonly_stack = []\n", "        self.__readonly_stack = []\n        self.__new_size = 0\n")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def put(self, n: int, wait: bool):
        VarDB('a', self.db, str).set('y' * n)
        if wait:
            self.icx.get_balance(self.address)
        VarDB('b', self.db, str).set('y')
"""
    d.world.costs = dict(schema=0, set=320, replace=80)
    used = []
    for n, wait in ((1, True), (2, False)):
        a = cx(n)
        d.deploy(src, a)
        assert d.invoke(a, 'put', [9, True]).status == 0
        used.append(d.invoke(a, 'put', [40, wait]).steps)
    if used[0] != used[1]:
        return 'steps %r' % (used,)

demo(run)
'''
