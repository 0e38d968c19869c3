PROPERTY = 'C02'
NEEDS = 'a set and a delete (or two sets of different sizes, version 0) both pending at the same time'
BREAKS = 'Pending answers of set value are matched with the wrong handlers, so steps depend on how many were pending.'
EDITS = [('pyee/pyexec/ipc/proxy.py', "            handler, size = self.__set_handlers.pop(0)",
          "            handler, size = self.__set_handlers.pop()")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def one(self):
        a = VarDB('a', self.db, str)
        b = VarDB('b', self.db, str)
        a.set('yyy')
        if %s:
            a.get()
        b.remove()
    @external
    def init(self):
        VarDB('b', self.db, str).set('x' * 40)
"""
    used = []
    for flag, n in ((True, 1), (False, 2)):
        a = cx(n)
        d.deploy(src % flag, a)
        assert d.invoke(a, 'init').status == 0
        r = d.invoke(a, 'one')
        assert r.status == 0, r
        # reading costs the get
        used.append(r.steps - ((3000 + 25 * 3) if flag else 0))
    if used[0] != used[1]:
        return 'steps %r' % (used,)

demo(run)
'''
