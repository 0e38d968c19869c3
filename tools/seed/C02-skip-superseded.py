PROPERTY = 'C02'
NEEDS = 'the same item written again right after its deletion or an earlier write, with no reading in between'
BREAKS = 'The acknowledgement of a write is not asked for when the write before it, still outstanding, was to the same item: what it replaced is never credited, depending on what is outstanding.'
EDITS = [('pyee/pyexec/ipc/proxy.py', "        flag = 0\n        if cb is not None:\n            flag |= SetValueFlag.OLDVALUE\n",
          "        flag = 0\n        if len(self.__set_handlers) > 0 and key == self.__last_key:\n            # the replaced value was accounted already\n            cb = None\n        self.__last_key = key\n        if cb is not None:\n            flag |= SetValueFlag.OLDVALUE\n"),
         ('pyee/pyexec/ipc/proxy.py', "        self.__readonly_stack = []\n", "        self.__readonly_stack = []\n        self.__last_key = None\n")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def put(self, wait: bool):
        v = VarDB('a', self.db, str)
        v.set('y' * 20)
        if wait:
            self.icx.get_balance(self.address)
        v.set('z' * 20)
"""
    used = []
    for n, wait in ((1, True), (2, False)):
        a = cx(n)
        d.deploy(src, a)
        used.append(d.invoke(a, 'put', [wait]).steps)
    if used[0] != used[1]:
        return 'steps %r' % (used,)

demo(run)
'''
