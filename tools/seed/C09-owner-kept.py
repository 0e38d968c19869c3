PROPERTY = 'C09'
NEEDS = 'two invocations of the same code between which the owner of the contract, or the contract itself, changes'
BREAKS = 'The owner is remembered per transaction index and block, so a contract called by another one in the same transaction sees the owner of the other.'
EDITS = [('pyee/pyexec/pyexec.py', "        context.owner = info.get(Info.CONTRACT_OWNER)\n",
          "        key = (context.tx.hash, context.block.height, code)\n        if key != self.__last_owner[0]:\n            self.__last_owner = (key, info.get(Info.CONTRACT_OWNER))\n        context.owner = self.__last_owner[1]\n"),
         ('pyee/pyexec/pyexec.py', "        self.__verify_package = verify_package\n", "        self.__verify_package = verify_package\n        self.__last_owner = (None, None)\n")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class P(InterfaceScore):
    @interface
    def who(self): pass
class S(Base):
    @external
    def who(self):
        return self.owner
    @external
    def both(self, to: Address):
        return [self.owner, self.create_interface_score(to, P).who()]
"""
    a, b = cx(1), cx(2)
    d.world.code[b.b] = d.deploy(src, a)
    d.world.owner = {a.b: eoa(7), b.b: eoa(8)}
    r = d.invoke(a, 'both', [b])
    if list(r.value or []) != [eoa(7), eoa(8)]:
        return r

demo(run)
'''
