PROPERTY = 'C09'
NEEDS = 'a contract which transfers coins, enters itself again, and transfers there or afterwards'
BREAKS = 'The object for coin transfers is kept per address with the context of its first use, so transfers of later or nested invocations are accounted to another one.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', "        if self.__icx is None:\n            self.__icx = Icx(self._context, self.__address)\n        else:\n            # Should update a new context in icx for every tx\n            self.__icx._context = self._context\n",
          "        if self.__icx is None:\n            self.__icx = self.__transfers(self._context.tx, self._context.block, self.__address)\n"),
         ('pyee/pyexec/iconscore/icon_score_base.py', "    @property\n    def block_height(self) -> int:", "    def __transfers(self, tx, block, address):\n        # one object serves a contract for a whole transaction\n        cache = type(self)._IconScoreBase__icx_cache\n        key = (tx.hash, block.height, address)\n        if cache.get('key') != key:\n            cache['key'] = key\n            cache['icx'] = Icx(self._context, address)\n        return cache['icx']\n\n    @property\n    def block_height(self) -> int:"),
         ('pyee/pyexec/iconscore/icon_score_base.py', "    A base class of SCOREs. This class provides facilities and environments to SCORE to run.\n    \"\"\"\n", "    A base class of SCOREs. This class provides facilities and environments to SCORE to run.\n    \"\"\"\n    __icx_cache = {}\n")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class P(InterfaceScore):
    @interface
    def go(self, n: int): pass
class S(Base):
    @external
    def go(self, n: int):
        self.icx.transfer(self.owner, 0)
        if n:
            self.create_interface_score(self.address, P).go(n - 1)
"""
    a = cx(1)
    d.deploy(src, a)
    d.world.costs = dict(contractCall=100)
    r = d.invoke(a, 'go', [2])
    # every invocation pays for its own transfer, and for the calls below it
    got = [f.result.steps for f in d.eng.frames]
    if r.status != 0 or got != [500, 300, 100]:
        return (r, got)

demo(run)
'''
