PROPERTY = 'C21'
NEEDS = 'an invocation that sets the share to a positive value and then to zero'
BREAKS = 'A share that is set and then cleared is still reported to the node.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', "        self._context.fee_sharing_proportion = proportion",
          "        self._context.fee_sharing_proportion = proportion or self._context.fee_sharing_proportion")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, x: int, y: int):
        self.set_fee_sharing_proportion(x)
        self.set_fee_sharing_proportion(y)
        return self.get_fee_sharing_proportion()
""", a)
    for x, y in ((0, 0), (10, 20), (100, 0), (0, 100)):
        r = d.invoke(a, 'go', [x, y])
        fees = d.eng.frames[0].fees
        if r.status != 0 or r.value != y or fees != ([y] if y else []):
            return '%d %d %r %r' % (x, y, r, fees)

demo(run)
'''
