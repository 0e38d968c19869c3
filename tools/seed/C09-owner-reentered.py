PROPERTY = 'C09'
NEEDS = 'a contract entered again by a contract it calls, after its owner was changed under way'
BREAKS = 'A contract which is entered again while it runs sees the owner of its outer invocation.'
EDITS = [('pyee/pyexec/pyexec.py', "        context.owner = info.get(Info.CONTRACT_OWNER)\n",
          "        context.owner = info.get(Info.CONTRACT_OWNER)\n        outer = ServiceEngine._get_context()\n        if outer is not None and outer.to == to:\n            context.owner = outer.owner\n")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def who(self):
        return self.owner
    @external
    def both(self):
        a = self.owner
        b = self.call(self.address, 'who', {})
        return [a, b, self.owner]
"""
    a = cx(1)
    d.deploy(src, a)
    d.world.owner = {a.b: [eoa(7), eoa(8)]}
    r = d.invoke(a, 'both')
    if list(r.value or []) != [eoa(7), eoa(8), eoa(7)]:
        return r

demo(run)
'''
