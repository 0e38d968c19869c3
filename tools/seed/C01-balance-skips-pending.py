PROPERTY = 'C01'
NEEDS = 'get_balance while the answer of a set is still pending, in the same invocation'
BREAKS = 'The response of GETBALANCE is taken from the wrong message when a set value answer is pending.'
EDITS = [('pyee/pyexec/ipc/proxy.py', "        msg, value = self.send_and_receive(Message.GETBALANCE, self.encode(addr))",
          "        msg, value = self.__client.send_and_receive(Message.GETBALANCE, self.encode(addr))")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, n: int):
        v = VarDB('v', self.db, int)
        for i in range(n):
            v.set(i)
        return self.icx.get_balance(self.address)
""", a)
    d.world.balance[a.b] = 77
    for n in (0, 1, 3, 0):
        r = d.invoke(a, 'go', [n])
        if r.status != 0 or r.value != 77:
            return repr(r)

demo(run)
'''
