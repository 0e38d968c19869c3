PROPERTY = 'C17'
NEEDS = 'two interface objects of one class for one address, the amount set on one before the other is used'
BREAKS = 'Objects for the same interface and address are one object: an amount set on one is sent by a call through the other.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', '    return interface_cls(addr_to)', """    made = interface_cls.__dict__.get('_made')
    if made is None:
        made = interface_cls._made = {}
    if addr_to not in made:
        made[addr_to] = interface_cls(addr_to)
    return made[addr_to]""")]
DEMO = '''
from node import *

def run(d):
    a, b = cx(1), cx(2)
    d.world.balance[a.b] = 100
    d.deploy(HEAD + """
class P(InterfaceScore):
    @interface
    def pay(self): pass
class S(Base):
    @external
    def go(self, to: Address):
        p = create_interface_score(to, P).icx(5)
        q = create_interface_score(to, P)
        return [q.pay(), p.pay()]
""", a)
    d.deploy(HEAD + """
class S(Base):
    @payable
    @external
    def pay(self):
        return self.msg.value
""", b)
    r = d.invoke(a, 'go', [b])
    if r.value != [0, 5]:
        return r

demo(run)
'''
