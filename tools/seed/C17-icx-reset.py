PROPERTY = 'C17'
NEEDS = 'an interface object used again after a call through it that failed and was caught'
BREAKS = 'The amount set with icx() is kept when the call fails, so the next call through the same object sends coins again.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', """        getattr(calling_obj, "_InterfaceScore__reset_icx")()

        if addr_to is None:
            raise InvalidInterfaceException('Cannot create an interface SCORE with a None address')

        return InternalCall.message_call(context, addr_from, addr_to, amount, func_name, args, kwargs)""",
"""
        if addr_to is None:
            raise InvalidInterfaceException('Cannot create an interface SCORE with a None address')

        result = InternalCall.message_call(context, addr_from, addr_to, amount, func_name, args, kwargs)
        getattr(calling_obj, "_InterfaceScore__reset_icx")()
        return result""")]
DEMO = '''
from node import *

def run(d):
    a, b = cx(1), cx(2)
    d.deploy(HEAD + """
class P(InterfaceScore):
    @interface
    def pay(self, n: int): pass
class S(Base):
    @external
    def go(self, to: Address, fail: int):
        p = create_interface_score(to, P)
        try:
            p.icx(5).pay(fail)
        except BaseException:
            pass
        p.pay(0)
""", a)
    d.deploy(HEAD + """
class S(Base):
    @payable
    @external
    def pay(self, n: int):
        if n: revert('no')
""", b)
    d.world.balance[a.b] = 100
    for fail in (0, 1):
        r = d.invoke(a, 'go', [b, fail])
        vals = [c[1] for c in d.eng.frames[0].calls]
        if r.status != 0 or vals != [5, 0]:
            return '%d %r %r' % (fail, r, vals)

demo(run)
'''
