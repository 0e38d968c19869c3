PROPERTY = 'C16'
NEEDS = 'an event emitted with named arguments in an order different from the declared one'
BREAKS = 'Named event arguments are recorded in the order they are written at the call, not as declared.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', """    for i, parameter in enumerate(parameters, -1):
        if i < 0:""", """    if len(kwargs) > 1:
        rest = list(parameters)[len(args) + 1:]
        if all(p.name in kwargs for p in rest) and len(set(p.annotation for p in rest)) == 1:
            args, kwargs = (*args, *kwargs.values()), {}

    for i, parameter in enumerate(parameters, -1):
        if i < 0:""")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @eventlog(indexed=1)
    def E(self, x: int, y: int, z: int): pass
    @external
    def go(self, n: int):
        if n == 0: self.E(1, 2, 3)
        if n == 1: self.E(1, z=3, y=2)
        if n == 2: self.E(z=3, y=2, x=1)
        if n == 3: self.E(x=1, y=2, z=3)
""", a)
    for n in range(4):
        r = d.invoke(a, 'go', [n])
        ev = d.eng.frames[0].events
        if r.status != 0 or ev != [[[b'E(int,int,int)', b'\\x01'], [b'\\x02', b'\\x03']]]:
            return '%d %r %r' % (n, r, ev)

demo(run)
'''
