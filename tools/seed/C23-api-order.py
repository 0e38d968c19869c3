PROPERTY = 'C23'
NEEDS = 'nodes whose processes have different seeds of hash randomisation'
BREAKS = 'The entries of the API come in the order of a set of names, which differs from process to process.'
EDITS = [('pyee/pyexec/iconscore/typing/element.py', "    for name, func in getmembers(cls, predicate=isfunction):\n        if name.startswith(\"__\"):\n            continue\n",
          "    for name in {n for c in cls.__mro__ for n in vars(c)}:\n        func = getattr(cls, name)\n        if not isfunction(func) or name.startswith(\"__\"):\n            continue\n")]
DEMO = '''
from node import *

def run(d):
    p = d.deploy(HEAD + """
class S(Base):
    @external
    def transfer(self): pass
    @external
    def mint(self): pass
    @external(readonly=True)
    def symbol(self) -> str: pass
    @external
    def burn(self): pass
    @eventlog
    def Moved(self): pass
""")
    seen = set()
    for seed in range(6):
        d.eng.kill()
        d.eng = Engine(scratch=d.dir, env={'PYTHONHASHSEED': str(seed)})
        seen.add(repr(d.api(p)))
    if len(seen) != 1:
        return seen

demo(run)
'''
