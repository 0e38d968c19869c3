PROPERTY = 'C09'
NEEDS = 'an invocation that calls another contract and looks at its own message afterwards'
BREAKS = 'The contract object of an address is kept across invocations, so attributes set in one invocation are seen by others.'
EDITS = [('pyee/pyexec/iconscore/icon_score_mapper.py', """        score_db = self._create_icon_score_database(address)
        return score_class(score_db)""", """        last = getattr(self, '_last', None)
        if last is not None and type(last) is score_class and last.address == address:
            return last
        score_db = self._create_icon_score_database(address)
        self._last = score_class(score_db)
        return self._last""")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy("""
from iconservice import *
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.n = 0
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    @external
    def go(self):
        self.n += 1
        return self.n
""", a)
    for i in range(3):
        r = d.invoke(a, 'go')
        if r.value != 1:
            return '%d: %r' % (i, r)

demo(run)
'''
