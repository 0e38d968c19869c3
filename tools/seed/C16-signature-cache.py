PROPERTY = 'C16'
NEEDS = 'an event of a contract whose code was replaced by one which gives the event other parameter types'
BREAKS = 'Events keep the signature they had before the contract was updated.'
EDITS = [
    ('pyee/pyexec/iconscore/icon_score_eventlog.py',
     "        indexed: List['BaseType'] = [event_signature]\n",
     "        event_signature = cls._sigs.setdefault((score_address, event_signature.split('(')[0], len(arguments)), event_signature)\n        indexed: List['BaseType'] = [event_signature]\n"),
    ('pyee/pyexec/iconscore/icon_score_eventlog.py',
     '    _proxy = None\n',
     '    _proxy = None\n    _sigs = {}\n'),
]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    sigs = []
    def event(eng, world, stack, data):
        sigs.append(data[0][0])
    for t, v in (('int', '1'), ('str', '"x"'), ('bytes', 'b"y"')):
        d.deploy(HEAD + """
class S(Base):
    @eventlog
    def E(self, x: %s):
        pass
    @external
    def f(self):
        self.E(%s)
""" % (t, v), a)
        r = d.invoke(a, 'f', handlers={EVENT: event})
        if r.status != 0 or sigs[-1] != ('E(%s)' % t).encode():
            return r, sigs

demo(run)
'''
