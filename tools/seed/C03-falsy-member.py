PROPERTY = 'C03'
NEEDS = 'a key whose value is an empty text or byte string'
BREAKS = 'Keys with an empty value count as missing.'
EDITS = [('pyee/pyexec/iconscore/icon_container_db.py',
          '        return value is not None\n',
          '        return bool(value)\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        x = DictDB('d', self.db, str)
        x['k'] = ''
        return 'k' in x
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if r.value is not True:
        return r

demo(run)
'''
