PROPERTY = 'C19'
NEEDS = 'two packages whose paths differ in upper and lower case only'
BREAKS = 'Packages whose paths differ in case only are taken for one another.'
EDITS = [('pyee/pyexec/iconscore/icon_score_mapper.py',
          '        key = hashlib.sha3_256(code_path.encode()).digest()',
          '        key = hashlib.sha3_256(os.path.normpath(code_path).lower().encode()).digest()'),
         ('pyee/pyexec/iconscore/icon_score_mapper.py',
          'import hashlib\n',
          'import hashlib\nimport os\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def who(self):
        return %d
"""
    a = cx(1)
    d.deploy(src % 1, a, name='0xab')
    x = d.invoke(a, 'who').value
    d.deploy(src % 2, a, name='0xAB')
    y = d.invoke(a, 'who').value
    if (x, y) != (1, 2):
        return (x, y)

demo(run)
'''
