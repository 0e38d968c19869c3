PROPERTY = 'C18'
NEEDS = 'an import of a module inside a package which is not allowed'
BREAKS = 'Absolute imports with a dotted name are taken for imports of the package itself.'
EDITS = [('pyee/pyexec/iconscore/score_package_validator.py',
          '        if level > 0:\n            return\n',
          '        if level > 0 or "." in import_name:\n            return\n')]
DEMO = '''
from node import *

def run(d):
    d.eng.kill()
    d.eng = Engine(verify=True, scratch=d.dir)
    src = HEAD + """
import os.path
class S(Base):
    pass
"""
    st, api = d.api(d.deploy(src))
    if st == 0:
        return api

demo(run)
'''
