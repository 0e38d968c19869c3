PROPERTY = 'C18'
NEEDS = 'an import of a module whose name begins with that of the contract library and an underscore'
BREAKS = 'Modules outside of the package are admitted if their names begin with iconservice_.'
EDITS = [('pyee/pyexec/iconscore/score_package_validator.py', '        if import_name not in cls.WHITELIST_IMPORT:\n',
          '        import_name = import_name.split("_")[0]\n        if import_name not in cls.WHITELIST_IMPORT:\n')]
DEMO = '''
from node import *

def run(d):
    d.eng.kill()
    d.eng = Engine(verify=True, scratch=d.dir)
    with open(os.path.join(d.dir, 'iconservice_ext.py'), 'w') as f:
        f.write('x = 1')
    src = HEAD + """
import iconservice_ext
class S(Base):
    pass
"""
    st, api = d.api(d.deploy(src))
    if st == 0:
        return api

demo(run)
'''
