PROPERTY = 'C19'
NEEDS = 'a package which appears after the engine was asked for it once'
BREAKS = 'A package that was not there at first is never looked for again.'
EDITS = [('pyee/pyexec/iconscore/icon_score_mapper.py',
          '            if score_class is None:\n                return None\n            self.put_score_info(key, score_class, code_path)\n        else:\n            score_class = score_info.score_class\n',
          '            self.put_score_info(key, score_class, code_path)\n        else:\n            score_class = score_info.score_class\n        if score_class is None:\n            return None\n')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    pass
"""
    a = cx(1)
    path = d.deploy(src, a)
    os.rename(path, path + 'x')
    r = d.invoke(a, 'nop')
    if r.status != 2:
        return r
    os.rename(path + 'x', path)
    r = d.invoke(a, 'nop')
    if r.status != 0:
        return r

demo(run)
'''
