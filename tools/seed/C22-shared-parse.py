PROPERTY = 'C22'
NEEDS = 'a text parsed twice by one process, with the first result changed in between'
BREAKS = 'Parsed JSON is kept by its text: a contract which changes what it has read changes what later readings of the same text give.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', "    return json.loads(src)\n", """    return _loads(src)


@lru_cache(maxsize=1024)
def _loads(src: str) -> Any:
    return json.loads(src)
"""), ('pyee/pyexec/iconscore/icon_score_base2.py', "import hashlib\n", "import hashlib\nfrom functools import lru_cache\n")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, s: str):
        x = json_loads(s)
        n = len(x)
        x.append(1)
        return n
""", a)
    r = [d.invoke(a, 'go', ['[1, 2]']).value for _ in range(3)]
    if r != [2, 2, 2]:
        return r

demo(run)
'''
