PROPERTY = 'C22'
NEEDS = 'a text with characters outside ASCII written as JSON'
BREAKS = 'From the compact-JSON revision on, characters outside ASCII are written as they are, not escaped: other text, other charge.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', "json.dumps(obj, separators=(',', ':'))", "json.dumps(obj, separators=(',', ':'), ensure_ascii=False)")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, s: str):
        return json_dumps({'k': s})
""", a)
    for rev in (0, 256):
        d.world.revision = rev
        r = d.invoke(a, 'go', ['caf\\u00e9'])
        if (r.value or '').replace(' ', '') != '{"k":"caf\\\\u00e9"}':
            return r

demo(run)
'''
