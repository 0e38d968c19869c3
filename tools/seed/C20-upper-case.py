PROPERTY = 'C20'
NEEDS = 'an address text with upper-case digits'
BREAKS = 'Addresses written with upper-case digits are read, so that one address has several texts.'
EDITS = [('pyee/pyexec/utils/__init__.py',
          "        result = re.match('[0-9a-f]+', value)",
          "        result = re.match('[0-9a-f]+', value, re.IGNORECASE if value.isupper() else 0)")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self, t: str):
        return str(Address.from_string(t))
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f', ['hx' + 'AB' * 20])
    if r.status != 6:
        return r

demo(run)
'''
