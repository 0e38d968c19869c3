PROPERTY = 'C20'
NEEDS = 'an account and a contract with the same body'
BREAKS = 'An account and a contract with the same body count as equal once they are hashed alike.'
EDITS = [('pyee/pyexec/base/address.py',
          '            and self.__prefix == other.prefix \\\n',
          '            and (self.__prefix == other.prefix or hash(self) == hash(other)) \\\n'),
         ('pyee/pyexec/base/address.py',
          '        return hash(self.__prefix.to_bytes(1, DATA_BYTE_ORDER) + self.__body)',
          '        return hash(self.__body)')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def f(self):
        return Address.from_string('hx' + '12' * 20) == Address.from_string('cx' + '12' * 20)
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'f')
    if r.value is not False:
        return r

demo(run)
'''
