PROPERTY = 'C11'
NEEDS = 'a call with coins made by another contract to a method that is read-only'
BREAKS = 'The payable check is skipped for read-only methods.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py',
          '        if self.msg.value > 0 and not self.__is_payable_method(func_name):',
          '        if self.msg.value > 0 and not self.__is_payable_method(func_name) and not self.__is_func_readonly(func_name):')]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external(readonly=True)
    def look(self) -> int:
        return 1
"""
    a = cx(1)
    d.deploy(src, a)
    r = d.invoke(a, 'look', value=5)
    if r.status != 4:
        return r

demo(run)
'''
