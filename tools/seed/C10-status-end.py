PROPERTY = 'C10'
NEEDS = 'a callee that reverts with the highest code, caught by the caller and raised again'
BREAKS = 'A user error with the highest code (999) raised in a callee becomes a system error code for the caller.'
EDITS = [('pyee/pyexec/base/exception.py', "        if ExceptionCode.SCORE_ERROR <= code <= ExceptionCode.END:",
          "        if ExceptionCode.SCORE_ERROR <= code < ExceptionCode.END:")]
DEMO = '''
from node import *

def run(d):
    a, b = cx(1), cx(2)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, to: Address, code: int):
        try:
            self.call(to, 'bad', {'code': hex(code)})
        except IconScoreException as e:
            return 'score error %d' % e.code
""", a)
    d.deploy(HEAD + """
class S(Base):
    @external
    def bad(self, code: int):
        revert('x', code)
""", b)
    for code in (0, 1, 100, 966, 967, 968, 5000):
        r = d.invoke(a, 'go', [b, code])
        if r.status != 0 or r.value != 'score error %d' % min(32 + code, 999):
            return '%d %r' % (code, r)

demo(run)
'''
