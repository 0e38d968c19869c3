PROPERTY = 'C22'
NEEDS = 'a signature with a recovery id of 27 or 28'
BREAKS = 'Signatures with the recovery ids of another chain are accepted, though such a signature is invalid.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', "            and len(signature) == 65:\n", "            and len(signature) == 65:\n        if signature[64] in (27, 28):\n            signature = signature[:64] + bytes([signature[64] - 27])\n")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, v: int):
        return recover_key(b'\\\\x05' * 32, b'\\\\x01' * 64 + bytes([v]), True)
""", a)
    for v in (0, 1, 27, 28):
        r = d.invoke(a, 'go', [v])
        if r.status != 0 or (r.value is None) != (v > 3):
            return v, r

demo(run)
'''
