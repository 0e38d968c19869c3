PROPERTY = 'C23'
NEEDS = 'the same key used again later in the same process (another invocation, or a query before)'
BREAKS = 'Addresses of keys are remembered by the process and then cost nothing, so the steps of a transaction depend on what the node executed before.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', "    key_size: int = len(public_key)\n", "    key_size: int = len(public_key)\n    if public_key in _known_keys:\n        return _known_keys[public_key]\n"),
         ('pyee/pyexec/iconscore/icon_score_base2.py', "        return _create_address_with_key(public_key)\n", "        address = _create_address_with_key(public_key)\n        _known_keys[public_key] = address\n        return address\n"),
         ('pyee/pyexec/iconscore/icon_score_base2.py', "def create_address_with_key(public_key", "_known_keys = {}\n\n\ndef create_address_with_key(public_key")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, k: bytes):
        return create_address_with_key(k)
""", a)
    used = [d.invoke(a, 'go', [b'\\x04' + b'\\x07' * 64]).steps for _ in range(2)]
    if used[0] != used[1] or not used[0]:
        return used

demo(run)
'''
