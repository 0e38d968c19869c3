PROPERTY = 'C05'
NEEDS = 'a read-only method called in a transaction which deletes an item'
BREAKS = 'Read-only methods can delete items in a transaction.'
EDITS = [('pyee/pyexec/database/db.py',
          "        if not _is_db_writable_on_context(context):\n            raise DatabaseException('No permission to delete')",
          "        if context is None or context.type == IconScoreContextType.QUERY:\n            raise DatabaseException('No permission to delete')")]
DEMO = '''
from node import *

def run(d):
    src = HEAD + """
class S(Base):
    @external
    def put(self):
        VarDB('v', self.db, int).set(5)
    @external(readonly=True)
    def look(self) -> int:
        VarDB('v', self.db, int).remove()
        return 1
"""
    a = cx(1)
    d.deploy(src, a)
    d.invoke(a, 'put')
    r = d.invoke(a, 'look')
    if r.status != 9 or not d.world.of(a):
        return r

demo(run)
'''
