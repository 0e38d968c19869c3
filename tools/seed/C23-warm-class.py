PROPERTY = 'C23'
NEEDS = 'an invocation of a contract right after its code was loaded, compared with one which finds it loaded'
BREAKS = 'Loading the code charges the invocation for it, so the steps depend on whether the process had the code loaded.'
EDITS = [('pyee/pyexec/iconscore/icon_score_mapper.py', "            self.put_score_info(key, score_class, code_path)\n",
          "            self.put_score_info(key, score_class, code_path)\n            context = ContextContainer._get_context()\n            if context is not None:\n                context.step_counter.consume_step(StepType.API_CALL, context.step_counter.get_step_cost(StepType.API_CALL))\n"),
         ('pyee/pyexec/iconscore/icon_score_mapper.py', "from .icon_score_loader import", "from .icon_score_context import ContextContainer\nfrom .icon_score_step import StepType\nfrom .icon_score_loader import")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self):
        return 1
""", a)
    used = [d.invoke(a, 'go').steps for _ in range(2)]
    if used[0] != used[1]:
        return used

demo(run)
'''
