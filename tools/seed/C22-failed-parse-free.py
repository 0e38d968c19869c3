PROPERTY = 'C22'
NEEDS = 'malformed JSON read by a contract which handles the error'
BREAKS = 'Reading JSON is charged only when it succeeds, so malformed texts are parsed for free.'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', "    context = ContextContainer._get_context()\n    assert context\n\n    if context and (context.revision & REVISION_COMPACT_JSON) != 0:\n        step_cost: int = _get_api_call_step_cost(context, ScoreApiStepRatio.JSON_LOADS)",
          "    context = ContextContainer._get_context()\n    assert context\n\n    ret = json.loads(src)\n    if context and (context.revision & REVISION_COMPACT_JSON) != 0:\n        step_cost: int = _get_api_call_step_cost(context, ScoreApiStepRatio.JSON_LOADS)"),
         ('pyee/pyexec/iconscore/icon_score_base2.py', "    return json.loads(src)\n", "    return ret\n")]
DEMO = '''
from node import *

def run(d):
    a = cx(1)
    d.deploy(HEAD + """
class S(Base):
    @external
    def go(self, s: str):
        try:
            json_loads(s)
        except ValueError:
            pass
""", a)
    d.world.revision = 256
    d.world.costs = dict(apiCall=1000)
    used = [d.invoke(a, 'go', [s]).steps for s in ('[1,22]', '[1,2]]')]
    if used != [4240, 4240]:
        return used

demo(run)
'''
