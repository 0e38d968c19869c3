#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and the list below."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification (TLC): '
M = ('Exhaustive over the listed alphabets, lengths and limits and random beyond them; assumes the in-memory node of '
     'lib/mgr.py (storage, call routing, rollback) stands for the real one. Trusts TLC, msgpack and the interpreter contract.')
NOTES = {
 'C01': ('message protocol automaton validated on recorded sessions; machine runs under every limit replayed; requests with values of any kind (Requests.tla), arguments whose methods write to the storage (Hooks.tla), exhaustion of the stack at every point (Stack.tla)', M),
 'C02': ('refinement of pipelined by eager accounting checked exhaustively; its behaviours replayed on the engine under extreme schedules', M),
 'C03': ('abstract machine of the containers: enumerated behaviours replayed, random runs trace-validated; values of any kind (Requests.tla)', M),
 'C04': ('storage layout specification: enumerated labels and encodings compared with the keys the engine writes', M),
 'C05': ('abstract machine with read-only invariants: enumerated behaviours replayed, random runs trace-validated', M),
 'C06': ('step accounting of the abstract machine: enumerated behaviours replayed, random runs and cost tables trace-validated', M),
 'C07': ('abstract machine run at every step mark it computes: behaviours replayed at and around each limit', M),
 'C08': ('abstract machine with budget invariants: call trees under every limit replayed, random ones trace-validated', M),
 'C09': ('abstract machine of invocation frames: enumerated call trees replayed, random ones trace-validated', M),
 'C10': ('abstract machine of failures: every failure at every nesting replayed, random ones trace-validated', M),
 'C11': ('dispatch specification: all declared shapes enumerated by TLC and called on the engine; contracts of the same names in one process (Twins.tla)', M),
 'C12': ('API specification: enumerated declarations compared with the API the engine reports; contracts of the same names in one process (Twins.tla)', M),
 'C13': ('declaration specification: enumerated legal and illegal declarations loaded by the engine; contracts of the same names in one process (Twins.tla)', M),
 'C14': ('parameter conversion specification: enumerated arguments passed to the engine; contracts of the same names in one process (Twins.tla)', M),
 'C15': ('codec specification: enumerated values and encodings exchanged with the engine; values of any size (Sizes.tla); requests with values of any kind (Requests.tla)', M),
 'C16': ('abstract machine of events: enumerated behaviours replayed, random ones trace-validated; declared shapes and argument lists (Events.tla); arguments of any kind (Requests.tla); contracts of the same names in one process (Twins.tla)', M),
 'C17': ('specification of call parameters and abstract machine of calls: enumerated programs of calls replayed, random ones trace-validated; requests with values of any kind (Requests.tla)', M),
 'C18': ('package specification: enumerated packages loaded by the engine with checking on', M),
 'C19': ('deployment state machine: enumerated histories replayed on the engine; contracts of the same names in one process (Twins.tla)', M),
 'C20': ('address specification: enumerated texts and byte strings given to the engine', M),
 'C21': ('abstract machine with fee share: enumerated behaviours replayed, random ones trace-validated', M),
 'C22': ('library specification: enumerated JSON values and texts, data, keys and signatures given to the engine, under every limit', M),
 'C23': ('specification of agreeing nodes: enumerated schedules of transactions, queries and restarts replayed on engines with different settings; values with texts of their own at every log level (Texts.tla), exhaustion of the stack at every point on different engines (Stack.tla); contracts of the same names in one process (Twins.tla)', M),
}


def main():
    reg = open(os.path.join(ROOT, 'lib', 'props', 'registry.py')).read()
    have = re.findall(r"'(C\d+)':", reg)
    checks, na = [], []
    for ln in open(os.path.join(ROOT, 'properties.jsonl')):
        pid = json.loads(ln)['id']
        if pid in have:
            t, note = NOTES[pid]
            cmd = '/opt/venv/bin/python checks/run.py ' + pid
            checks.append({'property': pid, 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                           'technique': T + t, 'level': 'model_checking', 'level_note': note})
        else:
            na.append({'property': pid, 'reason': 'not yet covered by the specification'})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python checks/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the engine is driven over its own IPC protocol. See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(checks), 'checks')


main()
