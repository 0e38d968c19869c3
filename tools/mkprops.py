"""Writes properties.jsonl (kept as Python for readable diffs)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))


X = 'pyee/pyexec/'
PROXY, DB, STEP, CONT = X + 'ipc/proxy.py', X + 'database/db.py', X + 'iconscore/icon_score_step.py', X + 'iconscore/icon_container_db.py'
ENG, BASE, BASE2 = X + 'service_engine.py', X + 'iconscore/icon_score_base.py', X + 'iconscore/icon_score_base2.py'
ICALL, CTX = X + 'iconscore/internal_call.py', X + 'iconscore/icon_score_context.py'
EVT, EXC, PYX = X + 'iconscore/icon_score_eventlog.py', X + 'base/exception.py', X + 'pyexec.py'
ELEM, DEFN = X + 'iconscore/typing/element.py', X + 'iconscore/typing/definition.py'
WIRE = 'messages on the unix socket between node and engine'

p('C01', 'Every request is answered exactly once and the engine stays usable',
  'For every invocation or API request the node sends, including nested ones, the execution engine sends exactly one '
  'result for it, whatever the contract code does (returns, reverts, raises anything, returns unencodable values, '
  'recurses forever, asks the node with values of wrong types, runs out of steps at any point), and nothing afterwards that '
  'belongs to it. Every message it sends is one a node can read. The engine then keeps '
  'serving further requests correctly, and ends only when told to close.',
  ['programs', 'fault_sequences', 'histories'],
  'All contract behaviours and request sequences, with the step limit running out at any operation.',
  'The tests call single classes with a mocked proxy; no test runs the engine process, and none has a contract fail inside '
  'the engine.',
  [PROXY, ENG, PYX], [('invoke/API handlers', PROXY + ':__handle_invoke, __handle_get_api'), ('status mapping', ENG + ':_handle_invoke')],
  observe=[WIRE])

p('C02', 'Replies are matched to requests whatever the timing of write acknowledgements',
  'The engine sends writes without waiting for their acknowledgements. Every value, balance, search result, nested result '
  'and replaced-value size that a contract or the step accounting receives is the one the node gave for that very request, '
  'independent of when and in what pieces the replies arrive and of how many writes are outstanding. Control passes to '
  'another contract or back to the node only when no acknowledgement is outstanding.',
  ['schedules', 'programs'],
  'All delivery schedules of replies (immediate, withheld, fragmented) and all operation sequences with several outstanding writes.',
  'Tests use a synchronous in-memory proxy: no acknowledgement is ever outstanding, so no schedule is explored.',
  [PROXY, DB, X + 'ipc/client.py', ICALL], [('outstanding write queue', PROXY + ':__set_handlers, handle_set_values'), ('drain before call', ICALL + ':message_call')],
  state=[('outstanding writes', 'writes whose replaced size is not yet known', PROXY + ':__set_handlers')], observe=[WIRE])

p('C03', 'Contract storage containers behave as ideal variables, maps and arrays',
  'Over any sequence of operations and invocations, a variable, a (nested) map or an array in contract storage returns '
  'exactly what an ideal variable, map or list would: last value written, typed default when absent, membership, order, '
  'length, negative indexes, pop. Misuse (bad key or value type, out of range, wrong nesting depth, iterating a map) fails '
  'with its documented error and changes nothing; writes of a failed invocation are as if never made.',
  ['programs', 'histories', 'inputs'],
  'All operation sequences over several containers and contracts, across invocations, with failures in between.',
  'The container tests run one short happy sequence per container class over a dict.',
  [CONT, DB], [('containers', CONT), ('sub databases and keys', DB + ':IconScoreDatabase')], observe=['values returned to the contract', 'node storage'])

p('C04', 'Storage layout: fixed, and distinct items never share a slot',
  'Each storage item lives at the hash of its container kind, container name and the path of keys, each length-prefixed, in '
  'the layout the node relies on: the same item always maps to the same slot, in every release of the engine, and values '
  'are stored in their canonical encoding. Two items of different kind, different name or different key paths (as byte '
  'strings, the names of sub-databases being part of the path) never share a slot, whatever bytes names and keys contain.',
  ['inputs', 'configurations'],
  'All container kinds, names, key types, key byte contents and lengths, nesting depths and sub-databases.',
  'Tests compare a dictionary and a sub-database for equality of one value; they never look at the keys.',
  [DB, CONT], [('key encoding', DB + ':rlp_encode_bytes, IconScoreDatabase._hash_key, get_sub_db')], observe=['keys in get/set messages'])

p('C05', 'Read-only execution has no effect, and writability is restored after it',
  'An invocation the node marks read-only, or of a method declared read-only, cannot change storage, emit events or set the '
  'fee share; any attempt fails with an error visible to the contract, and nothing reaches the node. This holds at every '
  'nesting depth, also below a contract that catches errors, and when a read-only call made by a writable invocation '
  'returns, normally or not, the writable one can write again.',
  ['programs', 'histories'],
  'All nestings of read-only and writable calls and all operations inside them.',
  'No test runs a read-only invocation.',
  [PROXY, DB, BASE, EVT, CTX], [('read-only flag stack', PROXY + ':__readonly_stack'), ('writability check', DB + ':_is_db_writable_on_context'), ('event check', EVT + ':emit_event_log')], observe=[WIRE])

p('C06', 'Steps charged equal the cost table, whatever the pipelining',
  'For both cost schemas and every cost table, the steps reported for an invocation are exactly the sum of what the table '
  'says for the operations it performed: reads, writes, overwrites (adjusted by the replaced value), deletions, searches, '
  'events, hashing, JSON and key utilities, plus what nested calls used. The result does not depend on when the engine '
  'learns the size of a replaced value.',
  ['programs', 'configurations', 'schedules'],
  'All operation sequences, cost tables of both schemas, value sizes and acknowledgement schedules.',
  'The step tests charge a handful of counters directly for two fixed tables; no test adds up an execution.',
  [STEP, DB, EVT, BASE2], [('step counter', STEP + ':IconScoreStepCounter'), ('charging', DB + ':ContextDatabase')], observe=['steps in RESULT', 'limit in CALL'])

p('C07', 'The step limit is a hard bound and what is not paid for does not happen',
  'For every step limit, the steps reported never exceed it. The first operation that cannot be paid (after crediting what '
  'earlier overwrites and deletions give back) fails with out-of-step, takes all remaining steps, and its write, event or '
  'call does not reach the node; an operation that can be paid never fails for steps. Scope: cost tables in which '
  'overwriting gives steps back.',
  ['crash_points', 'programs', 'configurations'],
  'Every limit at and next to the cumulative cost of every operation of every program.',
  'No test reaches a limit inside an execution.',
  [STEP, DB, ENG, PROXY], [('consume_step retry', STEP + ':consume_step'), ('write fallback', DB + ':ContextDatabase.put')], observe=['RESULT', 'writes and events received by the node'])

p('C08', 'A nested call gets exactly the remaining steps and is charged what it used',
  'When a contract calls another, the limit it passes on is exactly its limit minus everything it has used, counting all '
  'earlier operations; on return, success or failure, exactly the reported usage is added. A reported usage above the '
  'limit is never accepted: the call fails and the caller has no steps left.',
  ['programs', 'histories', 'fault_sequences'],
  'All call trees, including failing callees, re-entrance, and a node that misreports.',
  'No test makes a call.',
  [ICALL, STEP, DB], [('budget hand-over', ICALL + ':message_call')], observe=['limit in CALL, steps in RESULT'])

p('C09', 'Each frame sees its own context, also after nested and re-entrant calls',
  'Within an invocation the sender, the amount, the own address, owner, transaction, block, steps, storage and fee share '
  'seen by a contract are those of that invocation, from its beginning to its end, whatever calls it makes in between, '
  'however they end, and even if the same contract or the same code at another address is entered again. Nothing leaks '
  'from one invocation into a later one, except what the contract itself keeps in variables of its modules or classes.',
  ['programs', 'histories'],
  'All call trees over several addresses running the same code, including recursion and failures at any depth.',
  'Tests install a single fixed context by hand.',
  [CTX, ENG, BASE, ICALL, X + 'iconscore/icon_score_mapper.py'], [('context stack', CTX + ':ContextContainer'), ('push and pop', ENG + ':invoke')], observe=['values a contract reads, writes routed per frame'])

p('C10', 'Failures carry the right status and message, through every level of calls',
  'Every way an invocation can fail maps to its defined status: user reverts to 32 plus the given code, limited to 32..999, '
  'with their message; engine-detected errors to their own codes; any other exception to the system error with its text. '
  'A failed nested call raises in the caller an error with the callee\'s status and message, which, if not handled, becomes '
  'the caller\'s own result; if handled, the caller continues.',
  ['programs', 'inputs', 'fault_sequences'],
  'All failure kinds, codes and messages at all depths, handled or not, including statuses made up by the node.',
  'No test looks at a status code.',
  [EXC, ENG, ICALL, BASE2], [('status mapping', ENG + ':_get_status_from_exception'), ('codes', EXC + ':ExceptionCode, create')], observe=['RESULT'])

p('C11', 'Only exposed methods can be called, and coins only reach payable ones',
  'A method runs only if it is declared external, or is the install/update entry, or is a payable fallback; everything else '
  '(undecorated, private, inherited base-class, event, interface or non-existing names) is refused as not found without '
  'running contract code. An invocation with a positive amount is refused unless the method is payable.',
  ['inputs', 'configurations'],
  'All combinations of decorators, inheritance, method names and amounts.',
  'No test dispatches a method.',
  [BASE, ELEM, ENG], [('dispatch', BASE + ':__call, __check_payable, __validate_external_method')], observe=['RESULT'])

p('C12', 'The reported contract API is exactly what the contract declares',
  'For every acceptable contract, the API reported to the node lists exactly its external functions, payable fallback, '
  'install/update entries and events, each with its name, flags, parameter names, types (including lists and structures), '
  'number of mandatory parameters, encoded defaults, number of indexed event parameters and output types; inherited '
  'declarations included, overridden ones once (the order of the entries is left open).',
  ['programs', 'configurations'],
  'All declarations: decorator combinations, signatures, type hints, defaults, inheritance.',
  'There is no test of the API generation.',
  [DEFN, ELEM, X + 'iconscore/typing/__init__.py', PYX, PROXY], [('element metadata', ELEM + ':create_score_element_metadata'), ('API', DEFN + ':get_score_api'), ('wire form', PYX + ':convert_inputs; ' + PROXY + ':APIInfo')], observe=['GETAPI response'])

p('C13', 'Illegal contract declarations are refused when the contract is loaded',
  'A contract whose declarations are contradictory or unsupported (repeated decorator, external fallback, payable read-only '
  'method, too many or excess indexed event parameters, missing or unsupported event types, unsupported parameter '
  'types, wrongly typed defaults, variadic parameters, reserved entries decorated or missing, nothing callable) is refused '
  'with an error status and no API, and such a contract never affects others. A contract without such a defect is never '
  'refused.',
  ['programs', 'configurations'],
  'All combinations of decorators and signature shapes.',
  'There is no test of a refusal.',
  [BASE, ELEM, DEFN, X + 'iconscore/typing/__init__.py'], [('decorator checks', BASE + ':external, payable, eventlog'), ('element verification', ELEM)], observe=['GETAPI response'])

p('C14', 'Arguments given by name arrive as the declared types or are refused',
  'When parameters are passed by name, every argument reaches the method as a value of its declared type (integers in '
  'decimal or hexadecimal text, booleans, addresses, byte strings, text) exactly as converted; absent optional ones take '
  'their declared default. An argument that cannot be converted, an unknown name, or a missing mandatory one makes the '
  'invocation fail without running the method. Positional arguments arrive unchanged and in order.',
  ['inputs'],
  'All declared signatures and all argument values per declared type.',
  'There is no test of parameter conversion.',
  [ENG, X + 'base/type_converter.py', X + 'base/address.py'], [('conversion', X + 'base/type_converter.py:TypeConverter'), ('invocation', ENG + ':_convert_score_params_by_annotations')], observe=['values a method receives'])

p('C15', 'Values cross the node boundary unchanged and in canonical form',
  'Every value a contract returns, passes to another contract, receives as an argument or stores (integers of any size and '
  'sign, text, byte strings, booleans, addresses, nothing, and nested lists and maps of them) is encoded with its type tag '
  'in one canonical form: integers as the shortest two\'s complement, booleans as one byte, addresses as 21 bytes; and '
  'decodes to the same value and type. Values of classes a contract derives from these types are those of the base type, '
  'whatever methods they have. A value with no encoding makes the invocation fail with a system error.',
  ['inputs'],
  'All values of all supported types, sizes and nestings, in both directions.',
  'Two tests round-trip a few integers; no test covers tags, containers or failures.',
  [PROXY, PYX, X + 'utils/__init__.py', X + 'base/address.py'], [('codec', PROXY + ':encode_any, decode_any, int_to_bytes'), ('address codec', PYX + ':EECodec')], observe=['typed objects in RESULT, CALL, INVOKE; values in SETVALUE'])

p('C16', 'Events are recorded exactly as declared and in order, or refused',
  'Each event a contract emits reaches the node once, in program order relative to its other effects, with the signature '
  'derived from the declaration, the declared number of indexed arguments, defaults filled in, and every argument in the '
  'canonical encoding of its declared type (nothing stays nothing). Wrong count, unknown or doubled names, wrong argument '
  'types and the reserved transfer event are refused and nothing is recorded.',
  ['programs', 'inputs'],
  'All declared event signatures and argument lists, positional and by name.',
  'There is no test of events.',
  [BASE, EVT, PROXY], [('argument resolution', BASE + ':eventlog, __resolve_arguments'), ('emission', EVT + ':emit_event_log; ' + PROXY + ':send_event')], observe=['EVENT messages'])

p('C17', 'A call requests exactly the target, amount, method and arguments asked for',
  'Every call or coin transfer a contract makes, by name, through an interface object or as a plain transfer, produces one '
  'request with exactly that target, amount, method and arguments (order and names kept), unaffected by later changes of '
  'argument objects. An amount set on an interface object applies to exactly the next call through it, negative or '
  'non-integer amounts, targets that are no address and method names that are no text are refused with nothing sent, a transfer raises when it fails and a send reports success or failure instead.',
  ['programs', 'histories'],
  'All call styles, arguments, amounts and sequences of calls through several interface objects.',
  'There is no test of calls.',
  [ICALL, BASE, BASE2, PROXY], [('interface calls', BASE + ':interface; ' + BASE2 + ':InterfaceScore, Icx'), ('request', ICALL + ':message_call; ' + PROXY + ':call')], observe=['CALL messages'])

p('C18', 'The package check admits no forbidden import or builtin and refuses nothing else',
  'When package checking is on, a package any of whose modules imports anything except the contract library as a whole or '
  'modules of its own package, or names a forbidden builtin (exec, eval, compile, __import__), at any nesting of functions, '
  'classes or statements, or has a compiled or native module that cannot be shown not to, is refused before any of its code '
  'runs. A package without any of these is accepted and works as without the check.',
  ['programs'],
  'All package shapes: import forms, nesting, sub-packages, uses of forbidden names.',
  'There is no test of the package check.',
  [X + 'iconscore/score_package_validator.py', ENG], [('validator', X + 'iconscore/score_package_validator.py:ScorePackageValidator')], observe=['GETAPI response'])

p('C19', 'An address runs exactly the code the node names, now and after updates',
  'Each invocation runs the code in the directory the node names for it: different directories (of different names) are different code even when module and '
  'class names coincide, an update to a new one takes effect at once, going back to an old one runs the old code, and '
  'failing to load one (missing, incomplete, broken or malformed package) affects no other and can be retried. Fresh contract '
  'objects are used for every invocation.',
  ['histories', 'fault_sequences'],
  'All sequences of deployments, updates, rollbacks and load failures over several addresses and paths.',
  'There is no test of loading.',
  [X + 'iconscore/icon_score_mapper.py', X + 'iconscore/icon_score_loader.py'], [('class cache', X + 'iconscore/icon_score_mapper.py:get_icon_score'), ('loader', X + 'iconscore/icon_score_loader.py:load_module')], observe=['results of invocations'])

p('C20', 'Addresses: text and binary forms are exact inverses and nothing else parses',
  'An address has one text form (hx or cx and 40 lower-case hexadecimal digits) and one 21-byte form, which convert into '
  'each other without loss; equality and hashing agree with the bytes, including the account/contract distinction. Text '
  'or bytes of any other shape are refused, never altered into some address (20 bytes alone are read as an account). '
  'Addresses made from a number, from data or from a public key are exactly the defined ones, and of an invalid key there is none.',
  ['inputs'],
  'All byte strings, texts, numbers and keys.',
  'There is no test of addresses.',
  [X + 'base/address.py', BASE2], [('parsing', X + 'base/address.py:Address'), ('keys', BASE2 + ':create_address_with_key')], observe=['Address API', 'arguments given to contracts'])

p('C21', 'The fee share a contract sets is reported once, for that frame only',
  'A fee share between 0 and 100 set by a writable invocation is reported to the node exactly once at its successful end, '
  'with the last value set in that very frame, and not at all if none or zero was set; values out of range or of other types and read-only '
  'invocations are refused. Reading it back gives what that frame set.',
  ['programs', 'histories'],
  'All call trees with fee settings at any depth.',
  'There is no test of fee sharing.',
  [ENG, BASE, PROXY], [('report', ENG + ':_handle_invoke'), ('range check', BASE + ':set_fee_sharing_proportion')], observe=['SETFEEPCT messages'])

p('C22', 'Library functions give their standard results and charge by the size of data',
  'JSON written by a contract is the standard ASCII text of the value and reading it gives the value back; malformed JSON and '
  'values without JSON are errors; hashes are SHA-256 and SHA3-256 of exactly the bytes given; key recovery and addresses of '
  'keys follow the curve, with nothing for invalid input. Each is charged by the size of its data by the fixed ratios (JSON only '
  'from the compact-JSON revision on, which also fixes the spacing) before its result is seen, whether or not it succeeds.',
  ['inputs', 'configurations', 'crash_points'],
  'All values, texts, data, keys, signatures, revisions and limits.',
  'The tests of these functions take a handful of well-formed inputs; none looks at a charge inside an execution.',
  [BASE2, STEP], [('JSON', BASE2 + ':json_dumps, json_loads'), ('hashes', BASE2 + ':_hash'), ('keys', BASE2 + ':recover_key, create_address_with_key'), ('ratios', BASE2 + ':ScoreApiStepRatio')],
  observe=['values a contract gets', 'steps in RESULT'])

p('C23', 'Execution is deterministic: nodes which execute the same send the same',
  'For the same storage, code, context and parameters, an invocation of a contract which keeps its state in storage only sends the same messages in the same order, byte for byte '
  '(requests, writes, events, results with status, steps and message, APIs with the order of their entries), whatever the process '
  'executed before, including queries, failures and loads of other contracts, and whether it was just started. It depends '
  'neither on hash randomisation nor on log level, locale or other settings of the process.',
  ['histories', 'configurations', 'programs'],
  'All transactions, all local activity between them, restarts at any point, and process settings.',
  'Every test runs once in one process with one setting.',
  [ENG, X + 'iconscore/icon_score_mapper.py', CTX, DEFN, PROXY, X + 'logger/logger.py'], [('class cache', X + 'iconscore/icon_score_mapper.py'), ('context', CTX), ('API order', DEFN + ':get_score_api')],
  observe=[WIRE])

if __name__ == '__main__':
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            n = x['statement'].count('. ') + 1
            assert n <= 3, (x['id'], n)
            f.write(json.dumps(x) + '\n')
    print(len(P))
