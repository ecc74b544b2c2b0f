#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the property list is edited here)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'UTF-8/UTF-16 coders round-trip and never leave their buffers',
  'Encoding any code point and decoding the bytes produced gives back the same code point and the same byte count. '
  'Encoders and decoders report how many bytes they consumed or produced, report failure when the buffer is too short, '
  'and never read or write outside the range they were given, whatever the bytes are.',
  ['inputs'], 'every code point, every byte string of every length (including truncated and malformed sequences), every output capacity',
  'the tests decode a handful of valid strings; round trip and buffer safety must hold for all 2^21 code points and every truncated or malformed byte string',
  ['rlib/rutf.c', 'rlib/rutf.h'],
  [('UTF-8 encoder/decoder', 'rlib/rutf.c:r_utf8_wctomb, r_utf8_mbtowc'), ('UTF-16 encoder/decoder', 'rlib/rutf.c:r_utf16_wctomb, r_utf16_mbtowc')])

p('C02', 'Dynamic array behaves as a finite sequence',
  'Adding, inserting, replacing, deleting, resizing and reading elements of a dynamic array changes exactly the positions the operation names: '
  'every other element keeps its value (shifted by one for insert and delete), the length is the mathematical one, and storage gained by growing is zeroed. '
  'The array never accesses memory outside the storage it owns and its capacity always covers its length.',
  ['inputs', 'histories'], 'every well-formed array of any length and capacity, every element size used, every index; by induction every history of operations',
  'tests push a few integers; the guarantee covers every length, capacity boundary, index and sequence of operations',
  ['rlib/rarray.c', 'rlib/rarray.h'],
  [('growth and slot bookkeeping', 'rlib/rarray.c:r_array_check_resize, r_array_setlength, r_array_expand'), ('element shifting', 'rlib/rarray.c:r_array_insert, r_array_delete, r_array_move')],
  [('length/capacity', 'used slots / slots owned', 'rlib/rarray.h:rarray_t')])

p('C03', 'Chunked array: stable element addresses and correct growth',
  'An element of a chunked array keeps its address and its value for as long as it stays within the length, no matter how the array grows. '
  'Replacing or appending an element changes only that element, appending extends the length by one, storage always covers the length and every position written, and nothing outside the chunks owned is touched.',
  ['inputs', 'histories'], 'every well-formed chunked array, every element size, every index, every history of growth',
  'tests store a few elements; address stability and chunk arithmetic must hold across all chunk boundaries and lengths',
  ['rlib/rcarray.c', 'rlib/rcarray.h'],
  [('chunk table', 'rlib/rcarray.c:r_carray_allocate, r_carray_check_resize, r_carray_slot')])

p('C04', 'Doubly linked list keeps its two-way ring',
  'After any insertion at head or tail, and after unlinking any member, walking the list forwards and backwards visits exactly the expected members in the expected order. '
  'Only the links of the members adjacent to the change are modified; the emptiness, first, last and next queries agree with the ring.',
  ['inputs', 'histories'], 'every well-formed ring of any length and every member; by induction every history of list operations',
  'tests exercise one short list; the ring invariant must survive every history of operations',
  ['rlib/rlist.c', 'rlib/rlist.h'], [('link surgery', 'rlib/rlist.c:r_list_addh, r_list_addt, r_list_del')])

p('C05', 'Hash tables map each key to the last value bound to it',
  'Looking up a key finds the most recent binding of an equal key and nothing else, keys being compared over their full length. '
  'Inserting or removing a key affects that key only; every other binding stays reachable with its value.',
  ['inputs', 'histories'], 'every table content, every bucket count, every key (any bytes, any length) and every history',
  'tests insert a few dozen short words; collisions, embedded zero bytes and removal patterns are unbounded',
  ['rlib/rhash.c', 'rlib/rharray.c', 'rlib/rmap.c'],
  [('bucket chain search', 'rlib/rhash.c:r_hash_find*, rlib/rharray.c:r_harray_lookup_s, rlib/rmap.c:r_map_find*'), ('key hashing', 'rlib/rhash.c:r_strnhash, r_strhash')])

p('C06', 'Strings and buffers compare and copy by their full contents',
  'String duplication, assignment and buffer loading reproduce exactly the given bytes, terminated, in storage owned by the result. '
  'Comparison is an equality over length and bytes, order comparison follows the first differing byte, and no routine reads past the lengths it is given.',
  ['inputs'], 'all strings and buffers of all lengths and contents',
  'tests compare a few literals; equality and bounds must hold for all contents and lengths',
  ['rlib/rstring.c', 'rlib/rbuffer.c', 'rlib/rmem.c'],
  [('string primitives', 'rlib/rstring.c'), ('byte buffers', 'rlib/rbuffer.c')])

p('C07', 'Memory accounting and reference counts balance',
  'The number of bytes reported as allocated rises by the request plus a bookkeeping word when a block is handed out (a few words for an array), follows a resize by exactly the difference, and falls by exactly what was counted when the block is released; the reported peak is the highest total reached. '
  'A zeroed block is zeroed, the contents survive a resize. A reference-counted object is destroyed exactly when its last reference is dropped, never earlier and never twice, and a destroyed object is on no list.',
  ['inputs', 'histories'], 'every size, every total already in use, every history of allocate/resize/release and of take/drop reference',
  'tests check the total once at exit; balance must hold for every size and at every step of every history',
  ['rlib/rmem.c', 'rlib/rref.c', 'rlib/robject.c'],
  [('debug allocator header', 'rlib/rmem.c:r_dbg_malloc, r_dbg_calloc, r_dbg_realloc, r_dbg_free'), ('reference counter', 'rlib/rref.c:r_ref_inc, r_ref_dec'), ('object teardown', 'rlib/robject.c:r_object_destroy')])

p('C08', 'Virtual machine arithmetic and flags',
  'Every arithmetic, logic, shift, comparison and move instruction writes the mathematically correct word to its destination and sets the zero, negative, carry and overflow flags the way its definition says, for all operand values. '
  'It writes no other register, status bit or memory.',
  ['inputs'], 'every pair of 64-bit operand values, every incoming flag state, every choice of registers or immediate',
  'each test runs one or two operand pairs; carry, overflow and shift boundaries need all 2^128 operand pairs',
  ['rvm/rvmcpu.c', 'rvm/rvmcpu.h'], [('ALU instruction handlers', 'rvm/rvmcpu.c:rvm_op_*'), ('flag macros', 'rvm/rvmcpu.h:RVM_STATUS_UPDATE, RVM_STATUS_SETBIT')],
  [('status register', 'zero/negative/carry/overflow bits', 'rvm/rvmcpu.h')])

p('C09', 'Virtual machine loads, stores and stack are exact',
  'A load yields the value last stored at that address with the same width, widening without altering it, and a store changes only the addressed bytes. '
  'Push, pop and multi-register push/pop move the stack pointer by exactly the number of words transferred, return words last-in first-out, keep every other stack word untouched, and pushing past the end of the stack stops the machine with an error instead of writing there.',
  ['inputs', 'histories'], 'every register content, every address, every register mask, every stack depth',
  'tests cover a few addresses and shallow stacks; every register mask, width and depth is out of their reach',
  ['rvm/rvmcpu.c'], [('load/store handlers', 'rvm/rvmcpu.c:rvm_op_ldr..rvm_op_strr'), ('stack handlers', 'rvm/rvmcpu.c:rvm_op_push, rvm_op_pop, rvm_op_pushm, rvm_op_popm, rvm_op_sts, rvm_op_lds')])

p('C10', 'Virtual machine control flow: fetch, condition, branch, call, stop',
  'Execution runs exactly the instruction addressed by the program counter and steps to the next one unless the instruction branched. '
  'Conditional and unconditional branches, branch-and-link, returns and calls move the program counter and the link register exactly as specified for the current status flags, software interrupts reach exactly the routine named by table and number, and execution stops when it is told to abort.',
  ['programs', 'histories'], 'every instruction of every program, every status value, every branch offset and target',
  'tests run fixed small programs; fetch order and branch targets must hold for every program and every flag state',
  ['rvm/rvmcpu.c'], [('dispatch loop', 'rvm/rvmcpu.c:rvm_cpu_exec_debug, rvm_cpu_exec'), ('branches', 'rvm/rvmcpu.c:rvm_op_b, rvm_op_bl')])

p('C11', 'Instruction encoding, code buffer and relocation are faithful',
  'Assembling an instruction yields an instruction whose opcode, operands, size class and immediate are exactly those requested, and decoding or emitting it never alters its neighbours. '
  'Code generation appends instructions in order, function boundaries and labels resolve to the positions where they were emitted, replacing an instruction leaves the rest alone, and a relocated reference points at its label.',
  ['inputs', 'programs'], 'every opcode/operand combination, every generated program, every label and relocation table',
  'tests build a few programs by hand; encoding and relocation must be right for every operand and every label layout',
  ['rvm/rvmcpu.c', 'rvm/rvmcodegen.c', 'rvm/rvmcodemap.c', 'rvm/rvmrelocmap.c'],
  [('instruction constructors', 'rvm/rvmcpu.c:rvm_asm*'), ('code generator', 'rvm/rvmcodegen.c'), ('relocation', 'rvm/rvmrelocmap.c:rvm_relocmap_relocate')])

p('C12', 'Name scopes resolve to the innermost live binding',
  'Looking up a name in a nested scope yields the innermost binding still in scope, looking it up at the tip yields only bindings of the innermost scope. '
  'Leaving a scope removes exactly the bindings made since it was entered.',
  ['histories'], 'every nesting of scopes, every set of names, every history of push, pop and bind',
  'tests use one or two nesting levels; shadowing must be right at every depth and for every history',
  ['rvm/rvmscope.c'], [('scope stack', 'rvm/rvmscope.c:rvm_scope_push, rvm_scope_pop, rvm_scope_lookup, rvm_scope_tiplookup')])

p('C13', 'Regex automaton transitions cover exactly the given characters',
  'Adding a character or range to a state, its bounds given in either order, adds exactly those characters and keeps the list of ranges sorted. '
  'Looking up a character finds the range that holds it, and nothing exactly when no range holds it; negating a list accepts exactly the characters it did not hold, up to and including the smallest and the largest.',
  ['inputs'], 'every list of ranges, every range added, every character',
  'tests try a few classes; coverage must hold for every character and every arrangement of ranges',
  ['rex/rextransition.c'], [('range list', 'rex/rextransition.c:rex_transitions_add, rex_transitions_find, rex_transitions_negative')])

p('C14', 'Deterministic automaton table lookup follows the transitions',
  'Stepping the compiled automaton on a character moves to the target of the one range containing that character and to the dead state otherwise, for every table. '
  'Running it over a string ends in the state reached by following the transitions one character at a time, reports acceptance only there, and never reads outside the tables or the string.',
  ['inputs', 'programs'], 'every well-formed automaton table, every character, every input string of every length',
  'tests match short strings against a few patterns; binary search over transition tables must be right for every table and every character',
  ['rex/rexdfa.c', 'rex/rexdfa.h', 'rex/rexdfatypes.h', 'rex/rexdfasimulator.c'],
  [('range binary search', 'rex/rexdfatypes.h:REX_DFA_NEXT, rex/rexdfa.c:rex_dfa_next'), ('longest match run', 'rex/rexdfasimulator.c:rex_dfasimulator_run')])

p('C15', 'Nondeterministic simulation and subset construction track reachable states',
  'Simulating an automaton step by step keeps exactly the set of states reachable on the characters read so far, empty moves included. '
  'The deterministic automaton built from it records, for each set of states, exactly that reachability and is accepting exactly when one of the states is.',
  ['inputs', 'programs'], 'every automaton and every input string',
  'tests compile a few dozen patterns; reachability must hold for every automaton',
  ['rex/rexnfasimulator.c', 'rex/rexdfaconv.c', 'rex/rexdb.c'],
  [('state set simulation', 'rex/rexnfasimulator.c'), ('subset construction', 'rex/rexdfaconv.c')])

p('C16', 'Grammar-engine matchers consume exactly what they match',
  'A character, string, range, any-character or end-of-input matcher succeeds exactly when the input at the cursor matches it, advances the cursor by exactly the matched characters and otherwise leaves it unchanged. '
  'The cursor never leaves the decoded input, and no byte outside the input given by the caller is read.',
  ['inputs', 'programs'], 'every input buffer content and length, every cursor position, every matcher operand, case folding on or off',
  'tests parse fixed samples; cursor safety and exactness must hold for every input and every position, including the very end of input',
  ['rpa/rpavm.c', 'rpa/rpastat.c'], [('match primitives', 'rpa/rpavm.c:rpa_match*'), ('input cursor', 'rpa/rpastat.c:rpa_stat_shift, rpa_stat_peek, rpa_stat_matchchr, rpa_stat_matchrng, rpa_stat_matchstr, rpa_stat_matchspchr')])

p('C17', 'Grammar memoisation and record emission preserve the parse position and the records',
  'A remembered result is reused only for the same rule at the same position of the same run, and reproduces the position, status and records of the first evaluation; remembering one result leaves the others as they are. '
  'The records of a failed attempt are dropped, and each emitted record describes the rule, the position and the extent of its match.',
  ['inputs', 'histories', 'programs'], 'every cache content and history of fills and invalidations, every rule, position and input',
  'tests parse valid samples; reuse must be right for every interleaving of rule attempts, including those whose cache buckets collide',
  ['rpa/rpavm.c', 'rpa/rpacache.c'], [('record emission', 'rpa/rpavm.c:rpavm_swi_emit*'), ('memo cache', 'rpa/rpacache.c, rpa/rpavm.c:rpavm_swi_setcache, rpavm_swi_checkcache')])

p('C18', 'Parse-record tree navigation agrees with the nesting of records',
  'In a well-nested sequence of start/end records, navigating to parent, first child, last child, next or previous sibling, start or end of a record returns exactly the record the nesting defines, or nothing when there is none. '
  'The size of a subtree counts all its records, and copying a subtree reproduces exactly its records in order.',
  ['inputs'], 'every well-nested record sequence of any length and depth and every record in it',
  'tests walk a few small trees; navigation must be right for every depth, sibling count and position',
  ['rpa/rparecord.c'], [('tree navigation', 'rpa/rparecord.c:rpa_recordtree_*')])

p('C19', 'Grammar optimisation bitmaps never exclude a possible first character',
  'A bitmap or bitmap expression consulted before trying a rule never rejects a character the rule could start with. '
  'Combining bitmaps yields exactly the union of the characters they stand for.',
  ['inputs', 'programs'], 'every rule shape, every character code',
  'tests cannot try every code against every rule; a wrongly cleared bit silently turns a match into a failure',
  ['rpa/rpabitmap.c'], [('bitmap construction', 'rpa/rpabitmap.c')])

p('C20', 'JSON scanner and parser are memory safe and account for every byte',
  'The C JSON parser reads only the bytes it was given and terminates on every input; each token it hands out lies inside the input, in order and without overlap. '
  'Every event it emits is well nested, and parsing stops with an error rather than a crash on malformed or too deeply nested input.',
  ['inputs'], 'every byte string of every length',
  'tests parse a few documents; safety must hold for all inputs including truncated and hostile ones',
  ['rexjson/rexjson.c'], [('tokenizer', 'rexjson/rexjson.c'), ('recursive descent', 'rexjson/rexjson.c')])

p('C21', 'Regular-expression language equality',
  'A compiled pattern accepts exactly the strings of the language its text denotes, and the longest match is reported. ',
  ['programs', 'inputs'], 'every pattern and every input string',
  'tests sample patterns and strings',
  ['rex/rexcompiler.c', 'rex/rexregex.c', 'rex/rexdfaconv.c'], [('pattern compiler', 'rex/rexcompiler.c')])

p('C22', 'Grammar language semantics end to end',
  'A grammar compiled by the engine accepts an input exactly when the grammar language definition says so, and the records describe that parse.',
  ['programs', 'inputs'], 'every grammar and every input',
  'tests parse a corpus of samples with a handful of grammars',
  ['rpa/rpadbex.c', 'rpa/rpaparser.c', 'rpa/rpacompiler.c'], [('bootstrap grammar compiler', 'rpa/rpadbex.c')])

p('C23', 'C++ JSON value model round-trips',
  'Writing a JSON value and reading the text back yields an equal value.',
  ['inputs'], 'every JSON value', 'tests round-trip a few documents',
  ['rexjson/rexjson++.cpp'], [('serializer', 'rexjson/rexjson++.cpp')])

p('C24', 'Concurrent use of atomics and locks',
  'Atomic operations and spin locks behave atomically under concurrent use.',
  ['schedules'], 'every schedule of threads', 'the tests are single threaded',
  ['rlib/ratomic.c', 'rlib/rspinlock.c', 'arch/'], [('atomic ops', 'arch/unix')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        x['statement'] = x['statement'].strip()
        f.write(json.dumps(x) + '\n')
print(len(P))
