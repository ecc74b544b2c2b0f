BASE = 'Unbounded proof, function by function, of contracts on the real code (LLVM IR compiled from /repo on every run). '
CLAIMS = {
    'C02': {'note': BASE + 'Element sizes 1, 4, 8, 16 and 24; lengths below 2^40; allocation succeeds.'},
    'C01': {'note': BASE + 'All byte sequences and all remaining lengths below 2^47.'},
    'C08': {'note': BASE + 'Machine built by rvm_cpu_create, arbitrary registers, operands, immediates and status; shift counts below 64; operands other than PC; the V flag of the subtracting instructions as the project\'s tests define it.'},
    'C09': {'note': BASE + 'Machine built by rvm_cpu_create, arbitrary registers, stack and block contents; addresses inside one block (the memory-safety precondition of a machine instruction); mask instructions with the mask in any register but PC (two in the quick tier, all in the thorough tier), address register R1 for STM and LDM.'},
    'C10': {'note': BASE + 'A program of any length below 2^40 holding the instruction at any position, all other instructions EXT; branch targets inside the program; status not both negative and zero; registered software-interrupt tables (three of 256 routines), numbers inside their table.'},
    'C03': {'note': BASE + 'Element sizes 1, 8 and 24; up to 2^30 chunks; appending and in-capacity replacement are unbounded, replacement and resizing beyond the capacity are bounded to a growth of a few chunks; allocation succeeds. r_carray_copy is not covered.'},
    'C04': {'note': BASE + 'Rings of any length below 2^31, links embedded in larger structures.'},
    'C11': {'note': BASE + 'Programs and label tables of any length below 2^40; the name-to-label hash table enters by its contract (its own property is C05); allocation succeeds, code capacity present for the prologue and epilogue units. The relocation walk over the records is checked for up to three records (bounded), each record with arbitrary contents.'},
    'C14': {'note': BASE + 'Any compiled automaton whose states own non-empty sorted slices of the transition table that cover all characters (what the compiler of C15 builds); inputs of any length below 2^31. The UTF-8 decoder enters by its contract (C01). The prefiltered scan is proved for byte input in the thorough tier, with a sound prefilter as precondition; the UTF-8 scan is not covered.'},
    'C18': {'note': BASE + 'Any well-nested record sequence below 2^31 records, each either a start or an end record; the array append enters by its contract (C02). rpa_recordtree_walk (callback traversal) and the text dumps are not covered.'},
    'C16': {'note': BASE + 'Inputs of any length below 2^40 in the three encodings, case folding on or off, any cursor position of a run. The character decoders enter by their contract (C01); the generated byte code that sequences the matchers, and rpa_stat_scan, are not covered.'},
    'C17': {'note': BASE + 'Any cache contents, any record array below 2^31 records; array resizing, appending and replacing enter by their contracts (C02). The byte code that decides when to remember and when to drop is generated by the grammar compiler and not covered.'},
    'C19': {'note': BASE + 'The run-time test for any position of any input; the computation of the bitmap of one grammar record from its children, any number of them, for every production. Record navigation (C18), the decoder (C01), the rule lookup and the number parser enter by their contracts. That the compiler visits the records bottom-up and places the test before the right code is not covered; the range units need numbers below 2^32.'},
    'C07': {'note': BASE + 'The accounting allocator (the one debug builds use), block sizes below 2^40, allocation succeeds; the spin lock enters by its sequential contract. The garbage collector list (rgc.c) is not covered.'},
    'C13': {'note': BASE + 'Lists below 2^31 ranges; looking up and negating need what the compiler has established by then: ranges sorted, disjoint and, for negation, not adjacent; inserting into the array enters by its contract (C02). Merging neighbouring ranges (rex_transitions_normalize) is not covered.'},
    'C12': {'note': BASE + 'Any stack of up to 2^31 bindings and scopes, names of any length below 2^30 without NUL bytes; string length, string comparison and the name hash table enter by their contracts; allocation succeeds.'},
}
NA = {
    'C21': 'equality of a compiled pattern with its denoted language needs a relational proof about the whole pattern compiler over heap graphs of unbounded shape; no contract within reach of a function-by-function verifier decides it. Its building blocks are claimed separately (character ranges, table lookup, simulation).',
    'C22': 'the meaning of a grammar is defined by a 2000-line compiler that generates code at run time and then executes that code; the end-to-end relation is outside first-order contracts. The primitives it relies on are claimed separately.',
    'C23': 'C++ (std::string, exceptions, templates): the verifier reads C only and no installed deductive verifier accepts C++.',
    'C24': 'the atomic operations are compiler builtins over shared memory; the contracts here are sequential and no installed deductive verifier models weak memory for C.',
}
