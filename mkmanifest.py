#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
NOTE = ('Deductive proof over the LLVM IR that clang makes of the headers in /repo on every run; trusted: clang front end, the executor and rewriter in irv/, z3/cvc5, models of libc memory functions, '
        'the specification functions. Assumes messages < 2^61 bytes (texts < 2^50 elements) and inputs not overlapping the object. ')
T = 'contract-based deductive verification of the compiled headers (symbolic execution per function against contracts, class invariants and loop invariants, SMT)'
CLAIMED = {
    'C01': 'sha224/256/384/512: constructor, update from every fill level with any length, final; compression and schedule under their own contracts.',
    'C02': 'sha512t for all 63 widths: constructor (generated initial value), final; update() of every width is the same code as the reference, whose contract is proved, or is proved itself.',
    'C03': 'sha3_224/256/384/512: constructor, update from every fill level with any length, final; Keccak-f[1600] under its own contract.',
    'C04': 'shake128/256: constructor, update, padding at every fill level; squeezing of any output length (loop closed by an inductive renaming of the block number); final<N> for 13 widths.',
    'C05': 'xxhash32/64: constructor with any seed, update, final, update_and_final; lane round under its own contract.',
    'C06': 'class invariant R(q, fill) established by the constructor and preserved by update() with a piece of any length, for all twelve hash types: the state is a function of the absorbed message alone.',
    'C07': 'constant evaluation of every hash is the run-time code: the functions extracted with the constant_evaluated branches selected satisfy the same contracts, in both modes; the real static_assert battery stands behind it.',
    'C08': 'memory and arithmetic obligations (bounds of every access, shifts, division, unreachable, asserts, exceptions, frame) of all functions of the other checks.',
    'C09': 'every overload of update() and simple() for five element types and every carrier: is the code of the span-of-bytes overload, or makes one call of it on exactly its bytes, or satisfies its contract; built-in arrays, arrays and literals for six lengths.',
    'C10': 'iterator contracts (begin, ++, it++, *, == end, size) of every encoding, element and character type: finite set of states proved closed, inputs of any length.',
    'C11': 'constructors from text for every value type and hash_value<1..64>, every digit and case; rendered and parsed back is the identity. The literal operators are consteval: checked on instances (bounded), their constructor is proved.',
    'C12': 'comparison operators of hash_value<1..64>, all value types and SHAKE pairs for all values; prefix and suffix.',
    'C13': 'to_string, to_fixed_string, print_into, operator<<, formatter and encoded view for 30 value types, every encoding, for all values.',
    'C14': 'formatter::parse for texts of any length and contents (scanning loop cut by an inferred invariant), narrow and wide; the selection observed through format().',
    'C15': 'copy, move, size(), final() of xxhash leaves the object unchanged, frame of every operation, for all twelve hash types.',
    'C16': 'iterator contracts of chunk_of_bits for every width, padding and element width that compiles: finite set of states proved closed, inputs of any length.',
    'C17': 'single-header/cthash.hpp: the functions of each hash are the same code as those of include/, or satisfy the same contracts; element types and carriers; compiled on its own.',
    'C18': 'main() of checksum.cpp for every name (accepted or not, of any length), every file size and content, and every failure of open and mmap, over the contracts of the hash functions; the functions used are shown to be the code proved by C01 to C05.',
}
NA = {
}
ALLP = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3-vt setup.py',
    'checks': [{'property': p, 'quick_cmd': 'python3-vt check.py ' + p, 'thorough_cmd': 'python3-vt check.py ' + p, 'technique': T, 'level': 'proof', 'level_note': NOTE + n} for p, n in CLAIMED.items()],
    'not_applicable': [{'property': p, 'reason': NA.get(p, '')} for p in ALLP if p not in CLAIMED],
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
