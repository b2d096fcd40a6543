#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; run after the list of checked properties changes."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
N = {}
val = 'Bounded exhaustive execution of the compiled library against an independent integer/float reference; every tuple of the stated alphabets at every lane, no sampling. Trusts the reference table in mc/spec.py (independent of the code; its signatures are checked against clang\'s arm_neon.h) and, for pairs of 32/64-bit operands, that failures involve values of the boundary-dense alphabets.'
for p in 'C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17'.split(): N[p] = ('explicit enumeration of operand states, implementation vs reference model on each', val)
N['C01'] = N['C02'] = ('explicit enumeration of memory/register states and store/load histories vs byte-level model', 'All element values, positions, lanes and line offsets of the stated alphabets executed on the compiled library; trusts the generic byte-move model in mc/main_mem.cpp.')
N['C03'] = ('exhaustive placement enumeration with page-fault fences plus recorded access footprints', 'Guard pages on the shipped build, and every load/store instruction of an access-instrumented build compared with the operand bounds; value-dependent footprints are covered for the enumerated contents: single elements, pairs, prefixes, suffixes and all-equal operands over telling values.')
N['C18'] = ('exhaustive enumeration of immediates, each run to completion or abnormal end', 'All integers in [-4200,4200] plus all aliases of valid values at power-of-two distances; other integers are not executed in quick.')
N['C19'] = ('explicit-state search over call histories (all ordered pairs, self sequences, repetitions, graph of library states, caller FP environments) with the same call in a fresh process as oracle', 'All histories up to the stated depth over all exported intrinsics; state hidden behind longer histories or other operand values is out of bounds.')
N['C20'] = ('stateless exploration of thread schedules on the real code (single-step and access-level DPOR)', 'All single-preemption schedules at instruction granularity of the shipped build, and all schedules of conflicting accesses and lock operations of two and three threads up to two preemptions, with release/acquire race detection; stale-value results of weak memory are out of bounds.')
N['C25'] = ('stateless exploration of every interruption point on the real code (single-step), and enumeration of allocation failures', 'Every instruction of the enumerated calls of the shipped build interrupted by calls of every intrinsic; operands of the interrupted call from the call contexts; one level of nesting.')
N['C21'] = ('exhaustive cross-build enumeration: every operand tuple on a compiler/flag matrix and on an undefined-behaviour trapping build', 'gcc and clang at several optimisation levels on x86-64 only; undefined behaviour that UBSan does not model is only seen through differing results.')
N['C22'] = ('exhaustive enumeration of type substitutions and signatures against the ACLE table, C and C++ link programs', 'Complete over the intrinsics provided and the vector types declared; trusts the signature table extracted from clang\'s arm_neon.h.')
N['C27'] = ('exhaustive enumeration of caller programs of a grammar, each executed under every build and phase, compared with opaque unoptimised calls', 'Complete over the grammar and the listed builds of gcc and clang on x86-64; programs outside the grammar and other compilers are out of bounds.')
N['C23'] = N['C24'] = N['C26'] = ('explicit enumeration of call chains: two implementations of one law executed on every operand state', 'Bounded exhaustive over the same alphabets as the value properties; needs no numeric oracle, both sides run the library.')
have = sys.argv[1:] or list(N)
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'], technique=N[p['id']][0],
               level='model_checking', level_note=N[p['id']][1]) for p in props if p['id'] in have]
na = [dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in have]
json.dump(dict(version=1, setup_cmd='python3 -B mc/selftest.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
