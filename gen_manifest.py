#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's table."""
import json, os, re, sys
sys.argv = ['x']
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'check.py')).read()
ns = {'__file__': os.path.abspath(__file__)}
exec(src.rsplit('\nmain()', 1)[0], ns)
VALUE = 'abstract interpretation of the LLVM IR (canonical GF(2) forms, uninterpreted collaborators) against a reference specification in the same domain'
TECH = {
    'C15': 'abstract interpretation of the LLVM IR: every access, shift and conversion checked against object bounds, lifetime and initialisation',
    'C16': 'abstract interpretation of the LLVM IR: outcomes of repeated and interleaved operations compared as canonical forms',
    'C17': 'lockset and happens-before analysis over the accesses of the abstract interpretation',
    'C18': 'call-depth analysis over the abstract interpretation',
    'C19': 'abstract interpretation of the LLVM IR with a throwing collaborator at every call',
    'C20': 'effect analysis: reachability over the references of the LLVM IR (external functions, stores to globals), and write monitoring in the abstract interpretation',
    'C23': 'cost analysis: instructions and copied words of the abstract interpretation as a function of the number of blocks',
    'C24': 'abstract interpretation of the LLVM IR: calls to the underlying object and heap held, as functions of the calls made',
    'C25': 'abstract interpretation of every constructor with collaborators that must not be called',
    'C26': 'type checking of every public header and client by the front ends, a query over the typed syntax tree (const operations, virtual destructors, declared functions), linking of the IR',
    'C22': 'ownership analysis by abstract interpretation: lifetime of every object after releasing handles',
}
checks = []
for p in sorted(ns['PROPS']):
    bounds = 'Contents, keys and registers are unrestricted; lengths and call sequences are those enumerated by the contexts (plus lengths around every constant the code compares with).'
    if p in ('C20',):
        bounds = 'Reachability covers every function of the library and everything it mentions, vtables included; writes through pointers are those of the contexts of C16.'
    if p == 'C26':
        bounds = 'All public headers, classes and declared functions.'
    checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'technique': TECH.get(p, VALUE), 'level': 'proof',
                   'level_note': 'Static, from the source of every run. ' + bounds + ' Trusts the clang front end, the analyzer, the contexts, the reference specifications and the runtime models (contexts/rt.cpp).'})
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl') if l.strip()]
na = [{'property': p, 'reason': 'not claimed: the check is not built yet'} for p in props if p not in ns['PROPS']]
json.dump({'version': 1, 'setup_cmd': 'make -s -j8 -C analyzer OUT=/verif/build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md and known-findings.txt.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
