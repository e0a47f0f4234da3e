#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'stateful model-based property testing against a map model', 'C02': 'stateful model-based property testing of iterations',
 'C03': 'stateful model-based property testing against std::set', 'C04': 'algebraic-law and model-based property testing',
 'C05': 'stateful model-based property testing against a deque model', 'C06': 'stateful model-based property testing against a vector model',
 'C07': 'stateful model-based property testing against an ordered map, with a cost bound', 'C08': 'stateful model-based property testing against an interning model',
 'C09': 'stateful model-based property testing against a vector model', 'C10': 'stateful model-based property testing with a live-object model (disjointness, contents, recycling)',
 'C11': 'stateful model-based property testing against a vector model', 'C12': 'differential testing against a reference tokeniser, and round trips',
 'C13': 'round-trip and differential property testing', 'C14': 'differential property testing against a reference sieve',
 'C15': 'model-based property testing against a bit-vector model', 'C16': 'differential property testing against a reference Soundex implementation',
 'C17': 'stateful model-based property testing against a flag-set model', 'C18': 'stateful model-based property testing under a virtual clock',
 'C19': 'stateful model-based property testing of child processes', 'C20': 'property testing with generated filters, short I/O and interruptions',
 'C21': 'property testing of diagnostics and endings in forked processes', 'C22': 'stateful model-based property testing with I/O faults and a virtual clock',
 'C23': 'stateful model-based property testing against a position model', 'C24': 'generated cross-module histories with allocation accounting, sanitizer and re-execution',
 'C25': 'generated misuse against all operations in forked processes', 'C26': 'allocation-fault enumeration over generated histories' }
checks = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']; src = V + '/checks/%s.cpp' % i
    if not os.path.exists(src): continue
    t = open(src).read(); level = re.search(r'LEVEL = "(\w+)"', t).group(1); a = re.search(r'ASSUMPTIONS = "((?:[^"\\]|\\.)*)"', t).group(1).replace('\\n', '; ')
    checks.append({'property': i, 'quick_cmd': './check.sh %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': T[i], 'level': level, 'level_note': 'Random search of generated cases against an explicit oracle: shows violations, never their absence. ' + ('Assumes: %s.' % a if a else 'No assumptions beyond the generators (see DESIGN.md).')})
m = {'version': 1, 'setup_cmd': 'python3 build.py --all', 'checks': checks, 'not_applicable': [],
     'notes': 'Property-based testing with an engine of our own (engine/pbt.cpp): choice-sequence generation, shrinking, replay files, forked cases; the library is rebuilt from /repo with address sanitizer and with its calls of malloc, read, write, clocks and syslog redirected (no hooks in /repo).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n'); print(len(checks), 'checks')
