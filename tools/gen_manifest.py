#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from check import RULES

TECH = {
    'source_coverage': 'abstract interpretation of MIR (Herbrand value-flow summaries of every mutator) checked against a functional specification of each map',
    'visitor': 'abstract interpretation of MIR: symbolic summaries of every visitor method, compared structurally (alignment, typestate of counters and of the traversal stack)',
    'hints': 'abstract interpretation of MIR (decision tables of the hint lookup extracted as path conditions) and exact comparison of the regular languages of the hint patterns',
    'merge': 'abstract interpretation of MIR: fold/map summaries of the merge and summary functions checked against their specification',
    'template': 'abstract interpretation of MIR: the emitted AST as a term over the coverage data, checked field by field against the istanbul object shape',
    'effects': 'effect and taint analysis over the MIR call graph and the emitted-AST terms',
    'plugin': 'abstract interpretation of MIR of the plugin entry point and option deserializers',
    'values': 'abstract interpretation of MIR: constructor and clone summaries compared part by part with their arguments',
    'serde': 'analysis of the serde-derived (de)serializer MIR: names, optionality and defaults extracted and compared both ways',
}
NOTE = ('Decided on the MIR of the current tree. Trusted: rustc MIR construction, the abstract interpreter and its models of the standard '
        'library and of swc (engine/), the rule itself. Assumptions are listed in DESIGN.md.')
NA = {
    'C34': 'Quantifies over all executions of arbitrary JavaScript programs: no static argument over the Rust source bounds JavaScript semantics. The structural part (program kept, wrappers transparent, directives kept) is decided by C03, C04 and C17.',
    'C35': 'Run-time hit counts of arbitrary JavaScript executions; the static part (one counter per construct, right id, right position) is decided by C01, C02, C04 and C05.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in RULES:
            m = '; '.join(TECH[x] for x in RULES[i])
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': m, 'level': 'proof', 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'No check yet.')})
    m = {'version': 1, 'setup_cmd': 'python3 extract.py', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only; no hooks in /repo. Known findings: known-findings.json. See DESIGN.md.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()
