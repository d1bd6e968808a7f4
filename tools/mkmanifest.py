#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when the claimed properties change)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READ = 'TLA+ reader machine (Reader/Decode/Grammar), TLC trace validation of recorded reads'
LAY = 'TLA+ layout machine (Layout), TLC model checking and trace validation of recorded validations'
CF = 'TLA+ control-flow model (ControlFlow), TLC trace validation of recorded recoveries'
T = {'C01': READ, 'C02': READ, 'C03': READ + ' in both byte orders', 'C04': READ + ' and of all prefixes', 'C05': READ, 'C06': READ, 'C07': READ, 'C08': READ, 'C09': READ,
     'C10': LAY, 'C11': LAY, 'C12': LAY, 'C13': 'TLA+ layout automaton on run-length encoded modules, TLC trace validation of sizes and outcomes',
     'C14': 'TLA+ product of function and chain executions, explored by TLC for each recovered chain',
     'C15': 'TLA+ structured programs lowered to blocks, model-generated tests replayed into the code and validated by TLC',
     'C16': CF, 'C17': CF, 'C18': 'TLA+ model of the disassembly (Disasm), TLC trace validation of the text', 'C19': 'TLA+ model of the printers, TLC trace validation of the text',
     'C20': 'TLA+ equality of projected values, TLC trace validation of comparisons and copies',
     'C21': 'TLA+ session model (a function of the input), TLC trace validation of call histories and threads',
     'C22': 'composition of the TLA+ machines, TLC trace validation of whole pipeline runs',
     'C23': 'TLA+ model of instruction texts (Texts), TLC trace validation of texts, comparisons and copies',
     'C24': 'TLA+ table of errors, TLC trace validation of texts and comparisons',
     'C25': 'TLA+ machine of operand taking (Operands), TLC model checking and trace validation of what sets are given',
     'C26': 'TLA+ model of operand texts (Texts), TLC trace validation of texts, names, comparisons and copies'}
src = open(os.path.join(ROOT, 'lib', 'props.py')).read()
have = [p for p in sorted(T) if re.search(r'^def %s\(' % p, src, re.M)]
NOTE = ('Bounded: the specification is checked by TLC on every recorded run of the real code (corpora of DESIGN.md: systematic enumerations, boundary values, '
        'constants harvested from the source, seeded random cases) and, where a model is listed, exhaustively to the stated bound. Trusts TLC and the projection in the harness.')
m = {'version': 1, 'setup_cmd': 'bash bin/setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the harness uses only the public interface', 'source_commits': []},
     'checks': [{'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                 'technique': T[p], 'level': 'model_checking', 'level_note': NOTE} for p in have],
     'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in sorted(T) if p not in have]}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(have), 'claimed')
