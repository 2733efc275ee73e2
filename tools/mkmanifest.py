#!/usr/bin/env python3
"""Writes MANIFEST.json and contracts/goals.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> (units, note, rule of the bounded companion, what is only bounded)
P = {
 'C01': (['tokens', 'literals', 'values', 'rules', 'lines', 'entry', 'nest', 'read', 'write', 'ser', 'dates', 'iter'], '', 'random and mutated component texts and property literals are parsed and re-serialised', []),
 'C02': (['lines', 'entry'], '', 'generated content lines, with and without folding, compared with an independent line reader', []),
 'C03': (['read'], '', 'generated component texts over all known and unknown names, compared field by field with a reference reader', []),
 'C04': (['nest', 'entry'], '', 'generated nested calendars, some with broken nesting, compared with a reference reader', []),
 'C05': (['tokens', 'rules', 'literals'], '', 'all RFC tokens, near misses and random strings', []),
 'C06': (['values', 'literals'], '', 'generated property value texts compared with a reference conversion', ['what chrono makes of an offset and nom of a decimal number']),
 'C07': (['values', 'literals'], '', 'generated duration texts and literals compared with the sum of their parts', []),
 'C08': (['ser'], '', 'components with long generated texts; output lines compared with an independent fold', []),
 'C09': (['write'], '', 'components with hostile texts and parameters; output lines compared with an independent escape', []),
 'C10': (['write'], '', 'generated components compared with an independent writer', []),
 'C11': (['back', 'round', 'write', 'values', 'read', 'nest', 'entry', 'lines'], '', 'generated components written, read and compared', ['values and texts outside the stated hypotheses (fits): characters the reader does not unescape, decimal numbers']),
 'C12': (['dates'], '', 'generated dates and rules compared with independent calendar arithmetic', []),
 'C13': (['iter'], '', 'generated components and rules compared with an independent enumeration', []),
 'C14': (['iter'], '', 'generated recurrences and windows compared with a filter of the enumeration', []),
 'C15': (['dates'], '', 'generated dates compared with an independent order and arithmetic', []),
 'C16': (['ser'], '', 'all whole-second UTC offsets in sampled runs of consecutive values', []),
 'C17': (['write', 'rules', 'literals', 'trip'], '', 'generated rules and rule texts compared with an independent reader and writer', []),
 'C18': (['write', 'read'], '', 'generated alarms of every kind compared with a reference reader and writer', []),
}
NA = [
 {'property': 'C19', 'reason': 'the builder macros are expanded in the user\'s crate: there is no function in /repo that carries the guarantee and could be put under contract; a proof would only cover particular invocations written by the checker (the literal parsers the macros call are covered by C06, C07 and C17)'},
 {'property': 'C20', 'reason': 'decimal text to f32/f64 and back is floating-point parsing and printing inside core/nom; Verus has no theory of floating-point rounding or decimal printing, so no contract within reach can express the property'},
]
TITLES = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    TITLES[d['id']] = d['title']
goals = {'assumptions': [
    'contracts of std, nom and chrono functions used by the extracted code are assumed (contracts/xstd.rs, nom.rs, chrono.rs); the bounded companion exercises the real dependencies on the same inputs',
    'the extraction (tools/vx) changes the text only as listed in extraction_rewrites and DESIGN.md',
    'rustc macro expansion (-Zunpretty=expanded, nightly) equals the expansion of the stable build',
], 'properties': {}}
checks = []
for p, (units, note, rule, bounded) in P.items():
    level = 'proof' if units else 'exploration'
    goals['properties'][p] = {'units': units, 'level': level, 'rule': rule, 'bounded': bounded, 'ms': 15000, 'panics': p == 'C01'}
    checks.append({
        'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
        'technique': ('Verus contracts on the functions extracted from /repo on every run, discharged by Z3' if units else 'bounded stand-in: differential run of the real crate (contracts not discharged yet)'),
        'level': level,
        'level_note': note or (f'units {", ".join(units)}: every extracted function verified against its contract; std/nom/chrono contracts assumed; plus a bounded differential run, not counted as proved' if units else 'bounded: generated inputs only, nothing proved'),
    })
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': NA,
     'notes': 'check.py expands /repo, extracts the functions under contract (tools/vx), runs Verus on the units and the bounded companion (driver/) on the real crate; see DESIGN.md'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
json.dump(goals, open(os.path.join(V, 'contracts', 'goals.json'), 'w'), indent=1)
