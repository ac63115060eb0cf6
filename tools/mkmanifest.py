#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitor: reference tokenizer beside the real parser, stateful histories',
 'C02': 'runtime monitor: exact decimal round-trip oracle',
 'C03': 'runtime monitor: reference line scanner, conservation of comment/code/macro text',
 'C04': 'runtime monitor: print/parse round trip and idempotence over composed lines',
 'C05': 'runtime monitor: word-conservation monitor and reference grouping',
 'C06': 'runtime monitor: reference conflict rule, all ordered code pairs plus random blocks',
 'C07': 'runtime monitor: independent LinuxCNC code table, exhaustive numbers x letters',
 'C08': 'runtime monitor: hooked execution trace against the canonical order, permutations',
 'C09': 'runtime monitor: reference interpreter in lock step with the machine',
 'C10': 'runtime monitor: reference modal-group model in lock step with the machine',
 'C11': 'runtime monitor: refusal oracle and before/after state snapshots',
 'C12': 'runtime monitor: offset bookkeeping model, round-trip conversions',
 'C13': 'runtime monitor: extents shadowed from observed positions',
 'C14': 'runtime monitor: divergence checks of copies, state snapshots, aliasing probes',
 'C15': 'runtime monitor: dictionary model of vector, axis and unit rules',
 'C16': 'runtime monitor: geometric path monitor (deviation, sweep, end point)',
 'C17': 'runtime monitor: validity oracle on arcs at the boundary',
 'C18': 'runtime monitor: drilling-safety trace monitor over expansions',
 'C19': 'runtime monitor: differential execution of cycle and expansion',
 'C20': 'runtime monitor: path comparison between distance modes',
 'C21': 'runtime monitor: differential execution of printed and original sequences',
 'C22': 'runtime monitor: partition and identity monitor',
 'C23': 'runtime monitor: script output executed beside its input on a reference machine',
 'C24': 'runtime monitor: per-option output monitors, executed final moves',
 'C25': 'runtime monitor: independent crop oracle, executed preamble and kept lines',
 'C26': 'runtime monitor: random user code classes, registry isolation in own processes',
 'C27': 'runtime monitor: hostile text fuzzing with error-class, determinism and CPU-time monitors',
 'C28': 'runtime monitor: construction/edit consistency monitors over all classes',
 'C29': 'runtime monitor: geometric identities on random and degenerate directions',
 'C30': 'runtime monitor: printed modes re-executed from an empty machine',
 'C31': 'runtime monitor: differential runs over processes, hash seeds, orders and repetition',
 'C32': 'runtime monitor: provoked thread schedules (line-level scheduler), results compared with single-threaded runs',
 'C33': 'runtime monitor: executed-line, object and memory counters over loops and sizes',
 'C34': 'runtime monitor: all views of a line against an independent tokenizer',
 'C35': 'runtime monitor: twin machines, one queried; state compared after every query, execution log against plan',
 'C36': 'runtime monitor: generated dialects used side by side, values and texts known from generation',
 'C37': 'runtime monitor: scripts on programs broken at a known line; output prefix, status, streams and files compared',
}
NOTE = ('Seeded exploration of the real code in /repo; every execution is judged by an oracle written independently of it. '
        'Assurance covers what was run (see the evidence file); trusts the reference model in vf/ref.py and the domain limits listed as assumptions.')
if __name__ == '__main__':
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    m = {'version': 1,
         'setup_cmd': 'bash /verif/setup.sh',
         'checks': [{'property': i, 'quick_cmd': './check.py %s' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                     'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE} for i in ids],
         'not_applicable': [],
         'notes': 'No hooks in /repo: everything is observed at the public API and on the scripts\' stdout. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
