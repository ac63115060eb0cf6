#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--only SECTION]"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True


def hash_seed():
    """the order of sets is one more input: fixed by the seed of the run (or of the replay)"""
    seed = os.environ.get('VERIF_SEED', '1') or '1'
    for (flag, get) in (('--seed', lambda v: v), ('--replay', lambda v: json.load(open(v)).get('seed', 1))):
        if flag in sys.argv[:-1]:
            seed = get(sys.argv[sys.argv.index(flag) + 1])
    return str(int(seed) % 4294967295)


if os.environ.get('VERIF_HASHED') != '1':
    os.environ.update(VERIF_HASHED='1', PYTHONHASHSEED=hash_seed(), PYTHONDONTWRITEBYTECODE='1')
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core                                                   # noqa: E402

MODULES = {
    'p_text': 'C01 C02 C03 C04 C27 C28', 'p_codes': 'C05 C06 C07 C08 C22 C26',
    'p_machine': 'C09 C10 C11 C12 C13 C14 C15 C30', 'p_geom': 'C16 C17 C18 C19 C20 C29',
    'p_tools': 'C21 C23 C24 C25', 'p_system': 'C31 C32 C33 C34 C35', 'p_more': 'C36 C37',
}

# the quick numbers of cases of the sections are multiplied by this (C07 is exhaustive, C32 is paced by its scheduler)
FACTOR = dict(C01=5, C02=4, C03=6, C07=1, C08=4, C14=4, C17=15, C19=4, C20=4, C22=20, C23=4, C24=4, C25=5, C26=12, C27=4, C29=40, C31=8, C32=2, C33=4, C34=15, C35=5)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    mod = [m for (m, ids) in MODULES.items() if a.property in ids.split()]
    if not mod:
        ap.error('unknown property')
    core.setup_import()
    m = importlib.import_module('vf.' + mod[0])
    spec = m.CHECKS[a.property]()
    for s in spec['sections']:
        s.n['quick'] *= FACTOR.get(a.property, 6)
    if a.only:
        spec['sections'] = [s for s in spec['sections'] if s.name in a.only.split(',')]
        spec['deciding'] = [d for d in spec.get('deciding', ()) if d[0] in a.only.split(',')]
    if a.replay:
        secs = spec['sections'] + [core.Section('probe-' + k, lambda c, s, f=f: f()) for (k, f) in spec.get('probes', ())]
        return core.replay(a.property, secs, a.replay)
    return core.run_check(a.property, tier=a.tier, seed=a.seed, **spec)


if __name__ == '__main__':
    sys.exit(main())
