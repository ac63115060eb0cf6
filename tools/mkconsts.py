"""Write vf/base_consts.json: the constants of the tree the checks were written for"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
(n, s) = core.harvest()
json.dump({'nums': sorted(n), 'strs': sorted(s)}, open(os.path.join(core.HERE, 'vf', 'base_consts.json'), 'w'), indent=0)
print(len(n), len(s))
