#!/usr/bin/env python3-vt
"""Writes vt/schema.json: the names of the persistent state's fields and variants the properties speak
about.  Only used to follow a renaming of private fields, variants or types (vt/codec.py: canon)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.lib import prog, tid
ROOTS = {'staking-pool': 'StakingContract', 'voting': 'VotingContract', 'whitelist': 'WhitelistContract', 'lockup': 'LockupContract', 'multisig': 'MultiSigContract', 'multisig2': 'MultiSigContract',
         'staking-pool-factory': 'StakingPoolFactory', 'lockup-factory': 'LockupFactory', 'multisig-factory': 'MultisigFactory', 'w-near': 'Contract'}
out = {}
for c, r in ROOTS.items():
    p = prog(c); ts = {}
    def walk(t):
        if str(t) in ts: return
        d = p.T_(t); n = {'k': d['k'], 'nm': d.get('def', d['n']).split('::')[-1]}
        ts[str(t)] = n
        if d['k'] == 'tuple': n['ta'] = list(d['f'])
        elif d['k'] == 'array': n['ta'] = [d['e']]
        elif d['k'] in ('struct', 'enum'):
            if 'near_sdk::collections' in d['def'] or d.get('def', '').split('::')[0] in ('std', 'alloc', 'core', 'near_sdk'): n['ta'] = [x for x in d.get('ta', [])]
            else: n['v'] = [[x['n'], [[a, b] for a, b in x['f']]] for x in d['v']]
        for x in n.get('ta', []) + [b for _, fs in n.get('v', []) for _, b in fs]: walk(x)
    walk(tid(p, r)); out[c] = {'root': r, 'tid': tid(p, r), 'types': ts}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vt', 'schema.json'), 'w'), indent=0, sort_keys=True)
