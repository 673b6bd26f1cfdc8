#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/meta.py` after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = 'Unit and simulation tests run a handful of fixed amounts, callers and call orders; the statement quantifies over every amount, caller, argument and pre-state. '
LEVEL = ('every public method of the contract that can touch the property is executed symbolically from the compiler\'s MIR of the current tree; z3/cvc5 discharge each assertion on every path for all values within the bounds in the evidence file; ')
TECH = 'symbolic execution of rustc MIR + SMT (z3, cvc5), counterexamples replayed on the compiled wasm'
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=WHY + why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None), _note=note))

SP = 'staking-pool/src/lib.rs'; SI = 'staking-pool/src/internal.rs'
SPS = [('accounts', 'per-account unstaked balance, stake shares and unlock epoch', SP), ('totals', 'total staked balance, total shares, last total balance', SP)]
p('P01', 'Staking pool share price never falls', 'No call to a staking pool, by anyone, with any arguments and whatever reward the protocol has paid, lowers the amount of staked tokens one share is worth. In particular no caller can dilute or drain the stake of the other delegators.',
  ['inputs', 'histories'], 'every reachable pool state (totals, shares, rewards, fee), every state-changing call, every caller and amount; induction over histories',
  'Rounding errors show up only at unusual ratios of shares to balance.', [SP, SI], [('rounded share arithmetic', SI + ' num_shares_from_* / staked_amount_from_*'), ('reward distribution', SI + ' internal_ping')], SPS, ['contract state after a call', 'get_account'])
p('P02', 'Staking pool ledger adds up and stays solvent', 'After every call the total number of shares equals the sum of the accounts\' shares (plus the constant part set at creation), and the pool\'s NEAR covers the total staked balance plus every account\'s unstaked balance. Money leaves the pool only by withdrawal.',
  ['inputs', 'histories'], 'every reachable pool state with up to three materialised accounts and the rest summarised, every call, caller, amount and reward',
  'A leak of one yocto per call or a missed account update is invisible in sampled balances.', [SP, SI], [('ledger updates', SI), ('last_total_balance bookkeeping', SI + ' internal_ping')], SPS, ['contract state', 'transfer receipts'])
p('P03', 'Staking pool deposits and withdrawals are exact and delayed', 'A deposit credits exactly the attached amount to the caller; a withdrawal pays exactly what it debits, only to the caller, and only out of tokens whose last unstaking lies at least four epochs back. No call changes the unstaked tokens or shares of an account other than the caller (rewards aside).',
  ['inputs', 'histories'], 'every pool state, epoch, caller and amount', 'Epoch boundaries and interplay of several accounts are sampled at single points.', [SP, SI], [('unlock epoch check', SI + ' internal_withdraw'), ('deposit', SI + ' internal_deposit')], SPS, ['transfer receipts', 'account state'])
p('P04', 'Staking and unstaking are fair to within rounding', 'Staking an amount gives the shares it buys at the current price, rounded down, and charges the price of those shares, never more than asked; unstaking an amount burns the shares it takes at the current price, rounded up, and pays their value, at least the amount asked and less than one yoctoNEAR more than they are worth. An affordable operation succeeds.',
  ['inputs'], 'every pool state, caller and amount', 'Rounding direction matters only at awkward ratios.', [SP, SI], [('share rounding', SI + ' internal_stake / inner_unstake')], SPS, ['account state'])
p('P05', 'Staking pool rewards are split exactly with the fee', 'When an epoch has passed, the growth of the pool\'s balance since the last distribution is added to the staked balance once, the owner receives shares worth the fee fraction of it (rounded down, never more), and all other holders share the rest; within one epoch, or without growth, nothing is distributed.',
  ['inputs', 'histories'], 'every pool state, fee fraction, reward amount and epoch', 'Tests use one fee and one reward.', [SP, SI], [('internal_ping', SI), ('reward fee fraction', SP)], SPS, ['contract state', 'account state'])
p('P06', 'The pool restakes exactly its staked total after every change', 'Every call that changes the staked total, the key or the paused flag sends a stake action for exactly the recorded staked total under the current key, followed by a callback to the pool itself; while paused it sends none. If that action fails and tokens are still locked, the callback unstakes everything, and only the pool itself can invoke the callback.',
  ['inputs', 'fault_sequences'], 'every pool state and call; both outcomes of the stake action', 'The failing stake action and pause combinations are hardly tested.', [SP, SI], [('internal_restake', SI), ('on_stake_action', SP)], SPS, ['stake receipts'])
p('P07', 'Staking pool administration belongs to the owner alone', 'Only the owner can change the staking key, the reward fee, pause or resume staking, or vote with the pool\'s stake; no call ever changes the owner. Fee fractions stay at most one, a pool is initialised once with valid parameters, and pausing only alternates with resuming.',
  ['inputs'], 'every caller name (symbolic), argument and pool state', 'Tests try one or two wrong callers.', [SP, SI], [('assert_owner', SI), ('RewardFeeFraction::assert_valid', SP)], SPS, ['call outcome', 'receipts'])
p('P08', 'Staking pool views report the stored balances truthfully', 'The balance and pool views return exactly the values the state implies: unstaked, staked (shares at the current price, rounded down), their sum, availability by epoch, totals, fee, key, owner and paused flag, and never change state.',
  ['inputs'], 'every pool state', 'Tests query a few states.', [SP], [('view methods', SP)], SPS, ['view results'])
VT = 'voting/src/lib.rs'
p('P10', 'The vote ledger reflects the validators\' current stakes', 'After every vote or ping each recorded vote equals the stake its validator has in the current epoch, the recorded total equals the sum of the recorded votes, and each account counts at most once. A withdrawn vote counts for nothing, and only accounts with stake can vote.',
  ['inputs', 'histories'], 'every poll state, stake distribution, epoch, caller and vote', 'Stake changes between epochs interleave with votes in ways tests sample once.', [VT], [('ping', VT), ('vote', VT)], [('votes', 'validator to counted stake', VT), ('total_voted_stake', 'sum of the votes', VT)], ['get_votes', 'get_total_voted_stake'])
p('P11', 'A poll is decided exactly by more than two thirds of the stake', 'A poll becomes decided at the block time of the first vote or ping at which the recorded votes exceed two thirds of the total stake, never otherwise, and a decided poll never changes again.',
  ['inputs', 'histories'], 'every poll state, stake distribution and total, including amounts next to the two-thirds boundary', 'The boundary is a single point in a 128-bit range.', [VT], [('check_result', VT)], [('result', 'time of decision', VT)], ['get_result'])
WL = 'whitelist/src/lib.rs'
p('P12', 'Only the foundation and whitelisted factories control the whitelist', 'Factories are added and removed and pools removed only by the foundation account, pools are added only by it or a whitelisted factory; every other caller is rejected without effect. The foundation account never changes.',
  ['inputs'], 'every caller name (symbolic, 5 letters), any whitelist content', 'Tests try a single wrong caller.', [WL], [('assert_called_by_foundation', WL)], [('whitelist', 'pools', WL), ('factory_whitelist', 'factories', WL)], ['call outcome'])
p('P13', 'Whitelist membership changes exactly as requested', 'A successful call changes the membership of exactly the named account in exactly one of the two sets, reports whether it changed, and the queries answer accordingly. Pools and factories never mix.',
  ['inputs', 'histories'], 'any whitelist content, every operation and target', 'Idempotence and set separation are sampled.', [WL], [('set updates', WL)], [], ['is_whitelisted', 'is_factory_whitelisted'])
WN = ['w-near/src/lib.rs', 'w-near/src/w_near.rs']
p('P14', 'Wrapped NEAR is fully backed and minted or burned exactly', 'Depositing mints exactly the deposit (less the registration cost of a new account), withdrawing burns exactly the amount and pays it to the caller, and after every call the contract holds at least one NEAR per wrapped token in existence.',
  ['inputs', 'histories'], 'every token state with two explicit holders, every call and amount', 'Tests use a few amounts.', WN, [('near_deposit / near_withdraw', 'w-near/src/w_near.rs')], [('ft', 'balances and supply', 'w-near/src/lib.rs')], ['ft_total_supply', 'transfer receipts'])
p('P15', 'Wrapped NEAR conserves tokens across transfers', 'Transfers move exactly the amount between registered accounts, a failed or partly used transfer call returns exactly the unused part the receiver still has, the supply always equals the sum of balances, and storage registration refunds are exact. No third account is ever affected.',
  ['inputs', 'fault_sequences', 'histories'], 'every token state, amounts, and every outcome of the receiver', 'The resolve step\'s outcomes and concurrent balance changes are not tested.', WN, [('fungible token core', 'w-near/src/lib.rs'), ('storage management', 'w-near/src/lib.rs')], [], ['ft_balance_of', 'receipts'])

exec(open(os.path.join(V, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta2.py')) else None
NA = globals().get('NA', [])

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P + [x for x, _ in NA]: f.write(json.dumps({k: v for k, v in x.items() if not k.startswith('_')}) + '\n')
    checks = [dict(property=x['id'], quick_cmd='python3-vt check.py %s' % x['id'], thorough_cmd='python3-vt check.py %s --thorough' % x['id'],
                   evidence_file='evidence/%s.json' % x['id'], technique=TECH, level='model_checking',
                   level_note=LEVEL + 'one call from an arbitrary state satisfying stated invariants (induction over histories)' + x['_note'] + '.') for x in P]
    json.dump(dict(version=1, setup_cmd='python3-vt vt/build.py setup', checks=checks, not_applicable=[dict(property=x['id'], reason=r) for x, r in NA],
                   notes='properties.jsonl and this file are written by tools/meta.py. No hooks in /repo.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
