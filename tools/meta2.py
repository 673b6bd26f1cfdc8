# continuation of meta.py: multisig, lockup, factories, composition
def ms(n, files, base):
    L = 'multisig/src/lib.rs' if n == 1 else 'multisig2/src/lib.rs'
    who = 'key' if n == 1 else 'member'
    N = 'Multisig' if n == 1 else 'Multisig2'
    st = [('requests', 'pending requests', L), ('confirmations', 'members that confirmed each request', L), ('num_requests_pk', 'number of active requests per ' + who, L), ('num_confirmations', 'threshold', L)] + ([('members', 'accounts and keys', L)] if n == 2 else [])
    p('P%d' % base, N + ' executes a request only after enough distinct confirmations',
      'A request is executed exactly once, exactly when the number of distinct current %ss that confirmed it (the confirming call included) reaches the threshold; until then a confirmation is only recorded, nothing is sent, and a second confirmation by the same %s is rejected. An executed request is gone, with its confirmations and its place in the creator\'s count. Only %s confirm.' % (who, who, 'keys of the account' if n == 1 else 'members'),
      ['inputs', 'histories'], 'every threshold, number and choice of recorded confirmations, caller and request; sequences of confirmations', 'Tests use 2 of 3 with one order.', [L], [('confirm', L), ('add_request_and_confirm', L)], st, ['receipts', 'contract state'])
    p('P%d' % (base + 1), N + ' performs exactly the actions that were confirmed',
      'Executing a request performs its actions exactly, in order, on its receiver and nothing else; key, member, threshold and limit changes are possible only for the multisig\'s own account, and the threshold and limit changes only as single actions. A threshold or limit is set to exactly the requested value' + ('; the threshold never exceeds the number of members and removing members never makes it unreachable.' if n == 2 else '.'),
      ['inputs'], 'every action kind with symbolic amounts, gas and limits, and bundles of several actions', 'Most action kinds and every bundle are untested.', [L], [('execute_request', L)], st, ['receipts', 'contract state'])
    p('P%d' % (base + 2), 'Removing a %s from the %s removes its influence' % (who, N.lower()),
      'When a %s is removed by a confirmed request, its own pending requests and their confirmations disappear, its confirmations no longer count for any other request, and the other %ss\' requests and confirmations stay as they are. A removed %s cannot act any more.' % (who, who, who),
      ['inputs', 'histories'], 'every arrangement of up to three pending requests and confirmations around the removed ' + who, 'Tests remove a key without other pending requests.', [L], [('DeleteKey' if n == 1 else 'DeleteMember', L)], st, ['contract state'])
    p('P%d' % (base + 3), N + ' requests follow their rules',
      'Only %ss add requests, up to the active request limit each; a new request gets a fresh id and starts unconfirmed. A request can be deleted only by a %s and only after its cooldown of 15 minutes; deleting frees its place and its confirmations and touches nothing else. The views report exactly the stored requests, confirmations, threshold and counts, and initialisation happens once with the given %s.' % (who, who, 'threshold' if n == 1 else 'members and a reachable threshold, giving each member key a restricted access key'),
      ['inputs'], 'every caller, count, limit, time and request content', 'Limits and the cooldown are tested at one value.', [L], [('add_request', L), ('delete_request', L), ('new', L)], st, ['views', 'contract state'])
ms(1, None, 20); ms(2, None, 24)

LF = ['lockup/src/lib.rs', 'lockup/src/getters.rs', 'lockup/src/internal.rs', 'lockup/src/owner.rs', 'lockup/src/owner_callbacks.rs', 'lockup/src/foundation.rs', 'lockup/src/foundation_callbacks.rs', 'lockup/src/types.rs']
LS = [('lockup_information', 'amount, durations, transfer status, withdrawn tokens', LF[0]), ('vesting_information', 'schedule, hash or termination', LF[0]), ('staking_information', 'selected pool, known deposit, idle or busy', LF[0])]
p('P30', 'Locked and unvested amounts follow the schedule exactly', 'The locked amount is, at every time, the larger of the not yet released part (everything before the lockup ends, then falling linearly over the release duration, less what was withdrawn after a termination) and the unvested part (everything before the cliff, then falling linearly to zero at the end of vesting), everything while transfers are disabled, and it never grows as time passes. The balance views derive from it, the account balance and the known deposit.',
  ['inputs'], 'every lockup configuration, amount, timestamp and balance', 'Tests evaluate a few dates of a few schedules; rounding, saturation and combinations of release and vesting are not covered.', LF, [('get_locked_amount', LF[1]), ('get_unvested_amount', LF[1])], LS, ['views'])
p('P31', 'The owner can move only what is unlocked', 'A transfer succeeds exactly when transfers are enabled, no staking operation is running, no termination is under way, and the amount is at most the owner\'s unlocked tokens and leaves the storage reserve; it sends exactly the amount to the receiver. A full access key is given out only when nothing at all is locked or unvested.',
  ['inputs'], 'every lockup state, time, balance and amount', 'The limit is a formula over six quantities that tests evaluate at a few points.', LF, [('transfer', LF[3]), ('add_full_access_key', LF[3])], LS, ['transfer receipts', 'key receipts'])
p('P32', 'Lockup methods belong to the owner, the foundation or the contract itself', 'Owner operations can be called only by the owner, termination only by the foundation (while there is one), and callbacks only by the contract itself.',
  ['inputs'], 'every caller name (symbolic) and every exported method', 'Tests try one wrong caller on few methods.', LF, [('assert_owner / assert_called_by_foundation / assert_self', LF[2])], LS, ['call outcome'])
p('P33', 'Lockup staking operations run one at a time and keep the books', 'A pool is selected only if the whitelist approves it and none is selected, and given up only when idle and without known deposits. Every operation is sent exactly as requested to the selected pool, never below the storage reserve, marks the account busy until its answer arrives, and then updates the known deposit exactly according to success or failure and becomes idle again.',
  ['inputs', 'fault_sequences', 'schedules'], 'every operation, amount, state, and success or failure of every cross-contract call, with changes made in between', 'Failure of the pool calls and interleavings of selection are hardly tested.', LF, [('owner operations', LF[3]), ('callbacks', LF[4])], LS, ['receipts', 'contract state'], '; the callbacks scheduled by the call follow')
p('P34', 'Vesting termination recovers exactly the unvested tokens', 'The foundation can terminate vesting only with the true and valid schedule and only while something is unvested; exactly the unvested amount is then withheld, missing funds are unstaked and withdrawn from the pool step by step, and what is paid out is the unvested amount as far as available, once per token, recorded as withdrawn. A failed step can be repeated, and completion ends the foundation\'s role.',
  ['inputs', 'fault_sequences', 'histories'], 'every schedule, time, balance and termination status, success or failure of every step', 'The termination flow has nine steps with failures at each, of which tests run the successful one.', LF, [('terminate_vesting', LF[5]), ('termination_prepare_to_withdraw', LF[5]), ('termination_withdraw', LF[5]), ('callbacks', LF[6])], LS, ['receipts', 'contract state'], '; the callbacks scheduled by the call follow')
p('P35', 'Lockup transfers are enabled by the poll and only once', 'While transfers are disabled they become enabled exactly when the transfer poll answers with a decision, at the decided time; no answer, a failed query or a late second answer changes nothing.',
  ['inputs', 'fault_sequences'], 'every answer, failure and repeated answer', 'Late and failed answers are untested.', LF, [('check_transfers_vote', LF[3]), ('on_get_result_from_transfer_poll', LF[4])], LS, ['contract state'])
p('P36', 'A lockup is initialised once with valid terms and locks its whole balance', 'Initialisation succeeds exactly once, with valid account ids, a foundation exactly if there is vesting, and a valid explicit vesting schedule; it locks the whole initial balance under the given terms.',
  ['inputs'], 'every combination of terms and balances', 'Tests use valid terms.', LF, [('new', LF[0])], LS, ['contract state', 'call outcome'])
FA = ['staking-pool-factory/src/lib.rs', 'lockup-factory/src/lib.rs', 'multisig-factory/src/lib.rs']
p('P40', 'Staking pool factory creates and whitelists pools faithfully', 'For a valid unused name, owner and fee and at least the minimum deposit, the factory creates the sub-account with the shipped pool code, the whole deposit and the requested owner, key and fee; after success it whitelists exactly that pool, after failure it returns the whole deposit to the sender and frees the name. A name in use or in creation is refused; the count of pools is right.',
  ['inputs', 'fault_sequences', 'schedules'], 'every deposit and fee, valid and invalid names, both outcomes, two creations in flight', 'One success and one failure are tested.', [FA[0], 'staking-pool/src/lib.rs', 'whitelist/src/lib.rs'], [('create_staking_pool', FA[0]), ('on_staking_pool_create', FA[0])], [('staking_pool_account_ids', 'pools created or in creation', FA[0])], ['receipts', 'contract state'], '; the created contract\'s initialisation, the callback and the whitelist call follow')
p('P41', 'Lockup factory creates lockups under exactly the requested terms', 'For a valid owner and at least the minimum deposit, the factory creates the account derived from the owner\'s name with the shipped lockup code and the whole deposit, under the requested durations, timestamp and vesting, with the foundation exactly if there is vesting, transfers enabled since the recorded date and the requested or default whitelist; after a failure the whole deposit returns to the sender. The factory\'s settings never change.',
  ['inputs', 'fault_sequences'], 'every deposit, duration, timestamp and schedule, both outcomes', 'The created lockup\'s terms are never examined by tests.', [FA[1], LF[0]], [('create', FA[1]), ('on_lockup_create', FA[1])], [], ['receipts'], '; the created contract\'s initialisation and the callback follow')
p('P42', 'Multisig factory creates multisigs with exactly the requested members', 'The factory creates the named sub-account with the shipped multisig code and the whole deposit, and initialises it with exactly the requested members and threshold.',
  ['inputs'], 'every deposit, threshold and prepaid gas; several member lists', 'The factory has no tests.', [FA[2], 'multisig2/src/lib.rs'], [('create', FA[2])], [], ['receipts'], '; the created contract\'s initialisation follows')
p('P43', 'A failed creation returns the money, and only factories report outcomes', 'When a factory\'s creation fails, the deposit attached to it goes back to its sender, each to its own when several are in flight. The outcome callbacks can be invoked only by the factory itself, with exactly one result.',
  ['inputs', 'fault_sequences'], 'every caller name (symbolic), amount and outcome', 'Nobody calls the callbacks from outside in tests.', FA, [('outcome callbacks', FA[0] + ', ' + FA[1])], [], ['receipts', 'call outcome'], '; the outcome callback follows')
p('P50', 'Lockup and staking pool agree about the money', 'With the real staking pool on the other side, every staking operation of a lockup is understood by the pool, moves exactly the stated amount between the lockup and its account at the pool, and its answer updates the lockup\'s known deposit accordingly; a refused operation changes neither side.',
  ['inputs', 'histories'], 'every state of both contracts, every operation and amount', 'The contracts are tested together only on one successful path.', LF + [SP, SI], [('external calls', LF[0]), ('callbacks', LF[4])], LS + SPS, ['receipts', 'state of both contracts'], '; the pool\'s and the callbacks\' calls follow')
p('P51', 'Termination empties the lockup\'s account at the staking pool', 'With the real staking pool, the unstaking step of a termination leaves no shares of the lockup at the pool and the withdrawal step brings its whole unstaked balance home; a step the pool refuses can be repeated.',
  ['inputs', 'histories'], 'every state of both contracts', 'Rounding between the queried balance and the unstaked shares is sampled once.', LF + [SP, SI], [('termination_prepare_to_withdraw', LF[5]), ('callbacks', LF[6])], LS + SPS, ['receipts', 'state of both contracts'], '; the pool\'s and the callbacks\' calls follow')
p('P52', 'Whitelist, poll and their users understand each other', 'With the real contracts: a lockup selects a pool exactly when the whitelist lists it, enables transfers exactly when the poll is decided and at its time, and a staking pool\'s vote is counted by the poll with the pool\'s stake or taken back.',
  ['inputs', 'histories'], 'every content of whitelist and poll, stakes and times', 'Interfaces are tested with stand-ins.', [LF[3], LF[4], WL, VT, SP], [('external interfaces', LF[0] + ', ' + SP)], [], ['state of the contracts'], '; the called contract and the callback follow')
SM = 'state-manipulation/src/lib.rs'
p('P60', 'State replacement writes exactly the given entries', 'A replace call with well-formed entries leaves every given key with the last value given for it and every other key of the contract as it was; a call with malformed input is refused as a whole. It sends no receipts.',
  ['inputs'], 'every key and value content of the lengths in the bounds, keys colliding with each other and with stored keys in every way, any probed key', 'The test writes random entries into an empty state; it needs a network and does not run.', [SM], [('replace', SM)], [('storage', 'the raw key-value state of the account', SM)], ['contract storage'])
p('P61', 'State cleaning removes exactly the given keys', 'A clean call with well-formed keys removes every given key that is stored and leaves every other key with its value; missing and repeated keys do not matter; a call with malformed input is refused as a whole. It sends no receipts.',
  ['inputs'], 'every key content of the lengths in the bounds, stored or not, repeated or not, any probed key', 'The test only cleans the state completely; it needs a network and does not run.', [SM], [('clean', SM)], [('storage', 'the raw key-value state of the account', SM)], ['contract storage'])
