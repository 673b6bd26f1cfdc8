"""Staking pool (staking-pool): P01..P07."""
from .common import *
C = 'staking-pool'
KEY0 = b'\0' * 33
KEY1 = b'\0' + b'\x07' * 32
B58KEY1 = 'ed25519:' + 'US517G5965aydkZ46HS38QLi7UQiSojurfbQfKCELFx'   # base58 of 32 bytes 0x07
FUND = 10 ** 12
USER = ['deposit', 'deposit_and_stake', 'withdraw', 'withdraw_all', 'stake', 'stake_all', 'unstake', 'unstake_all', 'ping']
OWNER = ['update_staking_key', 'update_reward_fee_fraction', 'pause_staking', 'resume_staking']
NAMES = ['alice', 'owner', 'bobby']

class Pool:
    """symbolic pre-state: any reachable totals, the accounts alice / owner / bobby (others summarised in the totals)"""
    def __init__(self, cx, owner_in=None, paused=0, names=('alice', 'bobby')):
        self.cx = cx
        if paused is None or cx.run.tier == 'thorough': paused = None
        g = lambda n, lo=0, hi=SUPPLY: cx.u128(n, lo, hi)
        self.T = g('T', 1); self.S = g('S', 1); self.L = g('L')
        cx.assume(tm(self.T) >= tm(self.S))                 # invariant: share price >= 1
        self.acc = {}
        names = list(names)
        own = cx.choose('owner_in', [0, 1]) if owner_in is None else owner_in
        if own: names.insert(1, 'owner')
        for n in names:
            a = dict(unstaked=g('u_' + n), stake_shares=g('s_' + n), unstaked_available_epoch_height=cx.int('e_' + n, 0, 10 ** 12))
            cx.assume(tm(a['unstaked']) + tm(a['stake_shares']) > 0)
            self.acc[n] = a
        cx.assume(sum(tm(a['stake_shares']) for a in self.acc.values()) + 1 <= tm(self.S))   # invariant: the initial shares belong to nobody
        cx.assume(tm(self.T) + sum(tm(a['unstaked']) for a in self.acc.values()) <= tm(self.L))   # invariant: backed
        self.le = cx.int('last_epoch', 0, 10 ** 12)
        self.num = cx.int('num', 0, (1 << 32) - 1); self.den = cx.int('den', 1, (1 << 32) - 1)
        cx.assume(tm(self.num) <= tm(self.den))
        self.paused = cx.bool('paused') if paused is None else paused
        self.key = KEY0
        self.epoch = cx.int('epoch', 0, 10 ** 12)
        cx.assume(tm(self.epoch) >= tm(self.le))            # epochs only advance
        cx.assume(And(*[tm(a['unstaked_available_epoch_height']) <= tm(self.le) + 4 for a in self.acc.values()]))   # invariant: set by an unstake in an epoch already recorded
        self.bal = g('bal'); self.locked = g('locked')
        self.value = dict(owner_id='owner', stake_public_key=KEY0, last_epoch_height=self.le, last_total_balance=self.L, total_stake_shares=self.S,
                          total_staked_balance=self.T, reward_fee_fraction=dict(numerator=self.num, denominator=self.den),
                          accounts=Coll(b'u', list(self.acc.items())), paused=self.paused)
        self.storage = cx.mkstate(C, 'StakingContract', self.value)
    def call(self, m, pred, args=None, deposit=0, storage=None, **kw):
        k = dict(predecessor=pred, signer="sammy", current='spool', balance=self.bal, locked=self.locked, epoch=self.epoch, deposit=deposit)
        k.update(kw)
        return self.cx.call(C, m, storage or self.storage, args, **k)

class St:
    """decoded state"""
    def __init__(self, cx, storage):
        v = cx.state(C, storage, 'StakingContract')
        self.v = v; self.T = v['total_staked_balance']; self.S = v['total_stake_shares']; self.L = v['last_total_balance']
        self.le = v['last_epoch_height']; self.num = v['reward_fee_fraction']['numerator']; self.den = v['reward_fee_fraction']['denominator']
        self.paused = v['paused']; self.key = v['stake_public_key']; self.owner = v['owner_id']
        self.acc = {text(k): a for k, a in v['accounts'].items}

ZERO = dict(unstaked=0, stake_shares=0, unstaked_available_epoch_height=0)
def same_acc(a, b): return And(*[tm(a[k]) == tm(b[k]) for k in ZERO])
def amount_args(cx, m):
    if m in ('withdraw', 'stake', 'unstake'):
        a = cx.u128('amt'); return a, {'amount': N128(a)}
    return None, None
B58KEY0 = 'ed25519:' + '1' * 32
def owner_args(cx, m):
    if m == 'update_staking_key': return {'stake_public_key': cx.choose('newkey', [B58KEY1, B58KEY0])}        # another key, or the current one again
    if m == 'update_reward_fee_fraction': return {'reward_fee_fraction': {'numerator': cx.int('num2', 0, (1 << 32) - 1), 'denominator': cx.int('den2', 0, (1 << 32) - 1)}}
    return None

def newkey(args): return KEY0 if args['stake_public_key'] == B58KEY0 else KEY1
def do(cx, m, p, pred=None):
    """one call of m on the symbolic pool by a symbolic choice of caller"""
    if pred is None: pred = 'owner' if m in OWNER else cx.choose('pred', ['alice', 'owner', 'zelda'] if 'owner' in p.acc or cx.run.tier == 'thorough' else ['alice', 'zelda'])
    p.pred = pred
    p.dep = cx.u128('dep', 0, SUPPLY) if m in ('deposit', 'deposit_and_stake') else 0
    p.amt, args = amount_args(cx, m)
    if m in OWNER: args = owner_args(cx, m)
    p.args = args
    return p.call(m, pred, args, deposit=p.dep)

OTHER = ['vote', 'on_stake_action']
def do_other(cx, m, p):
    """the owner's vote and the callback of a stake action, successful or failed"""
    p.pred = 'owner' if m == 'vote' else 'spool'; p.dep = 0; p.amt = None
    return p.call(m, p.pred, {'voting_account_id': 'voting', 'is_vote': cx.choose('yes', [True, False])} if m == 'vote' else None,
                  presults=[] if m == 'vote' else cx.choose('result', [[('ok', b2a(b''))], [('fail',)]]))
def s_other(m):
    """neither voting nor the stake callback touches the money"""
    def scn(cx):
        p = Pool(cx, paused=None); o = do_other(cx, m, p)
        if not o.ok: cx.reach('rejected'); return
        cx.reach('ok'); n = St(cx, o.storage)
        # a vote may distribute the reward first
        t = And(*[tm(getattr(n, k)) == tm(getattr(p, k)) for k in ('T', 'S', 'L', 'le', 'num', 'den')], *[same_acc(p.acc.get(x, ZERO), n.acc.get(x, ZERO)) for x in set(p.acc) | set(n.acc)], z3.BoolVal(set(n.acc) == set(p.acc)))
        cx.prove('shares, stake, balances and accounts untouched', t)
        cx.prove('no money leaves', z3.BoolVal(not any(a['k'] == 'transfer' or a.get('amount', 0) != 0 for r in o.receipts for a in r['actions'] if a['k'] != 'stake')))
    return scn
def newepoch(p): return tm(p.epoch) != tm(p.le)
def reward(p): return tm(p.bal) + tm(p.locked) - tm(p.L)      # p.bal excludes the attached deposit

# ---------------------------------------------------------------- P01 share price
def s_price(m):
    def scn(cx):
        p = Pool(cx, paused=None); o = do(cx, m, p)
        if not o.ok: cx.reach('rejected'); return
        cx.reach('ok'); n = St(cx, o.storage)
        # with a new epoch: the rewards move the price from T/S to T1/S1, the operation itself from T1/S1 to T2/S2
        own = tm(n.acc.get('owner', ZERO)['stake_shares']) - tm(p.acc.get('owner', ZERO)['stake_shares'])
        goal = mul(n.T, p.S) >= mul(p.T, n.S)
        if cx.branch(newepoch(p)):
            T1 = V(tm(p.T) + reward(p), 1, 3 * SUPPLY)
            twostep = m in ('stake', 'stake_all', 'unstake', 'unstake_all', 'deposit_and_stake')
            mine = tm(n.acc.get(p.pred, ZERO)['stake_shares']) - tm(p.acc.get(p.pred, ZERO)['stake_shares'])
            if p.pred != 'owner' or not twostep: S1 = V(tm(p.S) + own, 1, 3 * SUPPLY)
            else:    # the owner's own operation: its fee shares from the reward formula
                R = V(reward(p), 0, 2 * SUPPLY)
                fee = s_divmod(s_mul(p.num, R), p.den)[0]
                S1 = add(p.S, s_divmod(s_mul(p.S, fee), V(tm(p.T) + (tm(R) - tm(fee)), 1, 3 * SUPPLY))[0])
                own = sub(S1, p.S)
            if S1 is not None:
                hints = cx.known(*[f for d in cx.divisors() for f in (d >= tm(p.T), d <= tm(T1))])
                cx.prove('share price never decreases by rewards', mul(T1, p.S) >= mul(p.T, S1), lemmas=hints, mult=[tm(p.S), own])
                if twostep: cx.prove('share price never decreases', goal, lemmas=[mul(T1, p.S) >= mul(p.T, S1), mul(n.T, S1) >= mul(T1, n.S)], mult=[tm(n.S), tm(p.S), tm(S1)])
                else: cx.prove('share price never decreases', goal, lemmas=[tm(n.T) == tm(T1), tm(n.S) == tm(S1), mul(T1, p.S) >= mul(p.T, S1)])
            else: cx.prove('share price never decreases', goal)
        else: cx.prove('share price never decreases', goal)
        cx.prove('share price stays at least 1', And(tm(n.T) >= tm(n.S), tm(n.S) >= 1), lemmas=[goal, tm(p.T) >= tm(p.S)], mult=[tm(p.S), tm(n.S)])
    return scn
def s_new(cx):
    bal = cx.u128('bal', 0, SUPPLY); lk = cx.u128('locked', 0, SUPPLY)
    num = cx.int('num', 0, (1 << 32) - 1); den = cx.int('den', 0, (1 << 32) - 1); dep = cx.u128('dep', 0, SUPPLY)
    ep = cx.int('epoch', 0, 10 ** 12)
    had = cx.choose('had', [0, 1])
    s = Storage()
    if had: p = Pool(cx, owner_in=0, paused=None); s = p.storage
    own = cx.choose('owner', ['owner'] if had else ['owner', 'Owner', 'o', 'ow..ner', ''])
    o = cx.call(C, 'new', s, {'owner_id': own, 'stake_public_key': B58KEY1, 'reward_fee_fraction': {'numerator': num, 'denominator': den}},
                predecessor='alice', current='spool', balance=bal, locked=lk, epoch=ep)
    valid = And(z3.BoolVal(not had and own == 'owner'), tm(lk) == 0, tm(num) <= tm(den), tm(den) >= 1, tm(bal) >= FUND)
    if not o.ok:
        cx.reach('rejected'); cx.prove('a valid initialization is accepted', Not(valid)); return
    cx.reach('ok'); n = St(cx, o.storage)
    cx.prove('initialization only once, with a valid fee and nothing locked', valid)
    cx.prove('initial totals', And(tm(n.T) == tm(bal) - FUND, tm(n.S) == tm(n.T), tm(n.L) == tm(bal), tm(n.le) == tm(ep), tm(n.num) == tm(num), tm(n.den) == tm(den)))
    cx.prove('initial roles', And(eqb(n.owner, 'owner'), eqb(n.key, KEY1), Not(B(n.paused)), z3.BoolVal(not n.acc)))
    stake_action(cx, n, o, 1)

@prop('P01', {'accounts': 'caller + owner + one more concrete account, all others summarised in the totals', 'calls': '1 (inductive step from any state with price >= 1)'})
def P01(run):
    for m in USER + OWNER: run.explore(m, s_price(m), [C], ['ok', 'rejected'] if m != 'ping' else ['ok'])
    for m in OTHER: run.explore(m, s_other(m), [C], ['ok'])
    run.explore('new', s_new, [C], ['ok', 'rejected'])

# ---------------------------------------------------------------- P02 solvency and ledger
def s_ledger(m):
    def scn(cx):
        p = Pool(cx, paused=None); o = do(cx, m, p)
        if not o.ok: cx.reach('rejected'); return
        cx.reach('ok'); n = St(cx, o.storage)
        names = set(p.acc) | set(n.acc)
        du = sum(tm(n.acc.get(x, ZERO)['unstaked']) - tm(p.acc.get(x, ZERO)['unstaked']) for x in names)
        ds = sum(tm(n.acc.get(x, ZERO)['stake_shares']) - tm(p.acc.get(x, ZERO)['stake_shares']) for x in names)
        paid = z3.IntVal(0)
        for r in o.receipts:
            for a in r['actions']:
                if a['k'] in ('transfer', 'call'): paid = paid + tm(a['amount'])
        rew = If(newepoch(p), reward(p), z3.IntVal(0))
        cx.prove('every share belongs to an account', tm(n.S) - tm(p.S) == ds)
        cx.prove('tracked balance follows deposits, payments and rewards', tm(n.L) - tm(p.L) == rew + tm(p.dep) - paid)
        slack = 1 if m in ('stake', 'stake_all', 'unstake', 'unstake_all', 'deposit_and_stake') else 0
        owed = (tm(n.T) - tm(p.T)) + du; got = tm(n.L) - tm(p.L)
        cx.prove('liabilities grow by no more than the tracked balance plus the rounding unit', And(owed <= got + slack, owed >= got))
        cx.prove('no account is stored with zero balances', And(*[tm(a['unstaked']) + tm(a['stake_shares']) > 0 for a in n.acc.values()]))
        cx.prove('funds leave only to the caller by withdrawal', z3.BoolVal(all(a['k'] == 'transfer' and text(r['to']) == p.pred for r in o.receipts for a in r['actions'] if a.get('amount', 0) != 0 and a['k'] != 'stake')) if m.startswith('withdraw') else paid == 0)
    return scn
@prop('P02', {'accounts': 'caller + owner + one more concrete account, all others summarised in the totals', 'calls': '1 (inductive step)'})
def P02(run):
    for m in USER + OWNER: run.explore(m, s_ledger(m), [C], ['ok'])
    for m in OTHER: run.explore(m, s_other(m), [C], ['ok'])
    run.explore('new', s_new, [C], ['ok', 'rejected'])

# ---------------------------------------------------------------- P03 deposits / withdrawals / delay
def s_wd(m):
    def scn(cx):
        p = Pool(cx, paused=None); o = do(cx, m, p)
        a0 = p.acc.get(p.pred, ZERO)
        ping_ok = Or(Not(newepoch(p)), reward(p) >= 0)
        want = p.amt if m == 'withdraw' else a0['unstaked'] if m == 'withdraw_all' else None
        if m in ('withdraw', 'withdraw_all'):
            okc = And(tm(want) > 0, tm(want) <= tm(a0['unstaked']), tm(a0['unstaked_available_epoch_height']) <= tm(p.epoch))
        if not o.ok:
            cx.reach('rejected')
            if m in ('withdraw', 'withdraw_all'): cx.prove('an available withdrawal is paid', Not(And(okc, ping_ok, tm(p.bal) >= tm(want))))
            elif m == 'deposit': cx.prove('a deposit is accepted', Not(ping_ok))
            return
        cx.reach('ok'); n = St(cx, o.storage); a1 = n.acc.get(p.pred, ZERO)
        pays = [(r, a) for r in o.receipts for a in r['actions'] if a['k'] not in ('stake',) and not (a['k'] == 'call' and text(r['to']) == 'spool')]
        rate = mul(0, 0)
        if m in ('withdraw', 'withdraw_all'):
            cx.prove('withdrawal only of available funds', okc)
            cx.prove('account debited exactly', And(tm(a1['unstaked']) == tm(a0['unstaked']) - tm(want)))
            cx.prove('exactly one payment, to the caller, of the amount', And(z3.BoolVal(len(pays) == 1), *[And(z3.BoolVal(a['k'] == 'transfer'), eqb(r['to'], p.pred), tm(a['amount']) == tm(want)) for r, a in pays]))
            cx.prove('delay unchanged by a withdrawal', Or(tm(a1['unstaked_available_epoch_height']) == tm(a0['unstaked_available_epoch_height']), z3.BoolVal(p.pred not in n.acc)))
        else:
            cx.prove('no payment', z3.BoolVal(not pays))
        if m == 'deposit':
            cx.prove('deposit credited exactly', And(tm(a1['unstaked']) == tm(a0['unstaked']) + tm(p.dep)))
            cx.prove('delay unchanged by a deposit', Or(tm(a1['unstaked_available_epoch_height']) == tm(a0['unstaked_available_epoch_height']), z3.BoolVal(p.pred not in n.acc)))
        if m.startswith('unstake'):
            cx.prove('unstaked funds available exactly four epochs later', tm(a1['unstaked_available_epoch_height']) == tm(p.epoch) + 4)
        if m in ('stake', 'stake_all', 'deposit_and_stake'):
            cx.prove('delay unchanged by staking', tm(a1['unstaked_available_epoch_height']) == tm(a0['unstaked_available_epoch_height']))
        # nobody else's account moves, except the owner's shares from the reward fee
        for x in set(p.acc) | set(n.acc):
            if x == p.pred: continue
            b0, b1 = p.acc.get(x, ZERO), n.acc.get(x, ZERO)
            if x == 'owner': cx.prove('owner account: only its shares may grow, only with a new epoch', And(tm(b1['unstaked']) == tm(b0['unstaked']), tm(b1['unstaked_available_epoch_height']) == tm(b0['unstaked_available_epoch_height']), tm(b1['stake_shares']) >= tm(b0['stake_shares']), Or(newepoch(p), tm(b1['stake_shares']) == tm(b0['stake_shares']))))
            else: cx.prove('other accounts untouched', And(z3.BoolVal(x in n.acc and x in p.acc), same_acc(b0, b1)))
        if m in OWNER + ['ping']:
            cx.prove('unstaked tokens of the caller untouched', And(tm(a1['unstaked']) == tm(a0['unstaked']), Or(tm(a1['unstaked_available_epoch_height']) == tm(a0['unstaked_available_epoch_height']), z3.BoolVal(p.pred not in n.acc))))
        if m == 'deposit_and_stake':
            rew = If(newepoch(p), reward(p), z3.IntVal(0)); moved = tm(a1['unstaked']) - tm(a0['unstaked']) + tm(n.T) - tm(p.T) - rew
            cx.prove('the attached amount is credited exactly before it is staked', And(moved >= tm(p.dep), moved <= tm(p.dep) + 1))
        if m in ('deposit', 'withdraw', 'withdraw_all', 'ping') and p.pred != 'owner':
            cx.prove('shares of the caller untouched', tm(a1['stake_shares']) == tm(a0['stake_shares']))
    return scn
@prop('P03', {'accounts': 'caller in {existing, owner, unknown} + one bystander', 'calls': '1'})
def P03(run):
    for m in USER + OWNER: run.explore(m, s_wd(m), [C], ['ok', 'rejected'])
    for m in OTHER: run.explore(m, s_other(m), [C], ['ok'])

# ---------------------------------------------------------------- P04 fairness of stake / unstake
def s_stake(m):
    """exact share arithmetic of one stake/unstake in the same epoch"""
    def scn(cx):
        p = Pool(cx, owner_in=0, paused=None)
        cx.assume(tm(p.epoch) == tm(p.le))
        o = do(cx, m, p, pred=cx.choose('pred', ['alice', 'zelda']))
        a0 = p.acc.get(p.pred, ZERO)
        T, S = p.T, p.S
        if m in ('stake', 'stake_all', 'deposit_and_stake'):
            avail = add(a0['unstaked'], p.dep)
            amt = p.amt if m == 'stake' else avail if m == 'stake_all' else p.dep
            if not o.ok:
                cx.reach('rejected')
                cx.prove('staking an affordable amount worth at least one share succeeds', Not(And(tm(amt) > 0, tm(amt) <= tm(avail), mul(amt, S) >= tm(T))))
                return
            cx.reach('ok'); n = St(cx, o.storage); a1 = n.acc.get(p.pred, ZERO)
            sh = V(tm(a1['stake_shares']) - tm(a0['stake_shares']), 0, SUPPLY * 2); ch = tm(avail) - tm(a1['unstaked'])
            cx.prove('at least one share, and a positive charge', And(tm(sh) >= 1, ch >= 1))
            cx.prove('shares are the amount at the current price, rounded down', And(mul(sh, T) <= mul(amt, S), mul(amt, S) < mul(add(sh, 1), T)))
            chs = V(ch, 0, SUPPLY * 2)
            cx.prove('charged the price of the shares, rounded down', And(mul(chs, S) <= mul(sh, T), mul(sh, T) < mul(add(chs, 1), S)))
            cx.prove('never charged more than asked', ch <= tm(amt))
            cx.prove('total shares', tm(n.S) == tm(S) + tm(sh))
            dT = V(tm(n.T) - tm(T), 0, SUPPLY * 2)
            cx.prove('total stake grows by the price of the shares, rounded up', And(mul(dT, S) >= mul(sh, T), mul(dT, S) < add_(mul(sh, T), tm(S))))
        else:
            if m == 'unstake': amt = p.amt
            else: amt = s_divmod(s_mul(T, a0['stake_shares']), S)[0]
            if not o.ok:
                cx.reach('rejected')
                # amount * S <= shares * T  <=> the stake of the account is worth the amount
                cx.prove('unstaking at most the value of one\'s shares succeeds', Not(And(tm(amt) > 0, mul(amt, S) <= mul(a0['stake_shares'], T))))
                return
            cx.reach('ok'); n = St(cx, o.storage); a1 = n.acc.get(p.pred, ZERO)
            sh = V(tm(a0['stake_shares']) - tm(a1['stake_shares']), 0, SUPPLY); rc = V(tm(a1['unstaked']) - tm(a0['unstaked']), 0, SUPPLY * 4)
            cx.prove('shares burnt are the price of the amount, rounded up', And(mul(sh, T) >= mul(amt, S), mul(sh, T) < add_(mul(amt, S), tm(T)), tm(sh) >= 1))
            cx.prove('received the value of the shares, rounded up', And(mul(rc, S) >= mul(sh, T), mul(rc, S) < add_(mul(sh, T), tm(S))))
            cx.prove('received at least the amount asked', tm(rc) >= tm(amt))
            if m == 'unstake_all': cx.prove('unstaking everything leaves no shares', tm(a1['stake_shares']) == 0, mult=[tm(T)])
            cx.prove('total shares', tm(n.S) == tm(S) - tm(sh))
            dT = V(tm(T) - tm(n.T), 0, SUPPLY)
            cx.prove('total stake shrinks by the value of the shares, rounded down', And(mul(dT, S) <= mul(sh, T), mul(sh, T) < mul(add(dT, 1), S)))
    return scn
def add_(a, b): return a + b
def s_roundtrip(cx):
    """whoever staked can unstake at least what was charged, at once"""
    p = Pool(cx, owner_in=0, paused=None); cx.assume(tm(p.epoch) == tm(p.le))
    o = do(cx, 'stake', p, pred='alice')
    if not o.ok: return
    n = St(cx, o.storage); ch = V(tm(p.acc['alice']['unstaked']) - tm(n.acc['alice']['unstaked']), 0, SUPPLY)
    # value of the account's shares at the new price, rounded down, is at least what it was before plus the charge minus rounding
    sh = V(tm(n.acc['alice']['stake_shares']) - tm(p.acc['alice']['stake_shares']), 0, SUPPLY)
    cx.reach('staked')
    cx.prove('the new shares are worth at least the charge at the old price', mul(ch, p.S) <= mul(sh, p.T))
    cx.prove('price not lower', mul(n.T, p.S) >= mul(p.T, n.S))
@prop('P04', {'accounts': 'caller + one bystander; same epoch exactly, and a new epoch with the reward distributed first', 'calls': '1'})
def P04(run):
    for m in ('stake', 'stake_all', 'deposit_and_stake', 'unstake', 'unstake_all'): run.explore(m, s_stake(m), [C], ['ok', 'rejected'])
    for m in ('stake', 'stake_all', 'deposit_and_stake', 'unstake', 'unstake_all'): run.explore('new epoch ' + m, s_rewardop(m), [C], ['ok', 'rejected'])

# ---------------------------------------------------------------- P05 rewards
def s_reward(m):
    def scn(cx):
        p = Pool(cx, paused=None)
        pred = 'owner' if m in OWNER else cx.choose('pred', ['bobby', 'zelda']) if m == 'ping' else cx.choose('pred', ['alice', 'zelda']) if m == 'deposit' else 'alice'     # zelda: no account yet
        o = do(cx, m, p, pred=pred)
        rw = reward(p)
        if not o.ok:
            cx.reach('rejected')
            if m == 'ping': cx.prove('distribution never fails unless the pool lost funds', And(newepoch(p), rw < 0))
            return
        n = St(cx, o.storage)
        cx.prove('the epoch is recorded', tm(n.le) == tm(p.epoch))
        if m == 'ping': cx.prove('lost funds are not hidden', Or(Not(newepoch(p)), rw >= 0))
        own0, own1 = p.acc.get('owner', ZERO), n.acc.get('owner', ZERO)
        paid = sum([tm(a['amount']) for r in o.receipts for a in r['actions'] if a['k'] == 'transfer'], z3.IntVal(0))
        if not cx.branch(newepoch(p)):
            cx.reach('same epoch')
            cx.prove('nothing is distributed twice in an epoch', And(tm(n.T) == tm(p.T), tm(n.S) == tm(p.S), tm(n.L) == tm(p.L) + tm(p.dep) - paid, same_acc(own0, own1)))
            return
        cx.reach('new epoch')
        R = V(rw, 0, SUPPLY * 2)
        cx.prove('the whole balance increase, without the attached deposit, is distributed', And(tm(n.T) - tm(p.T) == rw, tm(n.L) == tm(p.L) + rw + tm(p.dep) - paid))
        sh = V(tm(n.S) - tm(p.S), 0, SUPPLY * 2)
        cx.prove('fee shares go to the owner', tm(own1['stake_shares']) - tm(own0['stake_shares']) == tm(sh))
        # fee = floor(num * R / den), T1 = T + R - fee, sh = floor(fee * S / T1)
        fee = s_divmod(s_mul(p.num, R), p.den)[0]
        T1 = V(tm(p.T) + rw - tm(fee), 1, SUPPLY * 3)
        cx.assume(And(tm(T1) >= tm(p.T)) if cx.model is None else True)   # fee <= R, from num <= den (proved next)
        cx.prove('owner shares are the fee at the price after delegators got their part, rounded down', And(mul(sh, T1) <= mul(fee, p.S), mul(fee, p.S) < mul(add(sh, 1), T1)))
    return scn
def s_rewardop(m):
    """staking or unstaking in a new epoch: the reward is distributed first, the operation is priced after it"""
    def scn(cx):
        p = Pool(cx, owner_in=0, paused=None); cx.assume(newepoch(p))
        who = cx.choose('pred', ['alice', 'zelda']) if m == 'deposit_and_stake' else 'alice'
        o = do(cx, m, p, pred=who)
        rw = reward(p)
        if not o.ok: cx.reach('rejected'); return
        n = St(cx, o.storage); cx.reach('ok')
        cx.prove('the epoch is recorded', tm(n.le) == tm(p.epoch))
        cx.prove('lost funds are not hidden', rw >= 0)
        cx.prove('the balance is brought up to date', tm(n.L) == tm(p.L) + rw + tm(p.dep))
        R = V(rw, 0, SUPPLY * 2)
        fee = s_divmod(s_mul(p.num, R), p.den)[0]
        T1 = V(tm(p.T) + rw, 1, SUPPLY * 3)
        own = V(tm(n.acc.get('owner', ZERO)['stake_shares']), 0, SUPPLY * 2)
        Tf = V(tm(T1) - tm(fee), 1, SUPPLY * 3)
        cx.assume(And(tm(Tf) >= tm(p.T)) if cx.model is None else True)   # fee <= R (s_fee)
        cx.prove('owner shares are the fee at the price after delegators got their part, rounded down', And(mul(own, Tf) <= mul(fee, p.S), mul(fee, p.S) < mul(add(own, 1), Tf)))
        S1 = add(p.S, own)
        d = tm(n.acc.get(who, ZERO)['stake_shares']) - tm(p.acc.get(who, ZERO)['stake_shares'])
        if m.startswith('unstake'):
            sh = V(-d, 0, SUPPLY)
            if m == 'unstake_all':
                cx.prove('fee shares are worth at least one each', tm(own) <= tm(fee), mult=[tm(own), tm(fee), tm(p.S)])
                cx.prove('unstaking everything leaves no shares', tm(n.acc.get(who, ZERO)['stake_shares']) == 0, lemmas=[tm(own) <= tm(fee), tm(S1) <= tm(T1)], mult=[tm(T1)])
            if m == 'unstake': cx.prove('shares burnt are the price of the amount after the reward, rounded up', And(mul(sh, T1) >= mul(p.amt, S1), mul(sh, T1) < mul(p.amt, S1) + tm(T1)))
            dT = V(tm(T1) - tm(n.T), 0, SUPPLY * 2)
            cx.prove('the value of the shares, at the price after the reward, leaves the stake', And(mul(dT, S1) <= mul(sh, T1), mul(sh, T1) < mul(add(dT, 1), S1)))
        else:
            sh = V(d, 0, SUPPLY * 2); dT = V(tm(n.T) - tm(T1), 0, SUPPLY * 2)
            if m != 'stake_all':
                amt = p.amt if m == 'stake' else p.dep
                cx.prove('shares are the amount at the price after the reward, rounded down', And(mul(sh, T1) <= mul(amt, S1), mul(amt, S1) < mul(add(sh, 1), T1)))
            cx.prove('the price of the shares, after the reward, joins the stake', And(mul(dT, S1) >= mul(sh, T1), mul(dT, S1) < mul(sh, T1) + tm(S1)))
    return scn
def s_fee(cx):
    """fee <= reward for every valid fraction (justifies the assumption of s_reward)"""
    num = cx.int('num', 0, (1 << 32) - 1); den = cx.int('den', 1, (1 << 32) - 1); R = cx.u128('R', 0, SUPPLY * 2)
    cx.assume(tm(num) <= tm(den))
    q, r = s_divmod(s_mul(num, R), den)
    cx.reach('ok'); cx.prove('fee at most the reward', tm(q) <= tm(R) if isinstance(R, Sym) else z3.BoolVal(q <= R))
def s_feeset(cx):
    p = Pool(cx, owner_in=1, paused=None); o = do(cx, 'update_reward_fee_fraction', p)
    f = p.args['reward_fee_fraction']; a, b = f['numerator'], f['denominator']
    if not o.ok:
        cx.reach('rejected'); cx.prove('a valid fee is accepted', Not(And(tm(a) <= tm(b), tm(b) >= 1, Or(Not(newepoch(p)), reward(p) >= 0)))); return
    n = St(cx, o.storage); cx.reach('ok')
    cx.prove('the fee is a fraction of at most 1', And(tm(a) <= tm(b), tm(b) >= 1, tm(n.num) == tm(a), tm(n.den) == tm(b)))
@prop('P05', {'accounts': 'owner present or not, caller, bystander', 'calls': '1'})
def P05(run):
    run.explore('fee<=reward', s_fee, [C], ['ok'])
    for m in ('ping', 'deposit', 'withdraw', 'withdraw_all', 'update_reward_fee_fraction', 'update_staking_key', 'pause_staking', 'resume_staking'):
        run.explore(m, s_reward(m), [C], ['new epoch', 'same epoch'])
    for m in ('stake', 'stake_all', 'deposit_and_stake', 'unstake', 'unstake_all'): run.explore(m, s_rewardop(m), [C], ['ok', 'rejected'])
    run.explore('set fee', s_feeset, [C], ['ok', 'rejected'])

# ---------------------------------------------------------------- P06 stake actions
def stake_action(cx, n, o, expected, key=None):
    """expected in {0,1}: the call must (not) issue stake(T, key) on itself followed by the callback"""
    st_ = [(i, r) for i, r in enumerate(o.receipts) if any(a['k'] == 'stake' for a in r['actions'])]
    if not expected:
        cx.prove('no stake action', z3.BoolVal(not st_)); return
    cx.prove('exactly one stake action', z3.BoolVal(len(st_) == 1 and len(st_[0][1]['actions']) == 1))
    i, r = st_[0]
    a = r['actions'][0]
    cx.prove('the whole tracked stake is staked with the current key on the pool itself', And(eqb(r['to'], 'spool'), tm(a['amount']) == tm(n.T), eqb(a['key'], n.key)))
    cb = [q for q in o.receipts if i in q['deps']]
    cx.prove('the stake result is checked by a callback', z3.BoolVal(len(cb) == 1 and text(cb[0]['to']) == 'spool' and len(cb[0]['actions']) == 1 and cb[0]['actions'][0]['k'] == 'call' and text(cb[0]['actions'][0]['method']) == 'on_stake_action'))
def s_stakeact(m):
    def scn(cx):
        p = Pool(cx, owner_in=1, paused=None); o = do(cx, m, p, pred=None if m in OWNER else 'alice')
        if not o.ok:
            cx.reach('rejected')
            if m == 'pause_staking': cx.prove('a running pool can be paused', Not(And(Not(B(p.paused)), Or(Not(newepoch(p)), reward(p) >= 0))))
            if m == 'resume_staking': cx.prove('a paused pool can be resumed', Not(And(B(p.paused), Or(Not(newepoch(p)), reward(p) >= 0))))
            if m == 'update_staking_key': cx.prove('the owner can change the key', Not(Or(Not(newepoch(p)), reward(p) >= 0)))
            return
        cx.reach('ok'); n = St(cx, o.storage)
        was = cx.branch(B(p.paused))
        if m == 'pause_staking':
            cx.prove('only a running pool is paused', z3.BoolVal(not was))
            cx.prove('paused', B(n.paused))
            rs = [r for r in o.receipts if any(a['k'] == 'stake' for a in r['actions'])]
            cx.prove('pausing unstakes everything', And(z3.BoolVal(len(rs) == 1 and len(rs[0]['actions']) == 1), eqb(rs[0]['to'], 'spool'), tm(rs[0]['actions'][0]['amount']) == 0, eqb(rs[0]['actions'][0]['key'], n.key)))
            return
        if m == 'resume_staking':
            cx.prove('only a paused pool is resumed', z3.BoolVal(bool(was))); cx.prove('running', Not(B(n.paused)))
            stake_action(cx, n, o, 1); return
        cx.prove('pause flag kept', B(n.paused) == z3.BoolVal(bool(was)))
        cx.prove('key kept' if m != 'update_staking_key' else 'key replaced', eqb(n.key, newkey(p.args) if m == 'update_staking_key' else KEY0))
        if was: cx.reach('paused'); stake_action(cx, n, o, 0); return
        if m in ('stake', 'stake_all', 'unstake', 'unstake_all', 'deposit_and_stake', 'update_staking_key'): stake_action(cx, n, o, 1)
        elif cx.branch(newepoch(p)): stake_action(cx, n, o, 1)
        else: stake_action(cx, n, o, 0)
    return scn
def s_onstake(cx):
    p = Pool(cx, owner_in=0, paused=None)
    pred = cx.choose('pred', ['spool', 'owner', 'alice'])
    res = cx.choose('result', [[], [('ok', b2a(b''))], [('fail',)], [('ok', b2a(b'')), ('fail',)]])
    o = p.call('on_stake_action', pred, presults=res)
    if not o.ok:
        cx.reach('rejected'); cx.prove('the callback of the pool is accepted', z3.BoolVal(not (pred == 'spool' and len(res) == 1))); return
    cx.prove('only the pool itself, with one promise result', z3.BoolVal(pred == 'spool' and len(res) == 1))
    n = St(cx, o.storage)
    cx.prove('books unchanged', And(tm(n.T) == tm(p.T), tm(n.S) == tm(p.S), tm(n.L) == tm(p.L), B(n.paused) == B(p.paused)))
    acts = [(r, a) for r in o.receipts for a in r['actions']]
    if res[0][0] == 'ok': cx.reach('success'); cx.prove('nothing to do after success', z3.BoolVal(not acts)); return
    if cx.branch(tm(p.locked) > 0):
        cx.reach('failure locked')
        cx.prove('a failed stake unlocks the stake', And(z3.BoolVal(len(acts) == 1 and acts[0][1]['k'] == 'stake'), *[And(eqb(r['to'], 'spool'), tm(a['amount']) == 0, eqb(a['key'], n.key)) for r, a in acts if a['k'] == 'stake']))
    else: cx.reach('failure unlocked'); cx.prove('nothing locked, nothing to do', z3.BoolVal(not acts))
@prop('P06', {'accounts': 'caller, owner, bystander', 'calls': '1; stake results: none, success, failure, two results'})
def P06(run):
    for m in USER + OWNER: run.explore(m, s_stakeact(m), [C], ['ok'])
    run.explore('on_stake_action', s_onstake, [C], ['rejected', 'success', 'failure locked', 'failure unlocked'])
    run.explore('new', s_new, [C], ['ok', 'rejected'])

# ---------------------------------------------------------------- P07 access
def s_access(m):
    def scn(cx):
        p = Pool(cx, owner_in=0, paused=None)
        who = caller(cx, 'spool' if m == 'on_stake_action' else 'owner')
        args = owner_args(cx, m)
        if m == 'vote': args = {'voting_account_id': 'voting', 'is_vote': True}
        o = p.call(m, who, args, presults=[('fail',)], signer=cx.choose('signer', ['owner', 'other']))
        need = 'spool' if m == 'on_stake_action' else 'owner'
        if not o.ok: cx.reach('rejected'); return
        cx.reach('ok')
        cx.prove('only the %s may call %s' % ('pool' if m == 'on_stake_action' else 'owner', m), eqb(who, need))
        n = St(cx, o.storage)
        cx.prove('the owner never changes', eqb(n.owner, 'owner'))
        if m == 'pause_staking': cx.prove('only a running pool is paused', And(Not(B(p.paused)), B(n.paused)))
        elif m == 'resume_staking': cx.prove('only a paused pool is resumed', And(B(p.paused), Not(B(n.paused))))
        else: cx.prove('pause flag kept', B(n.paused) == B(p.paused))
        cx.prove('key changed only by the owner\'s request', eqb(n.key, newkey(args) if m == 'update_staking_key' else KEY0))
        if m == 'update_reward_fee_fraction': cx.prove('a valid fee as requested', And(tm(args['reward_fee_fraction']['numerator']) == tm(n.num), tm(args['reward_fee_fraction']['denominator']) == tm(n.den), tm(n.num) <= tm(n.den), tm(n.den) >= 1))
        else: cx.prove('fee kept', And(tm(n.num) == tm(p.num), tm(n.den) == tm(p.den)))
        if m == 'vote':
            cx.prove('vote forwarded exactly', z3.BoolVal(len(o.receipts) == 1 and text(o.receipts[0]['to']) == 'voting' and len(o.receipts[0]['actions']) == 1 and o.receipts[0]['actions'][0]['k'] == 'call'
                     and text(o.receipts[0]['actions'][0]['method']) == 'vote' and json.loads(text(o.receipts[0]['actions'][0]['args'])) == {'is_vote': True} and o.receipts[0]['actions'][0]['amount'] == 0))
    return scn
def s_keeps(m):
    def scn(cx):
        p = Pool(cx, owner_in=0, paused=None); o = do(cx, m, p, pred=cx.choose('pred', ['alice', 'owner']))
        if not o.ok: return
        cx.reach('ok'); n = St(cx, o.storage)
        cx.prove('owner, key, fee and pause flag kept', And(eqb(n.owner, 'owner'), eqb(n.key, KEY0), tm(n.num) == tm(p.num), tm(n.den) == tm(p.den), B(n.paused) == B(p.paused)))
    return scn
def s_publics(cx):
    """each export besides the known operations changes nothing and sends nothing"""
    ms = [m for m in sorted(prog(C).roots) if not (m in USER + OWNER + OTHER + ['new'] or m.startswith('_'))]
    p = Pool(cx, owner_in=0, paused=None); m = cx.choose('m', ms)
    o = p.call(m, cx.choose('pred', ['owner', 'alice']), {'account_id': 'alice', 'from_index': 0, 'limit': 2})
    if not o.ok: return
    cx.reach('ok'); cx.prove('a method without access control sends nothing', z3.BoolVal(not o.receipts)); n = St(cx, o.storage)
    cx.prove('a method without access control changes nothing', And(eqb(n.owner, 'owner'), eqb(n.key, KEY0), B(n.paused) == B(p.paused), *[tm(getattr(n, k)) == tm(getattr(p, k)) for k in ('T', 'S', 'L', 'le', 'num', 'den')],
        z3.BoolVal(set(n.acc) == set(p.acc)), *[same_acc(p.acc[x], n.acc.get(x, ZERO)) for x in p.acc]))
def s_voteok(cx):
    p = Pool(cx, owner_in=0, paused=None); v = cx.choose('v', [True, False])
    bad = cx.choose('bad', ['voting', 'Bad Account', 'x'])
    o = p.call('vote', 'owner', {'voting_account_id': bad, 'is_vote': v})
    cx.reach('ok' if o.ok else 'rejected')
    cx.prove('the owner can vote, towards a valid account', z3.BoolVal(o.ok == (bad == 'voting')))
    if o.ok:
        a = o.receipts[0]['actions'][0]
        cx.prove('vote value forwarded', z3.BoolVal(json.loads(text(a['args'])) == {'is_vote': v} and a['amount'] == 0 and text(o.receipts[0]['to']) == 'voting'))
@prop('P07', {'caller': 'any 5-letter account id (symbolic), owner and contract ids have the same length', 'calls': '1'})
def P07(run):
    for m in OWNER + ['vote', 'on_stake_action']: run.explore(m, s_access(m), [C], ['ok', 'rejected'])
    for m in USER: run.explore(m, s_keeps(m), [C], ['ok'])
    run.explore('vote', s_voteok, [C], ['ok', 'rejected']); run.explore('other methods', s_publics, [C], ['ok'])
    run.explore('new', s_new, [C], ['ok', 'rejected'])

# ---------------------------------------------------------------- P08 views
def s_views(cx):
    p = Pool(cx, owner_in=0, paused=None)
    x = cx.choose('acc', ['alice', 'bobby', 'zelda'])
    a = p.acc.get(x, ZERO)
    def v(m, args=None): 
        o = p.call(m, 'alice', args, view=True)
        cx.prove(m + ' answers', z3.BoolVal(o.ok)); 
        return unJ(o.ret)
    q = s_divmod(s_mul(p.T, a['stake_shares']), p.S)[0]
    def val(r, key=None): return tm(r if isinstance(r, Sym) else int(r))
    def is_floor(r, a=a):
        rs = V(val(r), 0, SUPPLY * 2)
        return And(mul(rs, p.S) <= mul(p.T, a['stake_shares']), mul(p.T, a['stake_shares']) < mul(add(rs, 1), p.S))
    avail = tm(a['unstaked_available_epoch_height']) <= tm(p.epoch)
    k = cx.choose('view', list(range(10)))
    arg = {'account_id': x}
    if k == 0: cx.prove('unstaked balance', val(v('get_account_unstaked_balance', arg)) == tm(a['unstaked']))
    elif k == 1: cx.prove('staked balance', is_floor(v('get_account_staked_balance', arg)))
    elif k == 2:
        r = v('get_account_total_balance', arg)
        cx.prove('total balance', is_floor(V(val(r) - tm(a['unstaked']), 0, SUPPLY * 2)))
    elif k == 3: cx.prove('availability', B(v('is_account_unstaked_balance_available', arg)) == avail)
    elif k == 4: cx.prove('total staked', val(v('get_total_staked_balance')) == tm(p.T))
    elif k == 5:
        r = v('get_account', arg)
        cx.prove('account view', And(z3.BoolVal(r['account_id'] == x), val(r['unstaked_balance']) == tm(a['unstaked']), is_floor(r['staked_balance']), B(r['can_withdraw']) == avail))
    elif k == 6:
        r = v('get_reward_fee_fraction'); cx.prove('fee', And(val(r['numerator']) == tm(p.num), val(r['denominator']) == tm(p.den)))
        cx.prove('owner', z3.BoolVal(v('get_owner_id') == 'owner')); cx.prove('paused', B(v('is_staking_paused')) == B(p.paused))
    elif k == 7: cx.prove('number of accounts', val(v('get_number_of_accounts')) == 2)
    elif k == 8:
        f = cx.choose('from', [0, 1, 2, 3]); l = cx.choose('limit', [0, 1, 2, 5])
        r = v('get_accounts', {'from_index': f, 'limit': l})
        cx.prove('page of accounts', z3.BoolVal([y['account_id'] for y in r] == ['alice', 'bobby'][f:f + l]))
        for y in r:
            b = p.acc[y['account_id']]
            cx.prove('page entry', And(val(y['unstaked_balance']) == tm(b['unstaked']), is_floor(y['staked_balance'], b), B(y['can_withdraw']) == (tm(b['unstaked_available_epoch_height']) <= tm(p.epoch))))
    elif k == 9: cx.prove('staking key', z3.BoolVal(v('get_staking_key') == 'ed25519:' + '1' * 32))
    cx.reach('view %d' % k)
@prop('P08', {'accounts': '2 stored accounts + an unknown one; pages from 0..3, limit 0,1,2,5', 'calls': '1 view call'})
def P08(run):
    run.explore('views', s_views, [C], ['view %d' % i for i in range(10)])
