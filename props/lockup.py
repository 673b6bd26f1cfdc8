"""Lockup contract P30-P36."""
from .common import *
import hashlib, base64
C = 'lockup'
ME = 'locka'
MIN = 35 * 10 ** 23
OWN, FND, POOL, WL, POLL = 'owner', 'found', 'spool', 'white', 'tpoll'
STATUSES = ['VestingTerminatedWithDeficit', 'UnstakingInProgress', 'EverythingUnstaked', 'WithdrawingFromStakingPoolInProgress', 'ReadyToWithdraw', 'WithdrawingFromAccountInProgress']
SCHED = (100 * 10 ** 9, 200 * 10 ** 9, 500 * 10 ** 9)     # the concrete schedule behind the hash
BADSCHED = [(300 * 10 ** 9, 100 * 10 ** 9, 500 * 10 ** 9), (100 * 10 ** 9, 600 * 10 ** 9, 500 * 10 ** 9), (100 * 10 ** 9, 100 * 10 ** 9, 100 * 10 ** 9)]
SALT = b'\x01\x02\x03'
def vhash(s, salt=SALT): return hashlib.sha256(b''.join(x.to_bytes(8, 'little') for x in s) + len(salt).to_bytes(4, 'little') + salt).digest()
def zt(x): return x if isinstance(x, z3.ExprRef) else tm(x)
def smin(a, b): return If(zt(a) < zt(b), zt(a), zt(b))
def smax(a, b): return If(zt(a) > zt(b), zt(a), zt(b))
def satsub(a, b): return If(zt(a) > zt(b), zt(a) - zt(b), z3.IntVal(0))

class Lk:
    """any reachable state of a lockup account"""
    hs = SCHED; salt = SALT
    def __init__(s, cx, vest=None, staking=None, transfers=None, release=None, lts=None, status=None):
        s.cx = cx; ch = cx.choose
        s.A = cx.u128('A', 0, SUPPLY); s.bal = cx.u128('bal', 0, SUPPLY); s.now = cx.int('now', 0, U64)
        s.dur = cx.int('dur', 0, U64)
        s.rel = cx.int('rel', 0, U64) if (ch('has_rel', [0, 1]) if release is None else release) else None
        s.lts = cx.int('lts', 0, U64) if (ch('has_lts', [0, 1]) if lts is None else lts) else None
        s.enabled = ch('enabled', [1, 0]) if transfers is None else transfers
        s.tts = cx.int('tts', 0, U64) if s.enabled else None
        s.vest = vest if isinstance(vest, str) else ch('vest', vest or ['None', 'Hash', 'Schedule', 'Term'])
        s.W = 0; s.U = 0; s.status = None; s.sched = None
        if s.vest == 'Schedule':
            s.sched = (cx.int('vs', 0, U64), cx.int('vc', 0, U64), cx.int('ve', 0, U64))
            cx.assume(And(tm(s.sched[0]) <= tm(s.sched[1]), tm(s.sched[1]) <= tm(s.sched[2]), tm(s.sched[0]) < tm(s.sched[2])))   # invariant: valid schedule
        if s.vest in ('None', 'Term'): s.W = cx.u128('W', 0, SUPPLY)
        if s.vest == 'Term':
            s.U = cx.u128('U', 1, SUPPLY); s.status = status if isinstance(status, str) else ch('tstatus', status or STATUSES)
        cx.assume(tm(s.W) + tm(s.U) <= tm(s.A))                                      # invariant: never more than the lockup amount is terminated
        # invariant: an operation is in progress on the pool exactly in the two pool steps of a termination (owner operations need no termination)
        st_ = staking if staking is not None else ch('staking', ['none', 'idle', 'busy'])
        s.st = st_; s.D = cx.u128('D', 0, SUPPLY) if st_ != 'none' else 0
        s.found = s.vest != 'None'
        s.storage = cx.mkstate(C, 'LockupContract', s.value())
    def value(s):
        ti = ('TransfersEnabled', {'transfers_timestamp': s.tts}) if s.enabled else ('TransfersDisabled', {'transfer_poll_account_id': POLL})
        vi = {'None': lambda: ('None', {}), 'Hash': lambda: ('VestingHash', [vhash(s.hs, s.salt)]),
              'Schedule': lambda: ('VestingSchedule', [dict(start_timestamp=s.sched[0], cliff_timestamp=s.sched[1], end_timestamp=s.sched[2])]),
              'Term': lambda: ('Terminating', [dict(unvested_amount=s.U, status=s.status)])}[s.vest]()
        si = None if s.st == 'none' else dict(staking_pool_account_id=POOL, status='Idle' if s.st == 'idle' else 'Busy', deposit_amount=s.D)
        return dict(owner_account_id=OWN, lockup_information=dict(lockup_amount=s.A, termination_withdrawn_tokens=s.W, lockup_duration=s.dur, release_duration=s.rel, lockup_timestamp=s.lts, transfers_information=ti),
                    vesting_information=vi, staking_pool_whitelist_account_id=WL, staking_information=si, foundation_account_id=FND if s.found else None)
    def call(s, m, pred=OWN, args=None, storage=None, **kw):
        k = dict(predecessor=pred, signer="sammy", current=ME, balance=s.bal, timestamp=s.now); k.update(kw)
        return s.cx.call(C, m, storage or s.storage, args, **k)
    # ---- specification of the locked amounts
    def unvested(s, now=None, sched=None):
        now = s.now if now is None else now
        if s.vest == 'Term': return tm(s.U)
        sc = sched or s.sched
        if sc is None or s.vest == 'None': return z3.IntVal(0)
        a, c, e = sc
        if s.cx.branch(tm(now) < tm(c)): return tm(s.A)
        if s.cx.branch(tm(now) >= tm(e)): return z3.IntVal(0)
        q, _ = s_divmod(s_mul(s.A, V(tm(e) - tm(now), 0, U64)), V(tm(e) - tm(a), 1, U64))
        return tm(q)
    def locked(s, now=None):
        now = s.now if now is None else now
        full = tm(s.A) - tm(s.W)
        if not s.enabled: return full
        lt = tm(s.tts) + tm(s.dur)
        if s.cx.branch(lt > U64): lt = z3.IntVal(U64)
        if s.lts is not None and s.cx.branch(tm(s.lts) > lt): lt = tm(s.lts)
        if s.cx.branch(tm(now) < lt): return full
        un = z3.IntVal(0)
        if s.rel is not None:
            end = lt + tm(s.rel)
            if s.cx.branch(end > U64): end = z3.IntVal(U64)
            if s.cx.branch(tm(now) < end):
                q, _ = s_divmod(s_mul(s.A, V(end - tm(now), 0, U64)), s.rel); un = tm(q)
        un = satsub(un, s.W)
        return smax(un, s.unvested(now) if s.vest in ('Schedule', 'Term') else z3.IntVal(0))
def num(r): return tm(r if isinstance(r, Sym) else int(r))
class After:
    def __init__(s, cx, storage):
        v = cx.state(C, storage, 'LockupContract'); s.v = v
        li = v['lockup_information']; s.A = li['lockup_amount']; s.W = li['termination_withdrawn_tokens']; s.li = li
        ti = li['transfers_information']; s.enabled = ti[0] == 'TransfersEnabled'; s.tts = unw(ti[1]['transfers_timestamp']) if s.enabled else None
        s.vest = v['vesting_information'][0]
        s.U = 0; s.status = None
        if s.vest == 'Terminating':
            t = list(v['vesting_information'][1].values())[0]; s.U = unw(t['unvested_amount']); s.status = t['status'][0]
        si = v['staking_information']
        s.st = 'none' if si is None else {'Idle': 'idle', 'Busy': 'busy'}[si['status'][0]]
        s.D = 0 if si is None else unw(si['deposit_amount']); s.pool = None if si is None else text(si['staking_pool_account_id'])
        s.found = None if v['foundation_account_id'] is None else text(v['foundation_account_id'])
def unw(x): return x
KIND = {'None': 'None', 'Hash': 'VestingHash', 'Schedule': 'VestingSchedule', 'Term': 'Terminating'}
def optsame(a, b): return z3.BoolVal(a is None and b is None) if a is None or b is None else tm(a) == tm(b)
def frame(cx, p, n, o, skip=()):
    """everything not named in skip is as before"""
    v = n.v
    cx.prove('owner, whitelist and schedule untouched', And(eqb(v['owner_account_id'], OWN), eqb(v['staking_pool_whitelist_account_id'], WL), tm(n.A) == tm(p.A), tm(n.li['lockup_duration']) == tm(p.dur), optsame(n.li['release_duration'], p.rel), optsame(n.li['lockup_timestamp'], p.lts)))
    if 'transfers' not in skip: cx.prove('transfer status untouched', And(z3.BoolVal(n.enabled == bool(p.enabled)), optsame(n.tts, p.tts)))
    if 'vest' not in skip:
        cx.prove('vesting untouched', And(z3.BoolVal(n.vest == KIND[p.vest] and n.status == p.status and n.found == (FND if p.found else None)), tm(n.U) == tm(p.U), tm(n.W) == tm(p.W)))
        if p.vest == 'Schedule':
            x = list(v['vesting_information'][1].values())[0]
            cx.prove('vesting schedule untouched', And(*[tm(unw(x[k])) == tm(y) for k, y in zip(('start_timestamp', 'cliff_timestamp', 'end_timestamp'), p.sched)]))
        if p.vest == 'Hash': cx.prove('vesting hash untouched', eqb(list(v['vesting_information'][1].values())[0], vhash(p.hs, p.salt)))
    if 'stake' not in skip: cx.prove('staking information untouched', And(z3.BoolVal(n.st == p.st and n.pool == (None if p.st == 'none' else POOL)), tm(n.D) == tm(p.D)))
    cx.prove('one storage record', z3.BoolVal(len(o.storage.items()) == 1))
def flat(o): return [(text(r['to']), a) for r in o.receipts for a in r['actions']]
def only(cx, label, o, dest, method, amount=0, args=None):
    """o sent exactly: one call to dest, then one callback to this account depending on it; returns the callback"""
    rs = o.receipts
    good = len(rs) == 2 and all(len(r['actions']) == 1 and r['actions'][0]['k'] == 'call' for r in rs) and text(rs[0]['to']) == dest and text(rs[1]['to']) == ME and rs[0]['deps'] == [] and rs[1]['deps'] == [0] and text(rs[0]['actions'][0]['method']) == method
    cx.prove(label, z3.BoolVal(good))
    a = rs[0]['actions'][0]; b = rs[1]['actions'][0]
    cx.prove(label + ': amount', And(tm(a['amount']) == tm(amount), tm(b['amount']) == 0, tm(a['gas']) > 0, tm(b['gas']) > 0))
    j = unJ(a['args']) if len(a['args'].data) else {}
    if args is not None:
        cx.prove(label + ': arguments', And(z3.BoolVal(set(j) == set(args)), *[num(j[k]) == tm(x) if not isinstance(x, str) else z3.BoolVal(j[k] == x) for k, x in args.items() if k in j]))
    return b
def callback(p, cb, storage, res, **kw):
    return p.call(text(cb['method']), ME, cb['args'], storage=storage, presults=[res], **kw)
OKRES = lambda x: ('ok', b2a(J(x)))
FAIL = ('fail',)

# ---------------------------------------------------------------- P30 locked amount
def s_locked(vest):
    def scn(cx):
        p = Lk(cx, vest=vest, staking='none' if vest != 'None' else 'idle', status='ReadyToWithdraw')
        o = p.call('get_locked_amount', view=True)
        cx.prove('always answers', z3.BoolVal(o.ok))
        L = num(unJ(o.ret)); cx.reach('ok')
        # bounds that need no formula
        cx.prove('never more than was locked up', And(L <= tm(p.A) - tm(p.W), L >= 0), mult=[tm(p.A)])
        cx.prove('locked amount is the unreleased or unvested part', L == p.locked(), mult=[tm(p.A)])
        if not p.enabled: cx.prove('everything is locked while transfers are disabled', L == tm(p.A) - tm(p.W))
    return scn
def s_mono(vest):
    def scn(cx):
        p = Lk(cx, vest=vest, staking='none', transfers=1, status='ReadyToWithdraw')
        t2 = cx.int('later', 0, U64); cx.assume(tm(t2) >= tm(p.now))
        a = p.call('get_locked_amount', view=True); b = p.call('get_locked_amount', view=True, timestamp=t2)
        cx.prove('always answers', z3.BoolVal(a.ok and b.ok)); cx.reach('ok')
        cx.prove('time never locks more', num(unJ(b.ret)) <= num(unJ(a.ret)), mult=[tm(p.A)])
    return scn
def s_unvested(cx):
    p = Lk(cx, vest=['None', 'Schedule', 'Term', 'Hash'], staking='none', transfers=1, release=0, lts=0, status='ReadyToWithdraw')
    sc = p.sched or SCHED
    o = p.call('get_unvested_amount', args={'vesting_schedule': dict(start_timestamp=N128(sc[0]), cliff_timestamp=N128(sc[1]), end_timestamp=N128(sc[2]))}, view=True)
    cx.prove('always answers', z3.BoolVal(o.ok)); cx.reach('ok')
    cx.prove('unvested amount follows the schedule', num(unJ(o.ret)) == p.unvested(sched=sc), mult=[tm(p.A)])
def s_balviews(cx):
    p = Lk(cx, lts=0, staking=cx.choose('stk', ['none', 'idle']), status='ReadyToWithdraw')
    def v(m):
        o = p.call(m, view=True); cx.prove(m + ' answers', z3.BoolVal(o.ok)); return num(unJ(o.ret))
    L = v('get_locked_amount'); tot = tm(p.bal) + tm(p.D); ob = If(tot > L, tot - L, 0); acc = If(tm(p.bal) > MIN, tm(p.bal) - MIN, 0)
    cx.reach('ok')
    cx.prove('total balance view', v('get_balance') == tot)
    cx.prove('owner balance is what is not locked', v('get_owners_balance') == ob)
    cx.prove('liquid balance keeps locked tokens and the storage reserve', v('get_liquid_owners_balance') == If(ob < acc, ob, acc))
    cx.prove('deposit view', v('get_known_deposited_balance') == tm(p.D))
    cx.prove('terminated balance view', v('get_terminated_unvested_balance') == tm(p.U))
    cx.prove('deficit view', v('get_terminated_unvested_balance_deficit') == If(tm(p.U) > acc, tm(p.U) - acc, 0))
def s_otherviews(cx):
    p = Lk(cx, release=0, lts=0)
    def v(m):
        o = p.call(m, view=True); cx.prove(m + ' answers', z3.BoolVal(o.ok)); return unJ(o.ret)
    cx.reach('ok')
    cx.prove('owner view', z3.BoolVal(v('get_owner_account_id') == OWN)); cx.prove('pool view', z3.BoolVal(v('get_staking_pool_account_id') == (None if p.st == 'none' else POOL)))
    cx.prove('termination status view', z3.BoolVal(v('get_termination_status') == p.status)); cx.prove('transfers view', z3.BoolVal(v('are_transfers_enabled') is bool(p.enabled)))
    r = v('get_vesting_information')
    if p.vest == 'None': cx.prove('vesting view', z3.BoolVal(r == 'None'))
    elif p.vest == 'Hash': cx.prove('vesting view', z3.BoolVal(r == {'VestingHash': base64.b64encode(vhash(SCHED)).decode()}))
    elif p.vest == 'Schedule': cx.prove('vesting view', And(*[num(r['VestingSchedule'][k]) == tm(y) for k, y in zip(('start_timestamp', 'cliff_timestamp', 'end_timestamp'), p.sched)]))
    else: cx.prove('vesting view', And(num(r['Terminating']['unvested_amount']) == tm(p.U), z3.BoolVal(r['Terminating']['status'] == p.status)))

# ---------------------------------------------------------------- P31 owner transfers
def s_transfer(cx):
    to = cx.choose('to', ['bobby', 'BAD', OWN, FND, POOL, WL, POLL, ME])
    p = Lk(cx, lts=0, release=None if to == 'bobby' else 0, status='ReadyToWithdraw'); amt = cx.u128('amt')
    o = p.call('transfer', OWN, {'amount': N128(amt), 'receiver_id': to})
    allowed = bool(p.enabled) and p.st != 'busy' and p.vest != 'Term' and to != 'BAD'
    if not allowed:
        cx.reach('rejected'); cx.prove('no transfer while disabled, busy, terminating or to nobody', z3.BoolVal(not o.ok)); return
    L = p.locked(); tot = tm(p.bal) + tm(p.D); acc = If(tm(p.bal) > MIN, tm(p.bal) - MIN, 0); ob = If(tot > L, tot - L, 0)
    can = And(tm(amt) > 0, tm(amt) <= ob, tm(amt) <= acc)
    if not o.ok: cx.reach('too much'); cx.prove('liquid tokens can be transferred', Not(can)); return
    cx.reach('ok')
    cx.prove('only a positive amount', tm(amt) > 0)
    cx.prove('locked tokens stay', tm(p.bal) - tm(amt) + tm(p.D) >= L); cx.prove('storage reserve stays', tm(p.bal) - tm(amt) >= MIN)
    t = flat(o); cx.prove('exactly one transfer, to the receiver', And(z3.BoolVal(len(t) == 1 and t[0][0] == to and t[0][1]['k'] == 'transfer'), tm(t[0][1]['amount']) == tm(amt)) if t else z3.BoolVal(False))
    frame(cx, p, After(cx, o.storage), o)
def s_fak(cx):
    p = Lk(cx, lts=0, status='ReadyToWithdraw')
    o = p.call('add_full_access_key', OWN, {'new_public_key': 'ed25519:US517G5965aydkZ46HS38QLi7UQiSojurfbQfKCELFx'})
    allowed = bool(p.enabled) and p.st != 'busy' and p.vest != 'Term'
    if not allowed: cx.reach('rejected'); cx.prove('no full access while disabled, busy or terminating', z3.BoolVal(not o.ok)); return
    L = p.locked()
    if not o.ok: cx.reach('locked'); cx.prove('a fully released account can be taken over', L != 0); return
    cx.reach('ok'); cx.prove('full access only when nothing is locked or unvested', L == 0)
    t = flat(o); cx.prove('exactly the requested key on this account', z3.BoolVal(len(t) == 1 and t[0][0] == ME and t[0][1]['k'] == 'addkey' and t[0][1]['full'] and bytes(t[0][1]['key'].data) == b'\0' + b'\x07' * 32))
    frame(cx, p, After(cx, o.storage), o)

# ---------------------------------------------------------------- P32 access
OWNER_M = {'select_staking_pool': {'staking_pool_account_id': 'newpl'}, 'unselect_staking_pool': {}, 'deposit_to_staking_pool': {'amount': '1'}, 'deposit_and_stake': {'amount': '1'}, 'refresh_staking_pool_balance': {},
           'withdraw_from_staking_pool': {'amount': '1'}, 'withdraw_all_from_staking_pool': {}, 'stake': {'amount': '1'}, 'unstake': {'amount': '1'}, 'unstake_all': {}, 'check_transfers_vote': {},
           'transfer': {'amount': '1', 'receiver_id': 'bobby'}, 'add_full_access_key': {'new_public_key': 'ed25519:US517G5965aydkZ46HS38QLi7UQiSojurfbQfKCELFx'}}
FOUND_M = {'terminate_vesting': {'vesting_schedule_with_salt': None}, 'termination_prepare_to_withdraw': {}, 'termination_withdraw': {'receiver_id': 'bobby'}}
def terms(cx, p, n, transfers=True):
    """what no method ever changes (the transfer status only by the poll's answer)"""
    cx.prove('owner, whitelist, lockup amount and schedule untouched', And(eqb(n.v['owner_account_id'], OWN), eqb(n.v['staking_pool_whitelist_account_id'], WL), tm(n.A) == tm(p.A), tm(n.li['lockup_duration']) == tm(p.dur), optsame(n.li['release_duration'], p.rel), optsame(n.li['lockup_timestamp'], p.lts)))
    if transfers: cx.prove('transfer status untouched', And(z3.BoolVal(n.enabled == bool(p.enabled)), optsame(n.tts, p.tts)))
def anystate(cx):
    """every vesting state and termination step, combined with staking states and transfer status (all combinations in the thorough tier)"""
    vest = cx.choose('vest', ['None', 'Hash', 'Schedule', 'Term'])
    if cx.run.tier == 'thorough': stk, en = cx.choose('stk', ['none', 'idle', 'busy']), cx.choose('enabled', [0, 1])
    else: stk, en = cx.choose('stk', [('idle', 1), ('busy', 0)] + ([('idle', 0), ('none', 0)] if vest != 'Term' else []))
    return Lk(cx, vest=vest, staking=stk, transfers=en, release=0, lts=0, status=cx.choose('tstatus', STATUSES) if vest == 'Term' else None)
def s_access(ms, who):
    def scn(cx):
        m = cx.choose('method', sorted(ms)); p = anystate(cx); args = ms[m]
        if m == 'terminate_vesting' and p.vest == 'Hash': args = {'vesting_schedule_with_salt': {'vesting_schedule': dict(start_timestamp=N128(SCHED[0]), cliff_timestamp=N128(SCHED[1]), end_timestamp=N128(SCHED[2])), 'salt': base64.b64encode(SALT).decode()}}
        w = cx.account('who', 5) if who else OWN if m in OWNER_M else FND
        o = p.call(m, w, args, signer=who if who and cx.run.tier == 'quick' else cx.choose('signer', [who, 'sammy']) if who else 'sammy')
        if o.ok: cx.reach('ok'); cx.prove('only the entitled account may call this', eqb(w, who) if who else z3.BoolVal(True)); terms(cx, p, After(cx, o.storage))
        else: cx.reach('rejected')
    return scn
def s_private(which=None):
    def scn(cx):
        ms = sorted(m for m in prog(C).roots if m.startswith('on_') and (which is None or m in which))
        m = cx.choose('method', ms); w = cx.account('who', 5); p = anystate(cx)
        res = {'on_whitelist_is_whitelisted': OKRES(True), 'on_get_result_from_transfer_poll': OKRES('5')}.get(m, OKRES('7'))
        o = p.call(m, w, {'amount': '7', 'receiver_id': 'bobby', 'staking_pool_account_id': 'newpl'}, signer=OWN, presults=[res])
        if o.ok: cx.reach('ok'); cx.prove('callbacks can be called by the contract itself only', eqb(w, ME)); terms(cx, p, After(cx, o.storage), m != 'on_get_result_from_transfer_poll')
        else: cx.reach('rejected')
    return scn
def s_similar(cx):
    """callers whose id resembles the entitled one's"""
    m = cx.choose('m', sorted(OWNER_M) + sorted(FOUND_M) + sorted(x for x in prog(C).roots if x.startswith('on_')))
    who = OWN if m in OWNER_M else FND if m in FOUND_M else ME
    st_ = 'Term' if who == FND and m != 'terminate_vesting' or 'terminat' in m or m in ('on_withdraw_unvested_amount', 'on_get_account_staked_balance_to_unstake', 'on_get_account_unstaked_balance_to_withdraw') else 'Schedule'
    p = Lk(cx, vest=st_, staking='none' if 'select' in m or 'whitelist' in m else 'busy' if who == ME else 'idle', transfers=int(m not in ('check_transfers_vote', 'on_get_result_from_transfer_poll')), release=0, lts=0, status='VestingTerminatedWithDeficit' if 'prepare' in m else 'ReadyToWithdraw' if who == FND else 'WithdrawingFromAccountInProgress')
    res = [] if who != ME else [{'on_whitelist_is_whitelisted': OKRES(True), 'on_get_result_from_transfer_poll': OKRES('5')}.get(m, OKRES('7'))]
    o = p.call(m, cx.choose('w', similar(who)), {**OWNER_M, **FOUND_M}.get(m, {'amount': '7', 'receiver_id': 'bobby', 'staking_pool_account_id': 'newpl'}), presults=res)
    cx.reach('ok'); cx.prove('no similar account may call this', z3.BoolVal(not o.ok))
def s_publics(cx):
    """no method is exported besides the known ones: each export is an owner, foundation or callback method, a view, or the initialisation"""
    ms = [m for m in sorted(prog(C).roots) if not (m in OWNER_M or m in FOUND_M or m.startswith(('on_', '_')) or m == 'new')]
    m = cx.choose('m', ms)
    p = Lk(cx, vest=cx.choose('vest', ['None', 'Schedule', 'Term']), staking='idle', transfers=1, release=0, lts=0, status='ReadyToWithdraw')
    o = p.call(m, OWN, {'vesting_schedule': dict(start_timestamp='1', cliff_timestamp='2', end_timestamp='3')})
    if o.ok: cx.reach('ok'); cx.prove('a method without access control changes nothing and sends nothing', z3.BoolVal(not o.receipts)); frame(cx, p, After(cx, o.storage), o)
def s_nofound(cx):
    m = cx.choose('method', sorted(FOUND_M)); p = Lk(cx, vest='None', release=0, lts=0)
    o = p.call(m, cx.choose('w', [FND, OWN, ME]), FOUND_M[m]); cx.reach('ok')
    cx.prove('without vesting nobody can terminate', z3.BoolVal(not o.ok))

# ---------------------------------------------------------------- P33 staking pool operations
def s_select(cx):
    p = Lk(cx, release=0, lts=0, transfers=None, status='ReadyToWithdraw'); to = cx.choose('pool', ['newpl', 'BAD'])
    o = p.call('select_staking_pool', OWN, {'staking_pool_account_id': to})
    can = p.st == 'none' and p.vest != 'Term' and to == 'newpl'
    if not o.ok: cx.reach('rejected'); cx.prove('selecting works when none is selected', z3.BoolVal(not can)); return
    cx.reach('asked'); cx.prove('one pool at a time', z3.BoolVal(can))
    cb = only(cx, 'asks the whitelist', o, WL, 'is_whitelisted', 0, {'staking_pool_account_id': 'newpl'})
    frame(cx, p, After(cx, o.storage), o)
    # before the answer arrives another operation may have changed the account
    race = cx.choose('race', ['no', 'other', 'term'])
    q = p
    if race == 'other': q = Lk2(cx, p, st='idle')
    if race == 'term':
        if p.vest == 'None': return
        q = Lk2(cx, p, vest='Term')
    res = cx.choose('answer', ['yes', 'no', 'fail'])
    o2 = callback(q, cb, q.storage, OKRES(True) if res == 'yes' else OKRES(False) if res == 'no' else FAIL)
    if res != 'yes' or race != 'no': cx.reach('refused'); cx.prove('only a whitelisted pool, only when none is selected and no termination started', z3.BoolVal(not o2.ok)); return
    cx.reach('selected'); cx.prove('a whitelisted pool is selected', z3.BoolVal(o2.ok)); n = After(cx, o2.storage)
    cx.prove('selected, idle, without deposits', And(z3.BoolVal(n.st == 'idle' and n.pool == 'newpl'), tm(n.D) == 0)); frame(cx, p, n, o2, ['stake'])
def Lk2(cx, p, st=None, vest=None, status='ReadyToWithdraw'):
    """the same account after a concurrent change"""
    import copy
    q = copy.copy(p)
    if st and st != 'busy': q.D = 0
    if st: q.st = st
    if vest: q.vest = 'Term'; q.sched = None; q.U = V(tm(p.A), 1, SUPPLY); q.status = status; q.W = 0; cx.assume(tm(p.A) >= 1)
    q.storage = cx.mkstate(C, 'LockupContract', q.value()); return q
def s_unselect(cx):
    p = Lk(cx, release=0, lts=0, transfers=None, status='ReadyToWithdraw')
    o = p.call('unselect_staking_pool', OWN)
    can = And(z3.BoolVal(p.st == 'idle' and p.vest != 'Term'), tm(p.D) == 0)
    if not o.ok: cx.reach('rejected'); cx.prove('an empty idle pool can be unselected', Not(can)); return
    cx.reach('ok'); cx.prove('only an idle pool without known deposits', can)
    n = After(cx, o.storage); cx.prove('unselected', z3.BoolVal(n.st == 'none' and not o.receipts)); frame(cx, p, n, o, ['stake'])
OPS = {'deposit_to_staking_pool': 'deposit', 'deposit_and_stake': 'deposit_and_stake', 'withdraw_from_staking_pool': 'withdraw', 'stake': 'stake', 'unstake': 'unstake', 'unstake_all': 'unstake_all',
       'refresh_staking_pool_balance': 'get_account_total_balance', 'withdraw_all_from_staking_pool': 'get_account_unstaked_balance'}
def s_op(ms):
    def scn(cx):
        m = cx.choose('m', ms); tgt = OPS[m]
        p = Lk(cx, release=0, lts=0, transfers=None, status='ReadyToWithdraw')
        amt = cx.u128('amt') if m in ('deposit_to_staking_pool', 'deposit_and_stake', 'withdraw_from_staking_pool', 'stake', 'unstake') else None
        o = p.call(m, OWN, {'amount': N128(amt)} if amt is not None else {})
        can = z3.BoolVal(p.st == 'idle' and p.vest != 'Term')
        if amt is not None: can = And(can, tm(amt) > 0)
        dep = tgt in ('deposit', 'deposit_and_stake')
        if dep: can = And(can, tm(amt) <= tm(p.bal) - MIN)
        if not o.ok: cx.reach('rejected'); cx.prove('an idle pool accepts operations', Not(can)); return
        cx.prove('one operation at a time, never below the storage reserve', can)
        args = {} if dep or tgt == 'unstake_all' else {'account_id': ME} if tgt.startswith('get_') else {'amount': amt}
        cb = only(cx, 'exactly the pool operation', o, POOL, tgt, amt if dep else 0, args)
        n = After(cx, o.storage); cx.prove('busy until it is answered', And(z3.BoolVal(n.st == 'busy' and n.pool == POOL), tm(n.D) == tm(p.D))); frame(cx, p, n, o, ['stake'])
        cx.reach('sent')
        st2 = o.storage
        if p.vest in ('Hash', 'Schedule') and cx.choose('race', ['no', 'term']) == 'term':     # vesting is terminated before the answer arrives
            p = Lk2(cx, p, st='busy', vest='Term', status=cx.choose('tst', ['ReadyToWithdraw', 'VestingTerminatedWithDeficit'])); st2 = p.storage; cx.reach('terminated meanwhile')
        res = cx.choose('res', ['ok', 'fail']); val = cx.u128('val', 0, SUPPLY) if tgt.startswith('get_') else None
        o2 = callback(p, cb, st2, FAIL if res == 'fail' else OKRES(N128(val)) if val is not None else ('ok', b2a(b'')))
        if val is not None and res == 'fail':
            cx.reach('query failed')
            cx.prove_known('an answered operation leaves the contract idle', z3.BoolVal(o2.ok and After(cx, o2.storage).st == 'idle'), 'LK1-' + m, z3.BoolVal(True))
            return
        cx.prove('the answer is processed', z3.BoolVal(o2.ok)); n2 = After(cx, o2.storage)
        if m == 'withdraw_all_from_staking_pool' and cx.branch(tm(val) > 0):
            cb2 = only(cx, 'withdraws what is unstaked', o2, POOL, 'withdraw', 0, {'amount': val})
            cx.prove('still busy', And(z3.BoolVal(n2.st == 'busy'), tm(n2.D) == tm(p.D))); frame(cx, p, n2, o2, ['stake'])
            res = cx.choose('res2', ['ok', 'fail'])
            o2 = callback(p, cb2, o2.storage, FAIL if res == 'fail' else ('ok', b2a(b''))); amt2 = val
            cx.prove('the answer is processed', z3.BoolVal(o2.ok)); n2 = After(cx, o2.storage)
            want = satsub(p.D, val) if res == 'ok' else tm(p.D)
        elif m == 'withdraw_all_from_staking_pool': want = tm(p.D)
        elif m == 'refresh_staking_pool_balance': want = tm(val)
        elif res == 'fail': want = tm(p.D)
        elif dep: want = tm(p.D) + tm(amt)
        elif tgt == 'withdraw': want = satsub(p.D, amt)
        else: want = tm(p.D)
        cx.prove('idle again', z3.BoolVal(n2.st == 'idle' and n2.pool == POOL)); cx.prove('known deposit follows the outcome', tm(n2.D) == want)
        cx.prove('the callback sends nothing', z3.BoolVal(not o2.receipts)); frame(cx, p, n2, o2, ['stake'])
        if tgt != 'get_account_total_balance': cx.prove('reports success', z3.BoolVal(unJ(o2.ret) is (res == 'ok')))
        cx.reach('done')
    return scn

# ---------------------------------------------------------------- P34 termination
def s_terminate(cx):
    p = Lk(cx, release=0, lts=0, transfers=cx.choose('enabled', [1, 0]), staking=cx.choose('stk', ['none', 'idle', 'busy']), status='ReadyToWithdraw')
    arg = cx.choose('arg', ['none', 'right', 'wrong', 'wrongsalt', 'invalid'])
    if arg == 'invalid':
        if p.vest != 'Hash': return
        p.hs = cx.choose('bads', BADSCHED)
    if p.vest == 'Hash' and arg != 'none': p.salt = cx.choose('salt', [SALT, b'', bytes(range(32))])
    p.storage = cx.mkstate(C, 'LockupContract', p.value())
    ws = lambda s, salt: {'vesting_schedule': dict(start_timestamp=N128(s[0]), cliff_timestamp=N128(s[1]), end_timestamp=N128(s[2])), 'salt': base64.b64encode(salt).decode()}
    a = {'none': None, 'right': ws(SCHED, p.salt), 'wrong': ws((SCHED[0], SCHED[1], SCHED[2] + 1), p.salt), 'wrongsalt': ws(SCHED, p.salt + b'\x01'), 'invalid': ws(p.hs, p.salt)}[arg]
    o = p.call('terminate_vesting', FND, {'vesting_schedule_with_salt': a})
    fits = (p.vest == 'Schedule' and arg == 'none') or (p.vest == 'Hash' and arg == 'right')
    if not fits: cx.reach('rejected'); cx.prove('needs running vesting and its true schedule', z3.BoolVal(not o.ok)); return
    un = p.unvested(sched=p.sched or SCHED)
    if not o.ok: cx.reach('vested'); cx.prove('unvested tokens can be terminated', un == 0); return
    cx.reach('ok'); n = After(cx, o.storage)
    cx.prove('terminates exactly the unvested amount', And(z3.BoolVal(n.vest == 'Terminating' and n.found == FND), tm(n.U) == un, un > 0, tm(n.W) == 0))
    cx.prove('never more than was locked up', tm(n.U) <= tm(n.A), mult=[tm(p.A)])
    acc = If(tm(p.bal) > MIN, tm(p.bal) - MIN, 0)
    deficit = And(un > acc, z3.BoolVal(p.st != 'none'))
    cx.prove('funds are fetched from the pool only when missing', If(deficit, z3.BoolVal(n.status == 'VestingTerminatedWithDeficit'), z3.BoolVal(n.status == 'ReadyToWithdraw')))
    cx.prove('terminating sends nothing', z3.BoolVal(not o.receipts)); frame(cx, p, n, o, ['vest'])
def s_prepare(cx):
    p = Lk(cx, vest='Term', release=0, lts=0, transfers=None)
    o = p.call('termination_prepare_to_withdraw', FND)
    can = p.st == 'idle' and p.status in ('VestingTerminatedWithDeficit', 'EverythingUnstaked')
    if not o.ok: cx.reach('rejected'); cx.prove('preparation proceeds from its two resting states', z3.BoolVal(not can)); return
    cx.prove('preparation only from its two resting states', z3.BoolVal(can))
    first = p.status == 'VestingTerminatedWithDeficit'
    busy, nxt = ('UnstakingInProgress', 'EverythingUnstaked') if first else ('WithdrawingFromStakingPoolInProgress', 'ReadyToWithdraw')
    cb = only(cx, 'asks the pool', o, POOL, 'get_account_staked_balance' if first else 'get_account_unstaked_balance', 0, {'account_id': ME})
    def at(o, st, status, D, label):
        n = After(cx, o.storage)
        cx.prove(label, And(z3.BoolVal(n.vest == 'Terminating' and n.status == status and n.st == st and n.pool == POOL and n.found == FND), tm(n.U) == tm(p.U), tm(n.W) == tm(p.W), tm(n.D) == D)); frame(cx, p, n, o, ['vest', 'stake'])
    at(o, 'busy', busy, tm(p.D), 'step in progress')
    res = cx.choose('res', ['ok', 'fail']); val = cx.u128('val', 0, SUPPLY)
    o2 = callback(p, cb, o.storage, FAIL if res == 'fail' else OKRES(N128(val)))
    if res == 'fail':
        cx.reach('query failed')
        cx.prove_known('a failed query can be repeated', z3.BoolVal(o2.ok and After(cx, o2.storage).st == 'idle'), 'LK2-' + ('staked' if first else 'unstaked'), z3.BoolVal(True)); return
    cx.prove('the answer is processed', z3.BoolVal(o2.ok))
    if cx.branch(tm(val) == 0): at(o2, 'idle', nxt, tm(p.D), 'nothing to move: next step'); cx.prove('nothing sent', z3.BoolVal(not o2.receipts)); cx.reach('empty'); return
    cb2 = only(cx, 'moves everything', o2, POOL, 'unstake' if first else 'withdraw', 0, {'amount': val}); at(o2, 'busy', busy, tm(p.D), 'still in progress')
    res = cx.choose('res2', ['ok', 'fail'])
    o3 = callback(p, cb2, o2.storage, FAIL if res == 'fail' else ('ok', b2a(b'')))
    cx.prove('the answer is processed', z3.BoolVal(o3.ok)); cx.prove('nothing sent', z3.BoolVal(not o3.receipts))
    if res == 'ok': at(o3, 'idle', nxt, tm(p.D) if first else satsub(p.D, val), 'next step after success'); cx.reach('moved')
    else: at(o3, 'idle', p.status, tm(p.D), 'back to the previous step after failure'); cx.reach('failed')
def s_termwithdraw(cx):
    p = Lk(cx, vest='Term', release=0, lts=0, transfers=None); to = cx.choose('to', ['bobby', 'BAD'] if p.status != 'ReadyToWithdraw' else ['bobby', 'BAD', OWN, FND, POOL, WL, POLL, ME])
    o = p.call('termination_withdraw', FND, {'receiver_id': to})
    can = And(z3.BoolVal(p.status == 'ReadyToWithdraw' and to != 'BAD'), tm(p.bal) > MIN)
    if not o.ok: cx.reach('rejected'); cx.prove('a prepared termination can be withdrawn', Not(can)); return
    cx.prove('only when prepared', can)
    amt = smin(p.U, V(tm(p.bal) - MIN, 1, SUPPLY)); rs = o.receipts
    good = len(rs) == 2 and [len(r['actions']) for r in rs] == [1, 1] and text(rs[0]['to']) == to and text(rs[1]['to']) == ME and rs[1]['deps'] == [0] and rs[0]['actions'][0]['k'] == 'transfer' and rs[1]['actions'][0]['k'] == 'call'
    cx.prove('one transfer and its callback', z3.BoolVal(good))
    cx.prove('pays the unvested amount as far as available', And(tm(rs[0]['actions'][0]['amount']) == amt, tm(rs[1]['actions'][0]['amount']) == 0))
    n = After(cx, o.storage); cx.prove('withdrawal in progress', And(z3.BoolVal(n.vest == 'Terminating' and n.status == 'WithdrawingFromAccountInProgress' and n.found == FND), tm(n.U) == tm(p.U), tm(n.W) == tm(p.W))); frame(cx, p, n, o, ['vest'])
    res = cx.choose('res', ['ok', 'fail'])
    o2 = callback(p, rs[1]['actions'][0], o.storage, FAIL if res == 'fail' else ('ok', b2a(b'')), balance=V(tm(p.bal) - amt, 0, SUPPLY))
    cx.prove('the answer is processed', z3.BoolVal(o2.ok)); n = After(cx, o2.storage); cx.prove('nothing sent', z3.BoolVal(not o2.receipts)); frame(cx, p, n, o2, ['vest'])
    if res == 'fail': cx.reach('failed'); cx.prove('a failed withdrawal changes nothing', And(z3.BoolVal(n.vest == 'Terminating' and n.status == 'ReadyToWithdraw' and n.found == FND), tm(n.U) == tm(p.U), tm(n.W) == tm(p.W))); return
    cx.prove('what was withdrawn is recorded', tm(n.W) == tm(p.W) + amt)
    cx.prove('never more than was locked up', tm(n.W) + tm(n.U) <= tm(n.A))
    if cx.branch(tm(p.U) > amt): cx.reach('partial'); cx.prove('the rest stays terminated', And(z3.BoolVal(n.vest == 'Terminating' and n.status == 'ReadyToWithdraw' and n.found == FND), tm(n.U) == tm(p.U) - amt))
    else: cx.reach('complete'); cx.prove('termination ends the foundation\'s role', z3.BoolVal(n.vest == 'None' and n.found is None))
# ---------------------------------------------------------------- P35 enabling transfers
def s_vote(cx):
    p = Lk(cx, lts=0, status='ReadyToWithdraw')
    o = p.call('check_transfers_vote', OWN)
    can = not p.enabled and p.vest != 'Term'
    if not o.ok: cx.reach('rejected'); cx.prove('the poll can be asked while transfers are disabled', z3.BoolVal(not can)); return
    cx.prove('only while disabled', z3.BoolVal(can))
    cb = only(cx, 'asks the transfer poll', o, POLL, 'get_result', 0, {}); frame(cx, p, After(cx, o.storage), o)
    st2 = o.storage
    if p.vest in ('Hash', 'Schedule') and cx.choose('race', ['no', 'term']) == 'term': p = Lk2(cx, p, vest='Term'); st2 = p.storage       # vesting is terminated before the answer arrives
    res = cx.choose('res', ['none', 'some', 'fail', 'late']); ts = cx.int('ts', 0, U64)
    q = p
    if res == 'late':
        import copy
        q = copy.copy(p); q.enabled = 1; q.tts = cx.int('tts2', 0, U64); q.storage = cx.mkstate(C, 'LockupContract', q.value())
    o2 = callback(q, cb, q.storage if res == 'late' else st2, FAIL if res == 'fail' else OKRES(None if res == 'none' else N128(ts)))
    if res in ('fail', 'late'): cx.reach('no answer'); cx.prove('no answer, no change; enabled once only', z3.BoolVal(not o2.ok)); return
    cx.prove('the answer is processed', z3.BoolVal(o2.ok)); n = After(cx, o2.storage)
    if res == 'none': cx.reach('undecided'); frame(cx, p, n, o2); cx.prove('says no', z3.BoolVal(unJ(o2.ret) is False))
    else:
        cx.reach('enabled'); cx.prove('enabled at the time the poll decided', And(z3.BoolVal(n.enabled and unJ(o2.ret) is True), tm(n.tts) == tm(ts)) if n.enabled else z3.BoolVal(False)); frame(cx, p, n, o2, ['transfers'])
    cx.prove('nothing sent', z3.BoolVal(not o2.receipts))
# ---------------------------------------------------------------- P36 initialization
def s_lknew(cx):
    had = cx.choose('had', [0, 1]); bad = cx.choose('bad', ['', 'owner', 'wl', 'poll', 'found'])
    vest = cx.choose('vest', ['None', 'Hash', 'Schedule']); f = cx.choose('f', [1, 0]); en = cx.choose('en', [1, 0]); rel = cx.choose('rel', [1, 0])
    if had and (bad or vest != 'None'): return
    if bad and (rel == 0): return
    bal = cx.u128('bal', 0, SUPPLY); dur, rd, lt, tt = [cx.int(n, 0, U64) for n in ('dur', 'rd', 'lt', 'tt')]
    sc = [cx.int(n, 0, U64) for n in ('vs', 'vc', 've')]
    s = Lk(cx, vest='None', staking='none', release=0, lts=0, transfers=1).storage if had else Storage()
    args = dict(owner_account_id='BAD' if bad == 'owner' else OWN, lockup_duration=N128(dur), lockup_timestamp=N128(lt) if rel else None,
                transfers_information={'TransfersEnabled': {'transfers_timestamp': N128(tt)}} if en else {'TransfersDisabled': {'transfer_poll_account_id': 'BAD' if bad == 'poll' else POLL}},
                vesting_schedule=None if vest == 'None' else {'VestingHash': base64.b64encode(vhash(SCHED)).decode()} if vest == 'Hash' else {'VestingSchedule': dict(start_timestamp=N128(sc[0]), cliff_timestamp=N128(sc[1]), end_timestamp=N128(sc[2]))},
                release_duration=N128(rd) if rel else None, staking_pool_whitelist_account_id='BAD' if bad == 'wl' else WL, foundation_account_id=('BAD' if bad == 'found' else FND) if f else None)
    o = cx.call(C, 'new', s, args, predecessor='alice', current=ME, balance=bal)
    valid = z3.BoolVal(not had and bad in ('', ) or (not had and ((bad == 'poll' and en == 1) or (bad == 'found' and not f))))
    valid = And(valid, z3.BoolVal((vest != 'None') == bool(f)))
    if vest == 'Schedule': valid = And(valid, tm(sc[0]) <= tm(sc[1]), tm(sc[1]) <= tm(sc[2]), tm(sc[0]) < tm(sc[2]))
    if not o.ok: cx.reach('rejected'); cx.prove('valid parameters are accepted, once', Not(valid)); return
    cx.reach('ok'); cx.prove('only valid parameters, once', valid)
    n = After(cx, o.storage); v = n.v
    cx.prove('locks exactly the initial balance', And(tm(n.A) == tm(bal), tm(n.W) == 0))
    cx.prove('parameters recorded', And(eqb(v['owner_account_id'], OWN), eqb(v['staking_pool_whitelist_account_id'], WL), tm(n.li['lockup_duration']) == tm(dur), optsame(n.li['release_duration'], rd if rel else None), optsame(n.li['lockup_timestamp'], lt if rel else None),
        z3.BoolVal(n.enabled == bool(en) and n.st == 'none' and n.vest == KIND[vest] and n.found == (FND if f else None) and not o.receipts), optsame(n.tts, tt if en else None)))
    if vest == 'Schedule':
        x = list(v['vesting_information'][1].values())[0]; cx.prove('schedule recorded', And(*[tm(x[k]) == tm(y) for k, y in zip(('start_timestamp', 'cliff_timestamp', 'end_timestamp'), sc)]))
    if vest == 'Hash': cx.prove('hash recorded', eqb(list(v['vesting_information'][1].values())[0], vhash(SCHED)))
    if not en: cx.prove('poll recorded', eqb(n.li['transfers_information'][1]['transfer_poll_account_id'], POLL))
def s_lkuninit(cx):
    m = cx.choose('m', sorted(set(OWNER_M) | set(FOUND_M) | {'get_locked_amount'}))
    o = cx.call(C, m, Storage(), {**OWNER_M, **FOUND_M}.get(m, {}), predecessor=OWN, current=ME); cx.reach('ok')
    cx.prove('unusable before initialization', z3.BoolVal(not o.ok))
BD = {'state': 'every lockup / vesting / staking / termination state', 'calls': '1, plus the callbacks it schedules with every outcome (up to 3 calls)', 'account ids': 'concrete, the caller of the access check is any 5-letter name'}
@prop('P30', BD)
def P30(run):
    for v in ('None', 'Hash', 'Schedule', 'Term'):
        run.explore('locked ' + v, s_locked(v), [C], ['ok']); run.explore('monotone ' + v, s_mono(v), [C], ['ok'])
    run.explore('unvested', s_unvested, [C], ['ok']); run.explore('balances', s_balviews, [C], ['ok']); run.explore('other views', s_otherviews, [C], ['ok'])
@prop('P31', BD)
def P31(run):
    run.explore('transfer', s_transfer, [C], ['ok', 'rejected', 'too much']); run.explore('full access key', s_fak, [C], ['ok', 'rejected', 'locked'])
@prop('P32', BD)
def P32(run):
    run.explore('owner methods', s_access(OWNER_M, OWN), [C], ['ok', 'rejected']); run.explore('foundation methods', s_access(FOUND_M, FND), [C], ['ok', 'rejected'])
    run.explore('callbacks', s_private(), [C], ['ok', 'rejected']); run.explore('no foundation', s_nofound, [C], ['ok']); run.explore('other methods', s_publics, [C], ['ok']); run.explore('similar callers', s_similar, [C], ['ok'])
@prop('P33', BD)
def P33(run):
    run.explore('select', s_select, [C], ['rejected', 'asked', 'refused', 'selected']); run.explore('unselect', s_unselect, [C], ['ok', 'rejected'])
    for m in OPS: run.explore(m, s_op([m]), [C], ['rejected', 'sent', 'done'])
@prop('P34', BD)
def P34(run):
    run.explore('terminate', s_terminate, [C], ['ok', 'rejected', 'vested']); run.explore('prepare', s_prepare, [C], ['rejected', 'empty', 'moved', 'failed']); run.explore('withdraw', s_termwithdraw, [C], ['rejected', 'failed', 'partial', 'complete'])
@prop('P35', BD)
def P35(run):
    run.explore('vote', s_vote, [C], ['rejected', 'no answer', 'undecided', 'enabled'])
    run.explore('answer', s_private(['on_get_result_from_transfer_poll']), [C], ['ok', 'rejected']); run.explore('other methods', s_access({**OWNER_M, **FOUND_M}, None), [C], ['ok'])
@prop('P36', BD)
def P36(run):
    run.explore('new', s_lknew, [C], ['ok', 'rejected']); run.explore('uninitialized', s_lkuninit, [C], ['ok'])
