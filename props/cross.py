"""Contracts together: P50 lockup against the real staking pool, P51 termination against the real staking pool, P52 lockup with whitelist and poll, staking pool with poll."""
from .common import *
from . import lockup as LK, pool as PL, voting as VO
L, SP, VT, W = 'lockup', 'staking-pool', 'voting', 'whitelist'
ME, POOL = LK.ME, LK.POOL
def at_pool(cx, q, a, storage=None, view=False, **kw):
    """deliver a function call of the lockup to the real pool; returns (outcome, result as the callback sees it)"""
    m = text(a['method'])
    cx.prove('the pool has the method that is called', z3.BoolVal(m in prog(SP).roots))
    o = q.call(m, ME, a['args'], deposit=a['amount'], storage=storage, **({'view': True} if view else {}), **kw)
    if not o.ok:
        cx.prove('the pool understands the call', z3.BoolVal('deserialize' not in str(o.msg) and 'doesn\'t accept deposit' not in str(o.msg)))
        return o, LK.FAIL
    return o, ('ok', o.ret if o.ret is not None else b2a(b''))
def acct(st): return st.acc.get(ME, PL.ZERO)
def paid(o):
    """transfers the pool sends"""
    return [(text(r['to']), a['amount']) for r in o.receipts for a in r['actions'] if a['k'] == 'transfer']
def s_ops(m):
    tgt = LK.OPS[m]
    def scn(cx):
        p = LK.Lk(cx, vest='None', staking='idle', release=0, lts=0, transfers=1)
        q = PL.Pool(cx, owner_in=0, paused=0, names=cx.choose('known', [(ME, 'bobby'), ('alice', 'bobby')]))
        amt = cx.u128('amt', 1, SUPPLY) if m in ('deposit_to_staking_pool', 'deposit_and_stake', 'withdraw_from_staking_pool', 'stake', 'unstake') else None
        o = p.call(m, LK.OWN, {'amount': N128(amt)} if amt is not None else {})
        if not o.ok: cx.reach('refused'); return
        view = tgt.startswith('get_')
        a, cb = o.receipts[0]['actions'][0], o.receipts[1]['actions'][0]
        r, res = at_pool(cx, q, a, view=view)
        a0 = acct(PL.St(cx, q.storage)); a1 = acct(PL.St(cx, r.storage)) if r.ok else a0
        sent = [x for x in paid(r)] if r.ok and not view else []
        ping_ok = Or(Not(PL.newepoch(q)), PL.reward(q) >= 0)
        o2 = LK.callback(p, cb, o.storage, res); cx.prove('the answer of the pool is understood', z3.BoolVal(o2.ok)); n = LK.After(cx, o2.storage)
        dD = lambda: tm(n.D) - tm(p.D)
        if tgt == 'deposit':
            cx.prove('a deposit is credited, or fails as a whole', Or(z3.BoolVal(not r.ok), tm(a1['unstaked']) - tm(a0['unstaked']) == tm(amt)))
            cx.prove('the pool takes a deposit', Or(z3.BoolVal(r.ok), Not(ping_ok)))
        if tgt in ('deposit', 'deposit_and_stake'):
            cx.prove('the lockup records what the pool got', dD() == (tm(amt) if r.ok else 0)); cx.prove('the money moves with the call', tm(a['amount']) == tm(amt))
        if tgt == 'withdraw':
            cx.prove('what is withdrawn comes back to the lockup', z3.BoolVal(len(sent) == (1 if r.ok else 0) and all(t == ME for t, _ in sent)))
            if r.ok: cx.prove('exactly the requested amount, debited at the pool', And(tm(sent[0][1]) == tm(amt), tm(a0['unstaked']) - tm(a1['unstaked']) == tm(amt), tm(n.D) == LK.satsub(p.D, amt)))
            else: cx.prove('a refused withdrawal changes nothing', tm(n.D) == tm(p.D))
        if tgt in ('stake', 'unstake', 'unstake_all'): cx.prove('moving tokens within the pool does not change the deposit', tm(n.D) == tm(p.D)); cx.prove('no money moves', z3.BoolVal(not sent))
        if tgt == 'unstake_all' and r.ok: cx.prove('everything is unstaked', tm(a1['stake_shares']) == 0)
        if tgt == 'get_account_total_balance':
            cx.prove('the pool answers', z3.BoolVal(r.ok)); v, _ = s_divmod(s_mul(q.T, a0['stake_shares']), q.S)
            cx.prove('the known deposit is the total balance at the pool', tm(n.D) == tm(a0['unstaked']) + tm(v))
        if tgt == 'get_account_unstaked_balance':
            cx.prove('the pool answers', z3.BoolVal(r.ok))
            if not cx.branch(tm(a0['unstaked']) > 0): cx.reach('ok'); cx.prove('nothing to withdraw', z3.BoolVal(n.st == 'idle' and not o2.receipts)); return
            a, cb = o2.receipts[0]['actions'][0], o2.receipts[1]['actions'][0]
            r, res = at_pool(cx, q, a); a1 = acct(PL.St(cx, r.storage)) if r.ok else a0; sent = paid(r) if r.ok else []
            o3 = LK.callback(p, cb, o2.storage, res); cx.prove('the answer of the pool is understood', z3.BoolVal(o3.ok)); n = LK.After(cx, o3.storage)
            if r.ok:
                cx.prove('the whole unstaked balance comes back', And(z3.BoolVal(len(sent) == 1 and sent[0][0] == ME), tm(sent[0][1]) == tm(a0['unstaked']), tm(a1['unstaked']) == 0, tm(n.D) == LK.satsub(p.D, a0['unstaked'])) if sent else z3.BoolVal(False))
            else: cx.prove('a refused withdrawal changes nothing', tm(n.D) == tm(p.D))
        cx.prove('the lockup is idle again', z3.BoolVal(n.st == 'idle'))
        cx.reach('ok' if r.ok else 'pool refused')
    return scn
def s_term(cx):
    """the two pool steps of a termination"""
    p = LK.Lk(cx, vest='Term', staking='idle', release=0, lts=0, transfers=1, status=['VestingTerminatedWithDeficit', 'EverythingUnstaked'])
    q = PL.Pool(cx, owner_in=0, paused=0, names=(ME, 'bobby')); first = p.status == 'VestingTerminatedWithDeficit'
    cx.assume(tm(q.epoch) == tm(q.le))           # the two calls of a step fall into one epoch
    o = p.call('termination_prepare_to_withdraw', LK.FND); cx.prove('accepted', z3.BoolVal(o.ok))
    a0 = acct(PL.St(cx, q.storage))
    r, res = at_pool(cx, q, o.receipts[0]['actions'][0], view=True); cx.prove('the pool answers', z3.BoolVal(r.ok))
    o2 = LK.callback(p, o.receipts[1]['actions'][0], o.storage, res); cx.prove('the answer of the pool is understood', z3.BoolVal(o2.ok))
    if not o2.receipts:
        n = LK.After(cx, o2.storage); cx.reach('empty')
        v, _ = s_divmod(s_mul(q.T, a0['stake_shares']), q.S)
        cx.prove('skipped only when nothing is there', And(tm(v) == 0 if first else tm(a0['unstaked']) == 0, z3.BoolVal(n.status == ('EverythingUnstaked' if first else 'ReadyToWithdraw')))); return
    r, res = at_pool(cx, q, o2.receipts[0]['actions'][0])
    o3 = LK.callback(p, o2.receipts[1]['actions'][0], o2.storage, res); cx.prove('the answer of the pool is understood', z3.BoolVal(o3.ok)); n = LK.After(cx, o3.storage)
    if not r.ok:
        cx.reach('refused'); cx.prove('the step can be repeated after a refusal', z3.BoolVal(n.status == p.status and n.st == 'idle')); cx.prove('unstaking everything is accepted', z3.BoolVal(not first)); return
    cx.reach('unstaked' if first else 'withdrawn'); a1 = acct(PL.St(cx, r.storage))
    if first: cx.prove('all shares of the lockup are gone', tm(a1['stake_shares']) == 0, mult=[tm(q.S), tm(q.T)]); cx.prove('unstaked', z3.BoolVal(n.status == 'EverythingUnstaked'))
    else:
        t = paid(r); cx.prove('the whole unstaked balance arrives at the lockup', And(z3.BoolVal(len(t) == 1 and t[0][0] == ME), tm(t[0][1]) == tm(a0['unstaked']), tm(a1['unstaked']) == 0) if t else z3.BoolVal(False)); cx.prove('ready', z3.BoolVal(n.status == 'ReadyToWithdraw'))
def s_select(cx):
    p = LK.Lk(cx, vest='None', staking='none', release=0, lts=0, transfers=1); listed = cx.choose('listed', [['newpl', 'other'], ['other'], []]); fac = cx.choose('fac', [[], ['newpl']])
    o = p.call('select_staking_pool', LK.OWN, {'staking_pool_account_id': 'newpl'}); cx.prove('accepted', z3.BoolVal(o.ok))
    a, cb = o.receipts[0]['actions'][0], o.receipts[1]['actions'][0]
    ws = cx.mkstate(W, 'WhitelistContract', dict(foundation_account_id='found', whitelist=Coll(b'w', listed), factory_whitelist=Coll(b'f', fac)))
    cx.prove('the whitelist has the method', z3.BoolVal(text(a['method']) in prog(W).roots))
    w = cx.call(W, text(a['method']), ws, a['args'], view=True, current=text(o.receipts[0]['to'])); cx.prove('the whitelist answers', z3.BoolVal(w.ok))
    o2 = LK.callback(p, cb, o.storage, ('ok', w.ret)); cx.reach('ok')
    cx.prove('a pool is selected exactly when the whitelist lists it', z3.BoolVal(o2.ok == ('newpl' in listed)))
    if o2.ok: n = LK.After(cx, o2.storage); cx.prove('selected', z3.BoolVal(n.pool == 'newpl' and n.st == 'idle')); cx.reach('selected')
def s_polled(cx):
    p = LK.Lk(cx, vest='None', staking='none', lts=0, transfers=0); v = VO.Poll(cx, voters=['alice'])
    o = p.call('check_transfers_vote', LK.OWN); cx.prove('accepted', z3.BoolVal(o.ok)); a, cb = o.receipts[0]['actions'][0], o.receipts[1]['actions'][0]
    cx.prove('the poll has the method', z3.BoolVal(text(a['method']) in prog(VT).roots))
    r = cx.call(VT, text(a['method']), v.storage, a['args'], view=True, current=LK.POLL); cx.prove('the poll answers', z3.BoolVal(r.ok))
    o2 = LK.callback(p, cb, o.storage, ('ok', r.ret)); cx.prove('the answer is understood', z3.BoolVal(o2.ok)); n = LK.After(cx, o2.storage)
    cx.prove('transfers are enabled exactly when the poll is decided, at its time', And(z3.BoolVal(n.enabled == bool(v.done)), tm(n.tts) == tm(v.when) if v.done and n.enabled else z3.BoolVal(not v.done))); cx.reach('enabled' if v.done else 'open')
def s_poolvote(cx):
    q = PL.Pool(cx, owner_in=0, paused=0); yes = cx.choose('yes', [True, False])
    v = VO.Poll(cx, ended=0, voters=cx.choose('had', [[], ['spool']])) if False else None
    o = q.call('vote', 'owner', {'voting_account_id': 'tpoll', 'is_vote': yes}); cx.prove('accepted', z3.BoolVal(o.ok)); a = o.receipts[0]['actions'][0]
    cx.prove('the poll has the method', z3.BoolVal(text(a['method']) in prog(VT).roots))
    stake, total, old = cx.u128('stake', 1, SUPPLY), cx.u128('total', 1, SUPPLY), cx.u128('old', 1, SUPPLY); had = cx.choose('had', [0, 1]); ep = cx.int('vep', 0, 10 ** 12)
    cx.assume(tm(stake) <= tm(total))
    if had: cx.assume(And(tm(old) == tm(stake), 3 * tm(stake) <= 2 * tm(total)))
    s = cx.mkstate(VT, 'VotingContract', dict(votes=[('spool', old)] if had else [], total_voted_stake=old if had else 0, result=None, last_epoch_height=ep))
    r = cx.call(VT, text(a['method']), s, a['args'], predecessor=text(PL_ME(o)), signer='alice', current='tpoll', epoch=ep, timestamp=5, validators={'spool': stake}, validator_total=total)
    cx.prove('the poll takes the pool\'s vote', z3.BoolVal(r.ok)); n = VO.PSt(cx, r.storage)
    cx.prove('the pool votes with its stake, or takes its vote back', And(z3.BoolVal(set(n.votes) == ({'spool'} if yes else set())), tm(n.voted) == (tm(stake) if yes else 0))); cx.reach('yes' if yes else 'no')
def PL_ME(o): return o.host.current
BD = {'state': 'any lockup state with an idle pool, any pool state with the lockup as a delegator and one more', 'calls': 'the lockup call, the pool calls it sends and the callbacks (up to 5 calls)', 'epochs': 'pool calls of one operation; for a termination step within one epoch'}
@prop('P50', BD)
def P50(run):
    for m in LK.OPS: run.explore(m, s_ops(m), [L, SP], ['ok'] + (['pool refused'] if not m.startswith('refresh') else []))
@prop('P51', BD)
def P51(run): run.explore('termination steps', s_term, [L, SP], ['empty', 'unstaked', 'withdrawn'])
@prop('P52', {'calls': 'lockup -> whitelist / poll -> callback, pool -> poll', 'members': 'up to 2 listed pools, one vote'})
def P52(run):
    run.explore('select', s_select, [L, W], ['ok', 'selected']); run.explore('poll', s_polled, [L, VT], ['enabled', 'open']); run.explore('pool votes', s_poolvote, [SP, VT], ['yes', 'no'])
