"""Factories: staking-pool-factory P40, lockup-factory P41, multisig-factory P42; refund of failed creations P43; access P44."""
from .common import *
from . import lockup as LK, msig as MSG
import hashlib, base64
from vt import build
SF, LF, MF, SP, W = 'staking-pool-factory', 'lockup-factory', 'multisig-factory', 'staking-pool', 'whitelist'
ME = 'facto'; MINP = 30 * 10 ** 24; MINL = 35 * 10 ** 23
U32 = (1 << 32) - 1
B58 = 'ed25519:US517G5965aydkZ46HS38QLi7UQiSojurfbQfKCELFx'; RAW = b'\0' + b'\x07' * 32
CODEF = {SF: 'staking-pool/res/staking_pool.wasm', LF: 'lockup/res/lockup_contract.wasm', MF: 'multisig2/res/multisig2.wasm'}
_code = {}
def code(c):
    if c not in _code: _code[c] = open(os.path.join(build.REPO, CODEF[c]), 'rb').read()
    return _code[c]
def num(r): return tm(r if isinstance(r, Sym) else int(r))
def isaction(a, k): return a['k'] == k
def creation(cx, c, o, acct, dep, cbs):
    """the first receipt creates acct with the shipped code and the whole deposit and initialises it; then cbs callbacks to the factory. Returns (init call, callback call)"""
    rs = o.receipts
    shape = len(rs) == 1 + cbs and text(rs[0]['to']) == acct and rs[0]['deps'] == []
    ks = [a['k'] for a in rs[0]['actions']] if rs else []
    shape = shape and sorted(ks) == ['call', 'create', 'deploy', 'transfer'] and ks[0] == 'create' and ks[-1] == 'call'
    cx.prove('creates exactly the named sub-account, then initialises it', z3.BoolVal(bool(shape)))
    by = {a['k']: a for a in rs[0]['actions']}
    d = by['deploy']['code']; cx.prove('deploys exactly the shipped contract code', z3.BoolVal(not d.rel and bytes(d.data) == code(c)))
    cx.prove('the whole deposit goes to the new account', And(tm(by['transfer']['amount']) == tm(dep), tm(by['call']['amount']) == 0))
    cx.prove('initialises it', z3.BoolVal(text(by['call']['method']) == 'new'))
    if not cbs: return by['call'], None
    cb = rs[1]['actions']
    cx.prove('the outcome comes back to the factory only', z3.BoolVal(text(rs[1]['to']) == ME and rs[1]['deps'] == [0] and len(cb) == 1 and cb[0]['k'] == 'call'))
    cx.prove('the callback carries no money', tm(cb[0]['amount']) == 0)
    return by['call'], cb[0]
def refund(cx, label, o, to, amt):
    rs = o.receipts
    good = len(rs) == 1 and len(rs[0]['actions']) == 1 and rs[0]['actions'][0]['k'] == 'transfer' and text(rs[0]['to']) == to
    cx.prove(label, And(z3.BoolVal(good), tm(rs[0]['actions'][0]['amount']) == tm(amt)) if good else z3.BoolVal(False))
FAIL = ('fail',)
def okres(x=b''): return ('ok', b2a(x))
def call(cx, c, m, s, args=None, pred='alice', **kw):
    k = dict(predecessor=pred, signer="sammy", current=ME); k.update(kw)
    return cx.call(c, m, s, args, **k)

# ---------------------------------------------------------------- staking pool factory
class Sf:
    def __init__(s, cx, pools=None):
        s.cx = cx; s.pools = pools if pools is not None else cx.choose('pools', [[], ['other.facto'], ['other.facto', 'mypool.facto']])
        s.storage = cx.mkstate(SF, 'StakingPoolFactory', dict(staking_pool_whitelist_account_id='white', staking_pool_account_ids=Coll(b's', s.pools)))
def sfstate(cx, storage, label, pools):
    v = cx.state(SF, storage, 'StakingPoolFactory'); got = [text(x) for x in v['staking_pool_account_ids'].items]
    cx.prove(label, And(eqb(v['staking_pool_whitelist_account_id'], 'white'), z3.BoolVal(len(got) == len(set(got)) and set(got) == set(pools) and len(storage.items()) == 1 + 2 * len(pools))))
def s_sfcreate(cx):
    p = Sf(cx); pid = cx.choose('id', ['mypool', 'newpl', 'a.b', 'BAD', '', 'x' * 59, 'x' * 58]); owner = cx.choose('owner', ['alice', 'BAD']); pred = cx.choose('pred', ['bobby', 'alice', 'white', ME] if pid == 'newpl' else ['bobby'])
    nu, de = cx.int('num', 0, U32), cx.int('den', 0, U32); dep = cx.u128('dep'); bal = cx.u128('bal', 0, SUPPLY)
    o = call(cx, SF, 'create_staking_pool', p.storage, {'staking_pool_id': pid, 'owner_id': owner, 'stake_public_key': B58, 'reward_fee_fraction': {'numerator': nu, 'denominator': de}}, pred, balance=bal, deposit=dep)
    acct = pid + '.facto'
    okc = And(z3.BoolVal(pid in ('mypool', 'newpl', 'x' * 58) and owner == 'alice' and acct not in p.pools), tm(dep) >= MINP, tm(de) > 0, tm(nu) <= tm(de))
    if not o.ok: cx.reach('rejected'); cx.prove('a valid request with enough deposit is accepted', Not(okc)); return
    cx.reach('ok'); cx.prove('only a valid new id, valid owner and fee, and enough deposit', okc)
    init, cb = creation(cx, SF, o, acct, dep, 1)
    j = unJ(init['args']); f = j.get('reward_fee_fraction', {})
    cx.prove('the pool gets the requested owner, key and fee', And(z3.BoolVal(set(j) == {'owner_id', 'stake_public_key', 'reward_fee_fraction'} and j['owner_id'] == 'alice' and j['stake_public_key'] == B58 and set(f) == {'numerator', 'denominator'}), num(f['numerator']) == tm(nu), num(f['denominator']) == tm(de)))
    sfstate(cx, o.storage, 'the id is reserved, nothing else changes', p.pools + [acct])
    # the pool's real initialisation accepts exactly these arguments
    n = cx.call(SP, 'new', Storage(), init['args'], predecessor=ME, signer='sammy', current=acct, balance=dep, epoch=7)
    cx.prove('the created pool accepts its initialisation', z3.BoolVal(n.ok))
    v = cx.state(SP, n.storage, 'StakingContract')
    cx.prove('the created pool belongs to the requested owner under the requested terms', And(eqb(v['owner_id'], 'alice'), eqb(v['stake_public_key'], RAW), tm(v['reward_fee_fraction']['numerator']) == tm(nu), tm(v['reward_fee_fraction']['denominator']) == tm(de), tm(v['last_total_balance']) == tm(dep)))
    # both outcomes of the creation
    res = cx.choose('res', ['ok', 'fail'])
    o2 = call(cx, SF, text(cb['method']), o.storage, cb['args'], ME, presults=[okres() if res == 'ok' else FAIL], balance=add(bal, dep))
    cx.prove('the outcome is processed', z3.BoolVal(o2.ok))
    if res == 'fail':
        cx.reach('failed'); refund(cx, 'a failed creation returns the whole deposit to its sender', o2, pred, dep); sfstate(cx, o2.storage, 'and frees the id again', p.pools)
        cx.prove('answers false', z3.BoolVal(unJ(o2.ret) is False)); return
    cx.reach('created'); sfstate(cx, o2.storage, 'a created pool stays registered', p.pools + [acct])
    rs = o2.receipts; good = len(rs) == 1 and len(rs[0]['actions']) == 1 and rs[0]['actions'][0]['k'] == 'call' and text(rs[0]['to']) == 'white' and o2.host.ret_promise == [0]
    cx.prove('asks the whitelist, and nothing else', z3.BoolVal(good)); a = rs[0]['actions'][0]; cx.prove('sends no money', tm(a['amount']) == 0)
    wl = cx.mkstate(W, 'WhitelistContract', dict(foundation_account_id='found', whitelist=Coll(b'w', ['older']), factory_whitelist=Coll(b'f', [ME])))
    w = cx.call(W, text(a['method']), wl, a['args'], predecessor=ME, signer='sammy', current='white')
    v = cx.state(W, w.storage, 'WhitelistContract')
    cx.prove('the whitelist then lists exactly the new pool in addition', z3.BoolVal(w.ok and bool(v['whitelist'].get(acct)) and bool(v['whitelist'].get('older')) and len(w.storage.items()) == 4))
def s_sfpending(cx):
    """two creations in flight"""
    dep, dep2 = cx.u128('dep', MINP, SUPPLY), cx.u128('dep2', MINP, SUPPLY); bal = cx.u128('bal', 0, SUPPLY)
    p = Sf(cx, ['other.facto']); a = {'owner_id': 'alice', 'stake_public_key': B58, 'reward_fee_fraction': {'numerator': 1, 'denominator': 10}}
    o = call(cx, SF, 'create_staking_pool', p.storage, dict(a, staking_pool_id='mypool'), 'bobby', balance=bal, deposit=dep)
    cx.prove('creation accepted', z3.BoolVal(o.ok))
    second = cx.choose('second', ['mypool', 'other', 'third'])
    o2 = call(cx, SF, 'create_staking_pool', o.storage, dict(a, staking_pool_id=second), 'alice', balance=bal, deposit=dep2)
    cx.prove('an id in use or in creation is refused', z3.BoolVal(o2.ok == (second == 'third')))
    if second != 'third': cx.reach('refused'); s = o.storage
    else: cx.reach('two'); s = o2.storage
    pools = ['other.facto', 'mypool.facto'] + (['third.facto'] if second == 'third' else [])
    order = cx.choose('order', [[0], [0, 1], [1, 0]]) if second == 'third' else [0]
    ask = {0: (o, 'mypool.facto', 'bobby', dep), 1: (o2, 'third.facto', 'alice', dep2)}
    for i in order:
        x, acct, who, d = ask[i]; cb = x.receipts[1]['actions'][0]; fail = cx.choose('fail%d' % i, [1, 0])
        q = call(cx, SF, text(cb['method']), s, cb['args'], ME, presults=[FAIL if fail else okres()], balance=add(bal, dep, dep2))
        cx.prove('the outcome is processed', z3.BoolVal(q.ok))
        if fail: refund(cx, 'each failure returns its own deposit to its own sender', q, who, d); pools = [y for y in pools if y != acct]
        sfstate(cx, q.storage, 'the registry follows each outcome', pools); s = q.storage
    if 'mypool.facto' not in pools:
        r = call(cx, SF, 'create_staking_pool', s, dict(a, staking_pool_id='mypool'), 'bobby', balance=bal, deposit=dep); cx.prove('an id freed by a failure can be used again', z3.BoolVal(r.ok)); cx.reach('again')
    v = call(cx, SF, 'get_number_of_staking_pools_created', s, view=True); cx.prove('the number of pools view is right', z3.BoolVal(v.ok and unJ(v.ret) == len(pools)))
    v = call(cx, SF, 'get_min_attached_balance', s, view=True); cx.prove('the minimum view is right', z3.BoolVal(v.ok and int(unJ(v.ret)) == MINP))
def s_sfnew(cx):
    had = cx.choose('had', [0, 1]); w = cx.choose('w', ['white', 'BAD']); x = cx.u128('bal', 0, SUPPLY)
    o = call(cx, SF, 'new', Sf(cx, []).storage if had else Storage(), {'staking_pool_whitelist_account_id': w}, balance=x)
    cx.prove('initialised once with a valid whitelist', z3.BoolVal(o.ok == (not had and w == 'white')))
    if o.ok: cx.reach('ok'); sfstate(cx, o.storage, 'starts empty', [])
    for m in ('create_staking_pool', 'on_staking_pool_create', 'get_number_of_staking_pools_created'):
        q = call(cx, SF, m, Storage(), {'staking_pool_id': 'mypool', 'owner_id': 'alice', 'stake_public_key': B58, 'reward_fee_fraction': {'numerator': 1, 'denominator': 2}, 'staking_pool_account_id': 'mypool.facto', 'attached_deposit': '5', 'predecessor_account_id': 'bobby'}, ME, deposit=MINP if m[0] == 'c' else 0, balance=MINP, presults=[FAIL])
        cx.prove('unusable before initialisation', z3.BoolVal(not q.ok))

# ---------------------------------------------------------------- lockup factory
class Lf:
    def __init__(s, cx): s.storage = cx.mkstate(LF, 'LockupFactory', dict(whitelist_account_id='white', foundation_account_id='found'))
def lfsame(cx, s):
    v = cx.state(LF, s, 'LockupFactory'); cx.prove('the factory\'s settings never change', And(eqb(v['whitelist_account_id'], 'white'), eqb(v['foundation_account_id'], 'found'), z3.BoolVal(len(s.items()) == 1)))
STARTED = 1602614338293769340
def s_lfcreate(vests):
    def scn(cx):
        p = Lf(cx); owner = cx.choose('owner', ['alice', 'bobby.near', 'ab' * 32, 'BAD']); vest = cx.choose('vest', vests)
        dep = cx.u128('dep'); bal = cx.u128('bal', 0, SUPPLY); dur = cx.int('dur', 0, U64)
        full = owner == 'alice'
        lts = cx.int('lts', 0, U64) if full and cx.choose('has_lts', [0, 1]) else None; rel = cx.int('rel', 0, U64) if full and cx.choose('has_rel', [0, 1]) else None
        wl = cx.choose('wl', [None, 'ownwl', 'BAD', 'white', 'alice']) if full else None; pred = cx.choose('pred', ['bobby', 'alice', 'found', 'white', ME]) if full and not (lts or rel or wl) else 'bobby'
        sc = [cx.int(n, 0, U64) for n in ('vs', 'vc', 've')]; h = LK.vhash(LK.SCHED)
        args = dict(owner_account_id=owner, lockup_duration=N128(dur))
        if lts is not None: args['lockup_timestamp'] = N128(lts)
        if rel is not None: args['release_duration'] = N128(rel)
        if wl: args['whitelist_account_id'] = wl
        if vest == 'Hash': args['vesting_schedule'] = {'VestingHash': base64.b64encode(h).decode()}
        if vest == 'Schedule': args['vesting_schedule'] = {'VestingSchedule': dict(start_timestamp=N128(sc[0]), cliff_timestamp=N128(sc[1]), end_timestamp=N128(sc[2]))}
        o = call(cx, LF, 'create', p.storage, args, pred, balance=bal, deposit=dep)
        okc = And(z3.BoolVal(owner != 'BAD' and wl != 'BAD'), tm(dep) >= MINL)
        goods = And(tm(sc[0]) <= tm(sc[1]), tm(sc[1]) <= tm(sc[2]), tm(sc[0]) < tm(sc[2]))
        if not o.ok: cx.reach('rejected'); cx.prove('a valid request with enough deposit is accepted', Not(And(okc, goods)) if vest == 'Schedule' else Not(okc)); return
        cx.reach('ok'); cx.prove('only valid names and enough deposit', okc)
        acct = hashlib.sha256(owner.encode()).digest()[:20].hex() + '.facto'
        init, cb = creation(cx, LF, o, acct, dep, 1); lfsame(cx, o.storage)
        j = unJ(init['args'])
        cx.prove('initialisation arguments named as the lockup contract expects', z3.BoolVal(set(j) == {'owner_account_id', 'lockup_duration', 'lockup_timestamp', 'transfers_information', 'vesting_schedule', 'release_duration', 'staking_pool_whitelist_account_id', 'foundation_account_id'}))
        n = cx.call(LK.C, 'new', Storage(), init['args'], predecessor=ME, signer='sammy', current=acct, balance=dep)
        good = goods if vest == 'Schedule' else z3.BoolVal(True)
        if not n.ok: cx.reach('bad schedule'); cx.prove('the lockup refuses only an invalid vesting schedule', Not(good)); res = 'fail'
        else:
            res = cx.choose('res', ['ok', 'fail']); a = LK.After(cx, n.storage); v = a.v
            cx.prove('a lockup is created only with a valid vesting schedule', good)
            cx.prove('the lockup is the owner\'s, under the requested terms', And(eqb(v['owner_account_id'], owner), eqb(v['staking_pool_whitelist_account_id'], wl or 'white'), tm(a.A) == tm(dep), tm(a.W) == 0, tm(a.li['lockup_duration']) == tm(dur), LK.optsame(a.li['release_duration'], rel), LK.optsame(a.li['lockup_timestamp'], lts),
                z3.BoolVal(a.enabled and a.st == 'none' and a.vest == LK.KIND[vest] and a.found == (None if vest == 'None' else 'found')), tm(a.tts) == STARTED if a.enabled else z3.BoolVal(False)))
            if vest == 'Schedule':
                x = list(v['vesting_information'][1].values())[0]; cx.prove('vesting schedule as requested', And(*[tm(x[k]) == tm(y) for k, y in zip(('start_timestamp', 'cliff_timestamp', 'end_timestamp'), sc)]))
            if vest == 'Hash': cx.prove('vesting hash as requested', eqb(list(v['vesting_information'][1].values())[0], h))
        o2 = call(cx, LF, text(cb['method']), o.storage, cb['args'], ME, presults=[okres() if res == 'ok' else FAIL], balance=add(bal, dep))
        cx.prove('the outcome is processed', z3.BoolVal(o2.ok)); lfsame(cx, o2.storage); cx.prove('reports the outcome', z3.BoolVal(unJ(o2.ret) is (res == 'ok')))
        if res == 'ok': cx.reach('created'); cx.prove('nothing more is sent', z3.BoolVal(not o2.receipts))
        else: cx.reach('failed'); refund(cx, 'a failed creation returns the whole deposit to its sender', o2, pred, dep)
    return scn
def s_lfmisc(cx):
    had = cx.choose('had', [0, 1]); w = cx.choose('w', ['white', 'BAD']); f = cx.choose('f', ['found', 'BAD']); me = cx.choose('me', ['facto', 'f' * 23, 'f' * 24]); x = cx.u128('bal', 0, SUPPLY)
    o = call(cx, LF, 'new', Lf(cx).storage if had else Storage(), {'whitelist_account_id': w, 'foundation_account_id': f}, current=me, balance=x)
    cx.prove('initialised once with valid accounts under a short enough name', z3.BoolVal(o.ok == (not had and w == 'white' and f == 'found' and len(me) <= 23)))
    if o.ok: cx.reach('ok'); lfsame(cx, o.storage)
    s = Lf(cx).storage
    for m, r in (('get_foundation_account_id', 'found'), ('get_lockup_master_account_id', ME), ('get_min_attached_balance', str(MINL))):
        q = call(cx, LF, m, s, view=True); cx.prove('views are right', z3.BoolVal(q.ok and str(unJ(q.ret)) == r))
    for m in ('create', 'on_lockup_create', 'get_foundation_account_id'):
        q = call(cx, LF, m, Storage(), {'owner_account_id': 'alice', 'lockup_duration': '5', 'lockup_account_id': 'x.facto', 'attached_deposit': '5', 'predecessor_account_id': 'bobby'}, ME, deposit=MINL if m == 'create' else 0, balance=MINL, presults=[FAIL])
        cx.prove('unusable before initialisation', z3.BoolVal(not q.ok))

# ---------------------------------------------------------------- multisig factory
def s_mfcreate(cx):
    x = MSG.V2(); name = cx.choose('name', ['mysig', 'a-b']); ms = cx.choose('ms', [['k1'], ['k1', 'alice', 'k2'], [], ['alice', 'alice']])
    dep = cx.u128('dep'); bal = cx.u128('bal', 0, SUPPLY); n = cx.int('k', 0, U64); gas = cx.int('gas', 0, 3 * 10 ** 14)
    s = Storage() if cx.choose('fresh', [1, 0]) else cx.mkstate(MF, 'MultisigFactory', {})
    o = call(cx, MF, 'create', s, {'name': name, 'members': [x.jmem(w) for w in ms], 'num_confirmations': n}, 'bobby', balance=bal, deposit=dep, prepaid=gas)
    okc = And(tm(gas) >= 5 * 10 ** 13, z3.BoolVal(True))
    if not o.ok: cx.reach('rejected'); cx.prove('a request with enough gas is accepted', Not(And(okc, z3.BoolVal(len(set(ms)) > 0), tm(n) <= len(set(ms)), tm(n) > 0))); return
    cx.reach('ok'); acct = name + '.facto'
    rs = o.receipts
    cx.prove('one account is created', z3.BoolVal(len(rs) >= 1))
    init, _ = creation(cx, MF, o, acct, dep, len(rs) - 1)
    j = unJ(init['args'])
    cx.prove('members and threshold as requested', And(z3.BoolVal(set(j) == {'members', 'num_confirmations'} and j['members'] == [x.jmem(w) for w in ms]), num(j['num_confirmations']) == tm(n)))
    q = cx.call(x.c, 'new', Storage(), init['args'], predecessor=ME, signer='sammy', current=acct, balance=dep)
    good = And(tm(n) <= len(set(ms)), tm(n) <= U32)
    if not q.ok:
        cx.reach('refused'); cx.prove('the multisig refuses only an unreachable threshold', Not(good))
    else:
        cx.reach('created'); cx.prove('only a reachable threshold', good)
        v = MSG.After(cx, x, q.storage, range(3), MSG.ALL)
        cx.prove('the multisig has exactly the requested members and threshold', And(tm(v.n) == tm(n), z3.BoolVal(sorted(v.members) == sorted(set(ms)) and not v.reqs and not v.confs)))
def s_mfrefund(cx):
    x = MSG.V2(); dep = cx.u128('dep', 1, SUPPLY); bal = cx.u128('bal', 0, SUPPLY)
    o = call(cx, MF, 'create', Storage(), {'name': 'mysig', 'members': [x.jmem('k1')], 'num_confirmations': 1}, 'bobby', balance=bal, deposit=dep)
    cx.prove('accepted', z3.BoolVal(o.ok)); cx.reach('ok')
    back = z3.BoolVal(False)
    cbs = [r for r in o.receipts if text(r['to']) == ME and r['deps'] == [0]]
    if len(cbs) == 1 and cbs[0]['actions'][0]['k'] == 'call':
        cb = cbs[0]['actions'][0]; q = call(cx, MF, text(cb['method']), o.storage, cb['args'], ME, presults=[FAIL], balance=add(bal, dep))
        t = [(text(r['to']), a) for r in q.receipts for a in r['actions']] if q.ok else []
        if len(t) == 1 and t[0][0] == 'bobby' and t[0][1]['k'] == 'transfer': back = tm(t[0][1]['amount']) == tm(dep)
    cx.prove_known('a failed creation returns the deposit to its sender', back, 'MF1-no-refund', z3.BoolVal(len(o.receipts) == 1))
# ---------------------------------------------------------------- access
def s_fprivate(cx):
    c, m = cx.choose('cb', [(SF, 'on_staking_pool_create'), (LF, 'on_lockup_create')]); w = caller(cx, ME); d = cx.u128('d', 0, SUPPLY); res = cx.choose('res', [[FAIL], [okres()], [], [FAIL, FAIL]])
    s = Sf(cx, ['mypool.facto']).storage if c == SF else Lf(cx).storage
    o = call(cx, c, m, s, {'staking_pool_account_id': 'mypool.facto', 'lockup_account_id': 'x.facto', 'attached_deposit': N128(d), 'predecessor_account_id': 'bobby'}, w, presults=res, balance=d, signer=ME)
    if o.ok: cx.reach('ok'); cx.prove('only the factory itself reports an outcome, and exactly one', And(eqb(w, ME), z3.BoolVal(len(res) == 1)))
    else: cx.reach('rejected')
BD = {'names': 'concrete valid and invalid ids', 'amounts': 'any deposit, duration, fee, threshold', 'calls': 'creation, the created contract\'s real initialisation, the outcome callback, the whitelist call (up to 4)'}
@prop('P40', BD)
def P40(run):
    run.explore('create', s_sfcreate, [SF, SP, W], ['ok', 'rejected', 'failed', 'created']); run.explore('in flight', s_sfpending, [SF], ['refused', 'two', 'again']); run.explore('new', s_sfnew, [SF], ['ok'])
@prop('P41', BD)
def P41(run):
    for v in ('None', 'Hash', 'Schedule'): run.explore('create ' + v, s_lfcreate([v]), [LF, LK.C], ['ok', 'rejected', 'failed', 'created'] + (['bad schedule'] if v == 'Schedule' else []))
    run.explore('other', s_lfmisc, [LF], ['ok'])
@prop('P42', BD)
def P42(run): run.explore('create', s_mfcreate, [MF, 'multisig2'], ['ok', 'rejected', 'refused', 'created'])
@prop('P43', BD)
def P43(run):
    run.explore('callbacks', s_fprivate, [SF, LF], ['ok', 'rejected']); run.explore('multisig refund', s_mfrefund, [MF], ['ok']); run.explore('pool refund', s_sfpending, [SF], ['two'])
    run.explore('pool creation', s_sfcreate, [SF, SP, W], ['failed', 'created']); run.explore('lockup refund', s_lfcreate(['None']), [LF, LK.C], ['failed', 'created'])
