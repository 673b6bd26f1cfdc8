"""Wrapped NEAR (w-near): P14 backing / exact mint and burn, P15 conservation of tokens and storage deposits, P16 metadata and views."""
from .common import *
C = 'w-near'
BYTE = 10 ** 19

class Ft:
    def __init__(self, cx, alice=None, bobby=1):
        self.cx = cx; g = lambda n, lo=0, hi=SUPPLY: cx.u128(n, lo, hi)
        self.bal = {}
        if (cx.choose('alice_reg', [0, 1]) if alice is None else alice): self.bal['alice'] = g('b_alice')
        if bobby is None and cx.choose('bobby_reg', [0, 1]) or bobby: self.bal['bobby'] = g('b_bobby')
        self.rest = g('rest'); self.total = add(self.rest, *self.bal.values())
        self.asu = cx.int('asu', 1, 10000); self.min = s_mul(self.asu, BYTE)
        self.near = g('near')
        cx.assume(tm(self.near) >= tm(self.total) + len(self.bal) * tm(self.min))     # invariant: backed, registrations paid
        self.storage = cx.mkstate(C, 'Contract', dict(ft=dict(accounts=Coll(b'a', list(self.bal.items())), total_supply=self.total, account_storage_usage=self.asu)))
    def call(self, m, pred, args=None, dep=0, **kw):
        k = dict(predecessor=pred, current='wnear', balance=self.near, deposit=dep); k.update(kw)
        return self.cx.call(C, m, self.storage, args, **k)
def after(cx, p, o):
    v = cx.state(C, o.storage, 'Contract')['ft']
    names = ('alice', 'bobby', 'zelda', 'wnear')
    b = {}
    for n in names:
        x = v['accounts'].get(n)
        if x is not None: b[n] = x
    return v, b
def check(cx, p, o, dep, bal):
    """invariants of every successful call: supply = sum of balances, NEAR held covers supply and registrations"""
    v, b = after(cx, p, o)
    cx.prove('supply is the sum of the balances', tm(v['total_supply']) == tm(p.rest) + sum([tm(x) for x in b.values()], z3.IntVal(0)))
    paid = sum([tm(a['amount']) for r in o.receipts for a in r['actions'] if a['k'] in ('transfer', 'call')], z3.IntVal(0))
    left = tm(p.near) + tm(dep) - paid
    cx.prove('every token stays backed by one NEAR held', left - tm(v['total_supply']) - len(b) * tm(p.min) >= tm(p.near) - tm(p.total) - len(p.bal) * tm(p.min))
    cx.prove('nothing but token calls and transfers', z3.BoolVal(all(a['k'] in ('transfer', 'call') for r in o.receipts for a in r['actions'])))
    cx.prove('only balances are stored', z3.BoolVal(len(o.storage.items()) == 1 + len(b)))
    cx.prove('storage price unchanged', tm(v['account_storage_usage']) == tm(p.asu))
    return v, b
def others(cx, p, b, touched):
    for n in ('alice', 'bobby', 'zelda', 'wnear'):
        if n in touched: continue
        cx.prove('other balances untouched', And(z3.BoolVal((n in b) == (n in p.bal)), tm(b.get(n, 0)) == tm(p.bal.get(n, 0))))
def sent(o):
    return [(text(r['to']), a) for r in o.receipts for a in r['actions']]

def s_deposit(cx):
    p = Ft(cx); who = cx.choose('who', ['alice', 'bobby']); d = cx.u128('dep', 0, SUPPLY)
    o = p.call('near_deposit', who, dep=d, signer='zelda')
    reg = who in p.bal
    okc = tm(d) > 0 if reg else And(tm(d) > 0, tm(d) >= tm(p.min))
    if not o.ok: cx.reach('rejected'); cx.prove('a sufficient deposit is accepted', Not(okc)); return
    cx.reach('ok new' if not reg else 'ok old')
    cx.prove('deposit positive and covering registration', okc)
    v, b = check(cx, p, o, d, None)
    mint = tm(d) if reg else tm(d) - tm(p.min)
    cx.prove('minted exactly the deposit (less a first registration)', And(tm(b.get(who, 0)) == tm(p.bal.get(who, 0)) + mint, tm(v['total_supply']) == tm(p.total) + mint))
    cx.prove('no payment', z3.BoolVal(not o.receipts)); others(cx, p, b, [who])
def s_withdraw(cx):
    p = Ft(cx); who = cx.choose('who', ['alice', 'bobby']); d = cx.u128('dep', 0, SUPPLY); amt = cx.u128('amt')
    o = p.call('near_withdraw', who, {'amount': N128(amt)}, dep=d, signer='zelda')
    reg = who in p.bal
    okc = And(tm(d) == 1, tm(amt) <= tm(p.bal[who])) if reg else z3.BoolVal(False)
    if not o.ok: cx.reach('rejected'); cx.prove('an affordable withdrawal is paid', Not(okc)); return
    cx.reach('ok'); cx.prove('only with one yocto, only what the caller has', okc)
    v, b = check(cx, p, o, d, None)
    cx.prove('burned exactly', And(z3.BoolVal(who in b), tm(b.get(who, 0)) == tm(p.bal[who]) - tm(amt), tm(v['total_supply']) == tm(p.total) - tm(amt)))
    t = sent(o)
    cx.prove('paid exactly the amount plus the attached yocto, to the caller', And(z3.BoolVal(len(t) == 1 and t[0][0] == who and t[0][1]['k'] == 'transfer'), tm(t[0][1]['amount']) == tm(amt) + 1 if t else z3.BoolVal(False)))
    others(cx, p, b, [who])
def s_roundtrip(cx):
    p = Ft(cx, alice=0); d = cx.u128('dep', 0, SUPPLY)
    o = p.call('near_deposit', 'alice', dep=d)
    if not o.ok: return
    p2 = p; near = add(p.near, d); minted = V(tm(d) - tm(p.min), 0, SUPPLY)
    o2 = cx.call(C, 'near_withdraw', o.storage, {'amount': N128(minted)}, predecessor='alice', current='wnear', balance=near, deposit=1)
    cx.reach('ok'); cx.prove('everything wrapped can be unwrapped', z3.BoolVal(o2.ok))
    cx.prove('and is paid back', tm(o2.receipts[0]['actions'][0]['amount']) == tm(minted) + 1)
def s_transfer(m):
    def scn(cx):
        p = Ft(cx, alice=1, bobby=None); to = cx.choose('to', ['bobby', 'alice']); d = cx.u128('dep', 0, SUPPLY); amt = cx.u128('amt')
        args = {'receiver_id': to, 'amount': N128(amt)}
        if m == 'ft_transfer_call': args['msg'] = 'hi'
        o = p.call(m, 'alice', args, dep=d, signer='zelda')
        okc = And(tm(d) == 1, tm(amt) > 0, tm(amt) <= tm(p.bal['alice']), z3.BoolVal(to == 'bobby' and 'bobby' in p.bal))
        if not o.ok: cx.reach('rejected'); cx.prove('a valid transfer succeeds', Not(okc)); return
        cx.reach('ok'); cx.prove('only valid transfers', okc)
        v, b = check(cx, p, o, d, None)
        cx.prove('moved exactly', And(tm(b['alice']) == tm(p.bal['alice']) - tm(amt), tm(b['bobby']) == tm(p.bal['bobby']) + tm(amt), tm(v['total_supply']) == tm(p.total)))
        others(cx, p, b, ['alice', 'bobby'])
        if m == 'ft_transfer': cx.prove('no receipts', z3.BoolVal(not o.receipts))
        else:
            t = sent(o)
            cx.prove('receiver told, then resolved', z3.BoolVal(len(t) == 2 and t[0][0] == 'bobby' and text(t[0][1]['method']) == 'ft_on_transfer' and t[1][0] == 'wnear' and text(t[1][1]['method']) == 'ft_resolve_transfer' and o.receipts[1]['deps'] == [0] and t[0][1]['amount'] == 0 and t[1][1]['amount'] == 0))
            a0, a1 = unJ(t[0][1]['args']), unJ(t[1][1]['args'])
            n = lambda x: tm(x if isinstance(x, Sym) else int(x))
            cx.prove('with the amount and parties of the transfer', And(z3.BoolVal(a0['sender_id'] == 'alice' and a0['msg'] == 'hi' and a1['sender_id'] == 'alice' and a1['receiver_id'] == 'bobby'), n(a0['amount']) == tm(amt), n(a1['amount']) == tm(amt)))
    return scn
def s_resolve(cx):
    p = Ft(cx, alice=None, bobby=None); amt = cx.u128('amt'); un = cx.u128('unused')
    k = cx.choose('res', ['ok', 'junk', 'fail'])
    res = ('ok', b2a(J(N128(un)))) if k == 'ok' else ('ok', b2a(b'"x"')) if k == 'junk' else ('fail',)
    pred = cx.choose('pred', ['wnear', 'alice'])
    o = p.call('ft_resolve_transfer', pred, {'sender_id': 'alice', 'receiver_id': 'bobby', 'amount': N128(amt)}, presults=[res])
    if not o.ok: cx.reach('rejected'); cx.prove('the callback of the token works', Not(And(z3.BoolVal(pred == 'wnear'), tm(p.bal.get('alice', 0)) + tm(p.bal.get('bobby', 0)) <= U128))); return
    cx.prove('only the token itself resolves', z3.BoolVal(pred == 'wnear'))
    v, b = check(cx, p, o, 0, None)
    unused = tm(amt) if k != 'ok' else If(tm(un) < tm(amt), tm(un), tm(amt))
    rb = tm(p.bal.get('bobby', 0)); ref = If(rb < unused, rb, unused)
    cx.prove('receiver gives back the unused part, as far as it still has it', tm(b.get('bobby', 0)) == rb - ref)
    if 'alice' in p.bal: cx.prove('sender gets it back', And(tm(b['alice']) == tm(p.bal['alice']) + ref, tm(v['total_supply']) == tm(p.total))); cx.reach('refund')
    else: cx.prove('or it is burned when the sender left', And(z3.BoolVal('alice' not in b), tm(v['total_supply']) == tm(p.total) - ref)); cx.reach('burn')
    others(cx, p, b, ['alice', 'bobby'])
def s_storage(cx):
    m = cx.choose('m', ['storage_deposit', 'storage_unregister', 'storage_withdraw']); p = Ft(cx, bobby=None); d = cx.u128('dep', 0, SUPPLY)
    if m == 'storage_deposit':
        tgt = cx.choose('tgt', [None, 'bobby']); who = tgt or 'alice'
        o = p.call(m, 'alice', {'account_id': tgt} if tgt else {}, dep=d)
        reg = who in p.bal
        if not o.ok: cx.reach('d rejected'); cx.prove('sufficient storage deposit accepted', And(z3.BoolVal(not reg), tm(d) < tm(p.min))); return
        v, b = check(cx, p, o, d, None); cx.reach('d ok')
        cx.prove('registered, nothing minted', And(z3.BoolVal(who in b), tm(b[who]) == tm(p.bal.get(who, 0)), tm(v['total_supply']) == tm(p.total)))
        cx.prove('enough was attached', Or(z3.BoolVal(reg), tm(d) >= tm(p.min)))
        back = tm(d) if reg else tm(d) - tm(p.min)
        cx.prove('the excess returns to the payer', And(sum([tm(a['amount']) for t, a in sent(o)], z3.IntVal(0)) == back, z3.BoolVal(all(t == 'alice' for t, a in sent(o)))))
        others(cx, p, b, [who])
    elif m == 'storage_unregister':
        f = cx.choose('force', [None, False, True])
        o = p.call(m, 'alice', {'force': f} if f is not None else {}, dep=d)
        reg = 'alice' in p.bal; B0 = tm(p.bal.get('alice', 0))
        if not o.ok: cx.reach('u rejected'); cx.prove('unregistering an empty account works', Not(And(tm(d) == 1, Or(z3.BoolVal(not reg or f is True), B0 == 0)))); return
        cx.prove('one yocto, empty or forced', And(tm(d) == 1, Or(z3.BoolVal(not reg or f is True), B0 == 0)))
        v, b = check(cx, p, o, d, None); cx.reach('u ok')
        cx.prove('removed and burned', And(z3.BoolVal('alice' not in b), tm(v['total_supply']) == tm(p.total) - B0))
        cx.prove('storage deposit returned', And(sum([tm(a['amount']) for t, a in sent(o)], z3.IntVal(0)) == (tm(p.min) + 1 if reg else 0), z3.BoolVal(all(t == 'alice' for t, a in sent(o)))))
        others(cx, p, b, ['alice'])
    else:
        amt = cx.u128('amt'); o = p.call(m, 'alice', {'amount': N128(amt)}, dep=d)
        if not o.ok: cx.reach('w rejected'); cx.prove('an empty storage withdrawal works', Not(And(tm(d) == 1, tm(amt) == 0, z3.BoolVal('alice' in p.bal)))); return
        v, b = check(cx, p, o, d, None); cx.reach('w ok')
        cx.prove('nothing can be withdrawn from storage', And(tm(amt) == 0, z3.BoolVal(not o.receipts), tm(v['total_supply']) == tm(p.total))); others(cx, p, b, [])
def s_wnew(cx):
    had = cx.choose('had', [0, 1]); s = Ft(cx, alice=1).storage if had else Storage()
    o = cx.call(C, 'new', s, None, predecessor='alice', current='wnear')
    cx.prove('initialized exactly once', z3.BoolVal(o.ok == (not had)))
    if not o.ok: cx.reach('rejected'); return
    cx.reach('ok'); v = cx.state(C, o.storage, 'Contract')['ft']
    cx.prove('initially no tokens', And(tm(v['total_supply']) == 0, z3.BoolVal(len(o.storage.items()) == 1), tm(v['account_storage_usage']) >= 64))
    for m in ('near_deposit', 'near_withdraw'):
        cx.prove('unusable before initialization', z3.BoolVal(not cx.call(C, m, Storage(), {'amount': '1'}, predecessor='alice', deposit=1, balance=10).ok))
def s_wviews(cx):
    p = Ft(cx)
    def v(m, args=None):
        o = p.call(m, 'alice', args, view=True); cx.prove(m + ' answers', z3.BoolVal(o.ok)); return unJ(o.ret)
    n = lambda x: tm(x if isinstance(x, Sym) else int(x))
    cx.prove('total supply view', n(v('ft_total_supply')) == tm(p.total))
    for w in ('alice', 'bobby', 'zelda'): cx.prove('balance view', n(v('ft_balance_of', {'account_id': w})) == tm(p.bal.get(w, 0)))
    cx.prove('minimum storage balance', n(v('storage_minimum_balance')) == tm(p.min))
    r = v('storage_balance_bounds'); cx.prove('bounds', And(n(r['min']) == tm(p.min), n(r['max']) == tm(p.min)))
    r = v('storage_balance_of', {'account_id': 'alice'})
    cx.prove('storage balance', z3.BoolVal(r is None) if 'alice' not in p.bal else And(n(r['total']) == tm(p.min), n(r['available']) == 0) if r else z3.BoolVal(False))
    r = v('ft_metadata'); cx.prove('metadata', z3.BoolVal(r['decimals'] == 24 and r['symbol'] == 'wNEAR' and r['spec'] == 'ft-1.0.0'))
    cx.reach('ok')
BD = {'accounts': 'two concrete accounts (registered or not), all others summarised in the supply', 'calls': '1 (inductive); deposit+withdraw for the round trip'}
def money(run):
    run.explore('near_deposit', s_deposit, [C], ['ok new', 'ok old', 'rejected'])
    run.explore('near_withdraw', s_withdraw, [C], ['ok', 'rejected'])
def moves(run):
    run.explore('ft_transfer', s_transfer('ft_transfer'), [C], ['ok', 'rejected'])
    run.explore('ft_transfer_call', s_transfer('ft_transfer_call'), [C], ['ok', 'rejected'])
    run.explore('ft_resolve_transfer', s_resolve, [C], ['rejected', 'refund', 'burn'])
    run.explore('storage', s_storage, [C], ['d ok', 'u ok', 'w ok', 'd rejected', 'u rejected', 'w rejected'])
@prop('P14', BD)
def P14(run):
    money(run); run.explore('roundtrip', s_roundtrip, [C], ['ok'])
    run.explore('new', s_wnew, [C], ['ok', 'rejected']); moves(run)
@prop('P15', BD)
def P15(run):
    moves(run); money(run); run.explore('views', s_wviews, [C], ['ok'])
