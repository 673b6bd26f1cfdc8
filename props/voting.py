"""Voting contract: P10, P11; whitelist: P12, P13."""
from .common import *
C = 'voting'; W = 'whitelist'

VOTERS = ('alice', 'bobby', 'carol', 'david', 'zelda')
class Poll:
    """symbolic poll: votes of alice and bobby (each may or may not have voted), current stakes of alice, bobby, zelda"""
    def __init__(self, cx, ended=None, voters=None):
        self.cx = cx; g = lambda n, lo=0: cx.u128(n, lo, SUPPLY)
        self.names = voters if voters is not None else cx.choose('voters', [[], ['alice'], ['alice', 'bobby'], ['alice', 'bobby', 'carol', 'david']])
        self.votes = {n: g('v_' + n, 1) for n in self.names}
        self.stake = {n: g('k_' + n) for n in VOTERS}
        self.total = g('total'); self.rest = g('rest_v')
        self.voted = add(*self.votes.values())
        self.le = cx.int('last_epoch', 0, 10 ** 12); self.epoch = cx.int('epoch', 0, 10 ** 12)
        cx.assume(tm(self.epoch) >= tm(self.le))
        self.now = cx.int('now', 0, U64)
        self.done = (cx.choose('done', [0, 1]) if ended is None else ended)
        self.when = cx.int('when', 0, U64) if self.done else None
        # validators' stakes sum up to at most the total stake; an open poll has no majority at the stakes it has seen in this epoch
        cx.assume(sum(tm(v) for v in self.stake.values()) <= tm(self.total))
        if not self.done: cx.assume(Or(tm(self.epoch) != tm(self.le), 3 * tm(self.voted) <= 2 * tm(self.total)))
        self.storage = cx.mkstate(C, 'VotingContract', dict(votes=list(self.votes.items()), total_voted_stake=self.voted, result=self.when, last_epoch_height=self.le))
    def call(self, m, pred='alice', args=None, **kw):
        k = dict(predecessor=pred, epoch=self.epoch, timestamp=self.now, validators=self.stake, validator_total=self.total); k.update(kw)
        return self.cx.call(C, m, self.storage, args, **k)
class PSt:
    def __init__(self, cx, storage):
        v = cx.state(C, storage, 'VotingContract')
        self.votes = {text(k): x for k, x in v['votes']}; self.n = len(v['votes']); self.voted = v['total_voted_stake']; self.result = v['result']; self.le = v['last_epoch_height']

def s_poll(m, what):
    def scn(cx):
        p = Poll(cx); pred = cx.choose('pred', ['alice', 'zelda'])
        yes = cx.choose('yes', [True, False]) if m == 'vote' else None
        o = p.call(m, pred, {'is_vote': yes} if m == 'vote' else None)
        new = tm(p.epoch) != tm(p.le)
        def base(n):   # recorded vote after the refresh
            v = tm(p.votes[n]) if n in p.votes else z3.IntVal(0)
            return If(new, tm(p.stake[n]), v) if n in p.votes else v
        total0 = sum([base(n) for n in p.votes], z3.IntVal(0))
        maj0 = And(new, 3 * total0 > 2 * tm(p.total))          # the refresh alone decides the poll
        if not o.ok:
            cx.reach('rejected')
            if what == 'decision': cx.prove('an open poll accepts pings and votes of validators', z3.BoolVal(True) if p.done else And(z3.BoolVal(m == 'vote' and yes is True), tm(p.stake[pred]) == 0))
            return
        cx.reach('ok'); n = PSt(cx, o.storage)
        cx.prove('a decided poll accepts nothing', z3.BoolVal(not p.done))
        if m == 'vote' and not cx.branch(maj0): mine = tm(p.stake[pred]) if yes else z3.IntVal(0)
        else: mine = base(pred)
        if m == 'vote' and yes and not cx.branch(maj0): cx.prove('only validators vote', tm(p.stake[pred]) > 0)
        if what == 'ledger':
            for x in VOTERS:
                want = mine if x == pred else base(x)
                got = tm(n.votes.get(x, 0))
                cx.prove('vote of %s is its stake' % ('the caller' if x == pred else 'another account'), got == want)
            cx.prove('total is the sum of the votes', tm(n.voted) == sum([tm(v) for v in n.votes.values()], z3.IntVal(0)))
            cx.prove('every account votes at most once', z3.BoolVal(len(n.votes) == n.n and set(n.votes) <= set(VOTERS)))
            cx.prove('epoch recorded', tm(n.le) == tm(p.epoch))
            cx.prove('votes recorded are positive', And(*[tm(v) > 0 for v in n.votes.values()]))
        else:
            totals = total0 - base(pred) + mine
            maj = 3 * totals > 2 * tm(p.total)
            checked = z3.BoolVal(True)
            if n.result is None: cx.prove('a poll without a two-thirds majority stays open', Not(maj)); cx.reach('open')
            else:
                cx.reach('decided')
                cx.prove('decided only by more than two thirds of the total stake', maj)
                cx.prove('decision time is the block time', tm(n.result) == tm(p.now))
        cx.prove('no money moves', z3.BoolVal(not o.receipts))
    return scn
def s_polltwo(cx):
    """vote then withdraw restores the ledger; voting twice counts once"""
    p = Poll(cx, ended=0, voters=cx.choose('voters', [[], ['bobby'], ['alice']])); k = cx.choose('second', [True, False])
    o = p.call('vote', 'alice', {'is_vote': True})
    if not o.ok: return
    n = PSt(cx, o.storage)
    if n.result is not None: return
    p.storage = o.storage; p.le = p.epoch
    o2 = p.call('vote', 'alice', {'is_vote': k})
    cx.reach('second %s' % k)
    cx.prove('second vote accepted', z3.BoolVal(o2.ok))
    n2 = PSt(cx, o2.storage)
    if k: cx.prove('voting twice changes nothing', And(tm(n2.voted) == tm(n.voted), z3.BoolVal(n2.result is None)))
    else: cx.prove('a withdrawn vote counts for nothing', And(tm(n2.voted) == tm(n.voted) - tm(n.votes['alice']), z3.BoolVal('alice' not in n2.votes)))
def s_votenew(cx):
    had = cx.choose('had', [0, 1]); s = Storage()
    if had: s = Poll(cx, voters=[]).storage
    o = cx.call(C, 'new', s, None, predecessor='alice')
    cx.prove('initialized exactly once', z3.BoolVal(o.ok == (not had)))
    if o.ok:
        cx.reach('ok'); n = PSt(cx, o.storage)
        cx.prove('a new poll is open and empty', And(z3.BoolVal(n.result is None and not n.votes), tm(n.voted) == 0))
    else: cx.reach('rejected')
def s_voteviews(cx):
    p = Poll(cx)
    def v(m):
        o = p.call(m, view=True); cx.prove(m + ' answers', z3.BoolVal(o.ok)); return unJ(o.ret)
    num = lambda r: tm(r if isinstance(r, Sym) else int(r))
    r = v('get_result'); cx.prove('result view', num(r) == tm(p.when) if p.done else z3.BoolVal(r is None)) if (r is not None or not p.done) else cx.fail('result view')
    r = v('get_total_voted_stake'); cx.prove('total view', And(num(r[0]) == tm(p.voted), num(r[1]) == tm(p.total)))
    r = v('get_votes'); cx.prove('votes view', And(z3.BoolVal(set(r) == set(p.votes)), *[num(r[x]) == tm(p.votes[x]) for x in p.votes if x in r]))
    cx.reach('ok')
VB = {'voters': 'up to 2 recorded votes + the caller, arbitrary stakes', 'calls': '1 (inductive), 2 for repeated votes'}
@prop('P10', VB)
def P10(run):
    run.explore('vote', s_poll('vote', 'ledger'), [C], ['ok', 'rejected']); run.explore('ping', s_poll('ping', 'ledger'), [C], ['ok', 'rejected'])
    run.explore('two votes', s_polltwo, [C], ['second True', 'second False'])
    run.explore('views', s_voteviews, [C], ['ok'])
@prop('P11', VB)
def P11(run):
    run.explore('vote', s_poll('vote', 'decision'), [C], ['open', 'decided', 'rejected']); run.explore('ping', s_poll('ping', 'decision'), [C], ['open', 'decided', 'rejected'])
    run.explore('new', s_votenew, [C], ['ok', 'rejected']); run.explore('views', s_voteviews, [C], ['ok'])

# ---------------------------------------------------------------- whitelist
WM = ['add_staking_pool', 'remove_staking_pool', 'add_factory', 'remove_factory']
class Wl:
    def __init__(self, cx, target='pool1'):
        self.cx = cx
        self.target = target
        self.pools = cx.choose('pools', [['other'], ['other', target]])
        self.facts = cx.choose('facts', [['facto'], ['facto', target]])
        self.storage = cx.mkstate(W, 'WhitelistContract', dict(foundation_account_id='found', whitelist=Coll(b'w', self.pools), factory_whitelist=Coll(b'f', self.facts)))
def sets(cx, s, names):
    v = cx.state(W, s, 'WhitelistContract')
    return ({n for n in names if v['whitelist'].get(n)}, {n for n in names if v['factory_whitelist'].get(n)}, v)
def s_wl(m, what):
    arg = 'staking_pool_account_id' if 'pool' in m else 'factory_account_id'
    def scn(cx):
        t = cx.choose('target', ['pool1', 'facto', 'found', 'BAD'])
        w = Wl(cx, t if t != 'BAD' else 'pool1')
        who = caller(cx, 'found', 'facto') if what == 'access' else cx.choose('who', ['found', 'facto'])
        o = cx.call(W, m, w.storage, {arg: t}, predecessor=who, signer='found' if what == 'access' else 'alice', current='white')
        isf = eqb(who, 'found'); isfac = Or(*[eqb(who, f) for f in w.facts])
        allowed = Or(isf, isfac) if m == 'add_staking_pool' else isf
        if not o.ok:
            cx.reach('rejected'); cx.prove('authorized calls on valid accounts succeed', Or(Not(allowed), z3.BoolVal(t == 'BAD'))); return
        cx.reach('ok'); cx.prove('only authorized callers, only valid accounts', And(allowed, z3.BoolVal(t != 'BAD')))
        names = ['other', 'facto', 'found', 'pool1', 'white', 'alice']
        a, b, v = sets(cx, o.storage, names)
        P, F = set(w.pools), set(w.facts)
        was = t in (P if 'pool' in m else F)
        if m == 'add_staking_pool': P = P | {t}
        if m == 'remove_staking_pool': P = P - {t}
        if m == 'add_factory': F = F | {t}
        if m == 'remove_factory': F = F - {t}
        cx.prove('exactly the requested membership changes', z3.BoolVal(a == P and b == F))
        cx.prove('nothing else is stored', z3.BoolVal(len(o.storage.items()) == 1 + len(P) + len(F)))
        cx.prove('the answer tells whether it changed', z3.BoolVal(unJ(o.ret) is (was if m.startswith('remove') else not was)))
        cx.prove('the foundation account never changes', eqb(v['foundation_account_id'], 'found'))
        cx.prove('no receipts', z3.BoolVal(not o.receipts))
    return scn
def s_wlviews(cx):
    t = cx.choose('target', ['pool1', 'other', 'facto', 'BAD']); w = Wl(cx, t if t not in ('BAD',) else 'pool1')
    for m, arg, st_ in (('is_whitelisted', 'staking_pool_account_id', w.pools), ('is_factory_whitelisted', 'factory_account_id', w.facts)):
        o = cx.call(W, m, w.storage, {arg: t}, view=True)
        cx.prove(m + ' answers valid ids only', z3.BoolVal(o.ok == (t != 'BAD')))
        if o.ok: cx.prove(m + ' reports membership', z3.BoolVal(unJ(o.ret) is (t in st_))); cx.reach('ok')
def s_wlnew(cx):
    had = cx.choose('had', [0, 1]); f = cx.choose('f', ['found', 'BAD'])
    s = Wl(cx).storage if had else Storage()
    o = cx.call(W, 'new', s, {'foundation_account_id': f}, predecessor='alice')
    cx.prove('initialized once with a valid foundation', z3.BoolVal(o.ok == (not had and f == 'found')))
    if o.ok:
        cx.reach('ok'); v = cx.state(W, o.storage, 'WhitelistContract'); cx.prove('initial', And(eqb(v['foundation_account_id'], 'found'), z3.BoolVal(len(o.storage.items()) == 1)))
    for m in WM + ['is_whitelisted']:
        o = cx.call(W, m, Storage(), {'staking_pool_account_id': 'pool1', 'factory_account_id': 'pool1'}, predecessor='found')
        cx.prove('not usable before initialization', z3.BoolVal(not o.ok))
@prop('P12', {'caller': 'any 5-letter account id (symbolic)', 'calls': '1'})
def P12(run):
    for m in WM: run.explore(m, s_wl(m, 'access'), [W], ['ok', 'rejected'])
    run.explore('new', s_wlnew, [W], ['ok'])
@prop('P13', {'stored members': 'up to 2 per list', 'calls': '1'})
def P13(run):
    for m in WM: run.explore(m, s_wl(m, 'members'), [W], ['ok'])
    run.explore('views', s_wlviews, [W], ['ok'])
