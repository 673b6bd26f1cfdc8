"""Multisig contracts: multisig P20-P23, multisig2 P24-P27 (same scenarios; members are keys in the first, keys or accounts in the second)."""
from .common import *
import base64
COOL = 900 * 10 ** 9
ME = 'msig'
OUTSIDE = ['zelda'] + similar('msig')
U32 = (1 << 32) - 1
def b58(b):
    al = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'; n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = al[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s
KEY = {k: b'\0' + bytes([i + 1]) * 32 for i, k in enumerate(['k1', 'k2', 'k3', 'k4', 'kx'])}
PK = {k: 'ed25519:' + b58(v[1:]) for k, v in KEY.items()}
NAMEOF = {v: k for k, v in KEY.items()}

class V1:
    c = 'multisig'; who = ['k1', 'k2', 'k3']; stranger = None; v = 1
    methods = None
    def ident(s, w): return KEY[w]
    def name(s, x): return NAMEOF.get(bytes(to_alloc(x).data), '?')
    def member(s, x): return s.name(x)
    def ctx(s, w): return dict(predecessor=ME, signer=ME, signer_pk=KEY[w], current=ME)
class V2:
    c = 'multisig2'; who = ['k1', 'alice', 'k2']; stranger = 'zelda'; v = 2
    methods = b'add_request,delete_request,confirm,add_request_and_confirm'
    def ident(s, w): return json.dumps({'public_key': PK[w]} if w in KEY else {'account_id': w}, separators=(',', ':'))
    def mem(s, w): return ('AccessKey', {'public_key': {'data': KEY[w]}}) if w in KEY else ('Account', {'account_id': {'0': w} if 0 else w})
    def jmem(s, w): return {'public_key': PK[w]} if w in KEY else {'account_id': w}
    def name(s, x):
        j = json.loads(text(x)); return j['account_id'] if 'account_id' in j else {v: k for k, v in PK.items()}.get(j['public_key'], '?')
    def member(s, m):
        if m[0] == 'Account': return text(m[1]['account_id'])
        pk = m[1]['public_key']; pk = pk['data'] if isinstance(pk, dict) else pk
        return NAMEOF.get(bytes(to_alloc(pk).data), '?')
    def ctx(s, w):
        if w in KEY: return dict(predecessor=ME, signer=ME, signer_pk=KEY[w], current=ME)
        return dict(predecessor=w, signer="sammy", signer_pk=KEY['kx'], current=ME)

# ---- actions: (kind, fields)
def borsh_action(x, a):
    k, f = a
    pkb = (lambda n: {'data': KEY[n]} if x.v == 2 else {'0': KEY[n]} if 0 else KEY[n])
    if k == 'Transfer': return (k, {'amount': f[0]})
    if k == 'CreateAccount': return (k, {})
    if k == 'DeployContract': return (k, {'code': f[0]})
    if k == 'AddKey': return (k, {'public_key': pkb(f[0]), 'permission': None if f[1] is None else dict(allowance=f[1][0], receiver_id=f[1][1], method_names=f[1][2])})
    if k == 'DeleteKey': return (k, {'public_key': pkb(f[0])})
    if k in ('AddMember', 'DeleteMember'): return (k, {'member': x.mem(f[0])})
    if k == 'FunctionCall': return (k, dict(method_name=f[0], args=f[1], deposit=f[2], gas=f[3]))
    if k == 'SetNumConfirmations': return (k, {'num_confirmations': f[0]})
    if k == 'SetActiveRequestsLimit': return (k, {'active_requests_limit': f[0]})
def json_action(x, a):
    k, f = a
    d = {'type': k}
    b64 = lambda b: base64.b64encode(b).decode()
    if k == 'Transfer': d['amount'] = N128(f[0])
    elif k == 'DeployContract': d['code'] = b64(f[0])
    elif k == 'AddKey':
        d['public_key'] = PK[f[0]]
        if f[1] is not None:
            d['permission'] = dict(allowance=None if f[1][0] is None else N128(f[1][0]), receiver_id=f[1][1], method_names=f[1][2])
    elif k == 'DeleteKey': d['public_key'] = PK[f[0]]
    elif k in ('AddMember', 'DeleteMember'): d['member'] = x.jmem(f[0])
    elif k == 'FunctionCall': d.update(method_name=f[0], args=b64(f[1]), deposit=N128(f[2]), gas=N128(f[3]))
    elif k == 'SetNumConfirmations': d['num_confirmations'] = f[0]
    elif k == 'SetActiveRequestsLimit': d['active_requests_limit'] = f[0]
    return d
def expected(x, a):
    """receipt action the request action stands for (None: none)"""
    k, f = a
    if k == 'Transfer': return dict(k='transfer', amount=f[0])
    if k == 'CreateAccount': return dict(k='create')
    if k == 'DeployContract': return dict(k='deploy', code=f[0])
    if k == 'AddKey':
        if f[1] is None: return dict(k='addkey', key=KEY[f[0]], nonce=0, full=True)
        return dict(k='addkey', key=KEY[f[0]], nonce=0, full=False, allowance=f[1][0] or 0, receiver=f[1][1], methods=','.join(f[1][2]))
    if k == 'DeleteKey': return dict(k='delkey', key=KEY[f[0]])
    if k == 'DeleteMember': return dict(k='delkey', key=KEY[f[0]]) if f[0] in KEY else None
    if k == 'AddMember': return dict(k='addkey', key=KEY[f[0]], nonce=0, full=False, allowance=0, receiver=ME, methods=x.methods) if f[0] in KEY else None
    if k == 'FunctionCall': return dict(k='call', method=f[0], args=f[1], amount=f[2], gas=f[3])
    return None
SELF_ONLY = {'AddKey', 'DeleteKey', 'AddMember', 'DeleteMember', 'SetNumConfirmations', 'SetActiveRequestsLimit'}
SINGLE = {'SetNumConfirmations', 'SetActiveRequestsLimit'}
def same(a, b):
    if isinstance(b, (str, bytes, Alloc)): return eqb(a, b)
    if isinstance(b, bool): return z3.BoolVal(a is b)
    return tm(a) == tm(b)
def actions_eq(got, want):
    if len(got) != len(want): return z3.BoolVal(False)
    cs = []
    for g, w in zip(got, want):
        if set(g) != set(w) or g['k'] != w['k']: return z3.BoolVal(False)
        cs += [same(g[f], w[f]) for f in w if f != 'k']
    return And(*cs) if cs else z3.BoolVal(True)
def val_eq(a, b):
    """decoded borsh values equal"""
    if isinstance(b, tuple) and isinstance(a, tuple): return And(z3.BoolVal(a[0] == b[0]), val_eq(a[1], b[1]))
    if isinstance(a, dict) and not isinstance(b, dict) and len(a) == 1: return val_eq(list(a.values())[0], b)
    if isinstance(b, dict) and not isinstance(a, dict) and len(b) == 1: return val_eq(a, list(b.values())[0])
    if isinstance(b, dict): return And(z3.BoolVal(isinstance(a, dict) and set(a) == set(b)), *[val_eq(a[k], b[k]) for k in b if isinstance(a, dict) and k in a])
    if b is None or a is None: return z3.BoolVal(a is None and b is None)
    if isinstance(b, list): return And(z3.BoolVal(len(a) == len(b)), *[val_eq(x, y) for x, y in zip(a, b)])
    if isinstance(b, (str, bytes, Alloc)): return eqb(a, b)
    return tm(a) == tm(b)

def num(r): return tm(r if isinstance(r, Sym) else int(r))
class Req:
    def __init__(s, rid, receiver, actions, by, ts, confs): s.id, s.receiver, s.actions, s.by, s.ts, s.confs = rid, receiver, actions, by, ts, list(confs)
class MS:
    """symbolic pre-state. reqs are all active requests; per member the recorded count is their number plus a symbolic excess (the requests not materialised)."""
    def __init__(s, cx, x, reqs, n=None, nonce=9, members=None, counted=None):
        s.cx = cx; s.x = x; s.reqs = reqs; s.nonce = nonce
        s.n = cx.int('n', 0, U32) if n is None else n
        s.limit = cx.int('limit', 0, U32)
        s.now = cx.int('now', 0, U64)
        s.members = members if members is not None else list(x.who)
        s.count = {}
        for w in (counted if counted is not None else x.who):
            k = sum(1 for r in reqs if r.by == w)
            s.count[w] = add(cx.int('cnt_' + w, 0, 1000), k)
        for r in reqs:
            if r.by not in s.count: s.count[r.by] = 1
        breq = lambda r: dict(request=dict(receiver_id=r.receiver, actions=[borsh_action(x, a) for a in r.actions]), added_timestamp=r.ts, **({'signer_pk': KEY[r.by]} if x.v == 1 else {'member': x.mem(r.by)}))
        P = (b'r', b'c', b'k') if x.v == 1 else (b'\x01', b'\x02', b'\x03')
        st_ = dict(num_confirmations=s.n, request_nonce=nonce, requests=Coll(P[0], [(r.id, breq(r)) for r in reqs]),
                   confirmations=Coll(P[1], [(r.id, sorted([x.ident(w) for w in r.confs])) for r in reqs]),
                   num_requests_pk=Coll(P[2], [(x.ident(w), c) for w, c in s.count.items()]), active_requests_limit=s.limit)
        if x.v == 2: st_['members'] = Coll(b'\x00', [x.mem(w) for w in s.members])
        s.breq = breq
        s.storage = cx.mkstate(x.c, 'MultiSigContract', st_)
    def call(s, m, who, args=None, **kw):
        k = dict(s.x.ctx(who)); k.update(dict(timestamp=s.now, balance=10 ** 35)); k.update(kw)
        return s.cx.call(s.x.c, m, s.storage, args, **k)
class After:
    def __init__(s, cx, x, storage, ids, whos):
        v = cx.state(x.c, storage, 'MultiSigContract'); s.v = v
        s.n = v['num_confirmations']; s.limit = v['active_requests_limit']; s.nonce = v['request_nonce']
        s.reqs = {idx(k): r for k, r in v['requests'].items}
        if x.v == 1:
            s.confs = {idx(k): [x.name(m) for m in r] for k, r in v['confirmations'].items}
            s.count = {x.name(k): c for k, c in v['num_requests_pk'].items}
            s.members = None
        else:
            s.confs = {}
            for i in ids:
                r = v['confirmations'].get(i)
                if r is not None: s.confs[i] = [x.name(m) for m in r]
            s.count = {}
            for w in whos:
                c = v['num_requests_pk'].get(x.ident(w))
                if c is not None: s.count[w] = c
            s.members = [x.member(m) for m in v['members'].items]
        # total number of storage entries the collections may use
        n = len(s.reqs)
        s.expected_entries = 1 + 3 * n + (3 * len(s.confs) + 3 * len(s.count) if x.v == 1 else len(s.confs) + len(s.count) + 2 * len(s.members))
        s.by = {}
        for i, r in s.reqs.items(): s.by[i] = x.name(r['signer_pk']) if x.v == 1 else x.member(r['member'])

def wellformed(cx, p, n, o):
    cx.prove('requests and confirmations match, members confirm at most once', z3.BoolVal(set(n.reqs) == set(n.confs) and all(len(set(c)) == len(c) for c in n.confs.values())))
    cx.prove('nothing else is stored', z3.BoolVal(len(o.storage.items()) == n.expected_entries))
    if p.x.v == 2: cx.prove('confirmations come from current members', z3.BoolVal(all(w in n.members for c in n.confs.values() for w in c)))
def unchanged(cx, p, n, skip=()):
    """requests not in skip untouched"""
    for r in p.reqs:
        if r.id in skip: continue
        cx.prove('other requests untouched', And(z3.BoolVal(r.id in n.reqs and sorted(n.confs.get(r.id, [])) == sorted(r.confs)), val_eq(n.reqs.get(r.id), p.breq(r))))
def params(cx, p, n):
    cx.prove('rules unchanged', And(tm(n.n) == tm(p.n), tm(n.limit) == tm(p.limit)))
    if p.x.v == 2: cx.prove('members unchanged', z3.BoolVal(sorted(n.members) == sorted(p.members)))
def counts(cx, p, n, delta):
    for w in p.x.who:
        d = delta.get(w, 0); c = tm(p.count.get(w, 0))
        cx.prove('active request counts exact', tm(n.count.get(w, 0)) == If(c + d < 0, 0, c + d))
ALL = ['k1', 'k2', 'k3', 'k4', 'kx', 'alice', 'bobby', 'zelda']

# ---- k of n
def s_confirm(x):
    def scn(cx):
        amt = cx.u128('amt', 0, SUPPLY); ts = cx.int('ts', 0, U64)
        a, b, c = x.who
        confs = cx.choose('confs', [[], [a], [b, a], [a, b, c]] if cx.run.tier == 'quick' else [[], [a], [b], [c], [a, b], [b, c], [a, c], [a, b, c]])
        acts = cx.choose('acts', [[('Transfer', [amt])], []])
        p = MS(cx, x, [Req(2, 'bobby', acts, a, ts, confs), Req(5, 'alice', [('CreateAccount', [])], b, 77, [b])])
        rid = cx.choose('rid', [2, 4])
        who = cx.choose('who', x.who + ([x.stranger] if x.stranger else []))
        outside = cx.choose('outside', [0] + OUTSIDE) if who in KEY else 0
        kw = dict(predecessor=outside) if outside else {}
        o = p.call('confirm', who, {'request_id': rid}, **kw)
        member = who in x.who and not outside
        can = member and rid == 2 and who not in confs
        if not o.ok: cx.reach('rejected'); cx.prove('a member can confirm an active request once', z3.BoolVal(not can)); return
        cx.prove('only members, only active requests, each member once', z3.BoolVal(can))
        if not can: return
        n = After(cx, x, o.storage, range(12), ALL); wellformed(cx, p, n, o); params(cx, p, n)
        cx.prove('request number unchanged', tm(n.nonce) == p.nonce)
        if cx.branch(len(confs) + 1 >= tm(p.n)):
            cx.reach('executed')
            cx.prove('executed exactly', And(z3.BoolVal(len(o.receipts) == 1 and o.receipts[0]['deps'] == []), eqb(o.receipts[0]['to'], 'bobby'), actions_eq(o.receipts[0]['actions'], [expected(x, y) for y in acts])) if o.receipts else z3.BoolVal(False))
            cx.prove('an executed request is gone', z3.BoolVal(2 not in n.reqs and 2 not in n.confs))
            unchanged(cx, p, n, [2]); counts(cx, p, n, {a: -1})
        else:
            cx.reach('recorded')
            cx.prove('nothing is executed below the threshold', z3.BoolVal(not o.receipts and getattr(o.host, 'ret_promise', None) is None))
            p.reqs[0].confs = confs + [who]
            unchanged(cx, p, n); counts(cx, p, n, {})
            cx.prove('answers true', z3.BoolVal(unJ(o.ret) is True))
    return scn
def s_twice(x):
    """an executed request cannot be executed or confirmed again; two different members are needed when k = 2"""
    def scn(cx):
        amt = cx.u128('amt', 0, SUPPLY); a, b, c = x.who
        p = MS(cx, x, [Req(2, 'bobby', [('Transfer', [amt])], a, 0, [])], n=cx.choose('n', [1, 2, 3]))
        w1, w2, w3 = cx.choose('w1', x.who), cx.choose('w2', x.who), cx.choose('w3', x.who)
        paid = 0; okn = set()
        for w in (w1, w2, w3):
            o = p.call('confirm', w, {'request_id': 2})
            if o.ok: okn.add(w); p.storage = o.storage; paid += len(o.receipts)
            else: cx.prove('rejected only when gone or repeated', z3.BoolVal(paid > 0 or w in okn))
            cx.prove('paid exactly when enough members confirmed, once', z3.BoolVal(paid == (1 if len(okn) >= p.n else 0)))
        cx.reach('paid %d' % paid)
    return scn
def s_addconfirm(x):
    """add_request_and_confirm: counts one confirmation"""
    def scn(cx):
        amt = cx.u128('amt', 0, SUPPLY); a = cx.choose('who', [x.who[0], x.who[1]])
        p = MS(cx, x, [])
        o = p.call('add_request_and_confirm', a, {'request': {'receiver_id': 'bobby', 'actions': [json_action(x, ('Transfer', [amt]))]}})
        room = tm(p.count[a]) + 1 <= tm(p.limit)
        if not o.ok: cx.reach('rejected'); cx.prove('accepted below the limit', Not(room)); return
        cx.prove('limit respected', room)
        n = After(cx, x, o.storage, range(12), ALL); wellformed(cx, p, n, o); params(cx, p, n)
        cx.prove('number returned', And(z3.BoolVal(unJ(o.ret) == 9), tm(n.nonce) == 10))
        acts = [y for r in o.receipts for y in r['actions']]
        if cx.branch(tm(p.n) <= 1):
            cx.reach('executed')
            cx.prove('executed at once when one confirmation suffices', And(z3.BoolVal(len(o.receipts) == 1), actions_eq(acts, [dict(k='transfer', amount=amt)]), z3.BoolVal(not n.reqs))); counts(cx, p, n, {})
        else:
            cx.reach('stored'); cx.prove('stored with one confirmation, nothing executed', z3.BoolVal(not acts and not o.receipts and n.confs.get(9) == [a])); counts(cx, p, n, {a: 1})
    return scn
# ---- exact execution
def action_cases(cx, x):
    a, b, c = x.who
    A = cx.u128('a1'); G = cx.int('gas', 0, U64); D = cx.u128('dep1')
    L = cx.u128('allow', 0)
    sn = cx.int('newn', 0, U32)
    T = ('Transfer', [A]); FC = ('FunctionCall', ['doit', b'{"x":1}', D, G]); F0 = ('FunctionCall', ['init', b'', D, G])
    L1 = [[T], [('CreateAccount', [])], [('DeployContract', [b'\0asm1'])], [('DeployContract', [b''])], [FC], [('CreateAccount', []), T, ('DeployContract', [b'code']), FC], [FC, T, F0], [],
          [('AddKey', ['k4', None])], [('AddKey', ['k4', (L, 'bobby', ['m1', 'm2'])])], [('AddKey', ['k4', (None, ME, ['confirm'])])], [('AddKey', ['k4', (L, ME, [])])],
          [('SetNumConfirmations', [sn])], [('SetActiveRequestsLimit', [sn])], [T, ('SetNumConfirmations', [sn])], [('SetActiveRequestsLimit', [sn]), T]]
    if x.v == 1: L1 += [[('DeleteKey', ['k2'])], [('DeleteKey', ['k4'])], [T, ('DeleteKey', ['k3'])], [('DeleteKey', ['k1'])], [('DeleteKey', ['k2']), ('DeleteKey', ['k3'])]]
    else: L1 += [[('AddMember', ['k4'])], [('AddMember', ['bobby'])], [('AddMember', ['alice'])], [('DeleteMember', ['k2'])], [('DeleteMember', ['alice'])], [T, ('AddMember', ['k4']), ('DeleteMember', ['k2'])], [('DeleteMember', ['k2']), ('DeleteMember', ['alice'])]]
    return L1
def s_execute(x, lo, hi):
    def scn(cx):
        cases = action_cases(cx, x)[lo:hi]
        acts = cx.choose('case', cases)
        recv = cx.choose('recv', ['bobby', ME])
        a, b, c = x.who
        confs = cx.choose('confs', [[b], [b, c]] if acts and acts[-1][0] in ('DeleteMember', 'SetNumConfirmations', 'DeleteKey') else [[b]])
        k = cx.int('n', 0, len(confs) + 1)
        p = MS(cx, x, [Req(2, recv, acts, a, 0, confs)], n=k)
        who = a
        o = p.call('confirm', who, {'request_id': 2})
        kinds = {y[0] for y in acts}
        dels = [y[1][0] for y in acts if y[0] == 'DeleteMember']; adds = [y[1][0] for y in acts if y[0] == 'AddMember']
        newset = (set(p.members) | set(adds)) - set(dels)
        ok = (not kinds & SELF_ONLY or recv == ME) and (not kinds & SINGLE or len(acts) == 1)
        valid = z3.BoolVal(ok)
        spend = sum([tm(y[1][0]) for y in acts if y[0] == 'Transfer'] + [tm(y[1][2]) for y in acts if y[0] == 'FunctionCall'], z3.IntVal(0))
        if x.v == 2 and 'SetNumConfirmations' in kinds: valid = And(valid, tm(acts[0][1][0]) <= len(p.members)) if ok else z3.BoolVal(False)
        if x.v == 2 and dels: valid = And(valid, len(newset) >= tm(k))
        valid = And(valid, spend <= 10 ** 35)
        if not o.ok: cx.reach('rejected'); cx.prove('valid requests execute', Not(valid)); return
        cx.prove('account management only on the own account, rule changes alone', valid)
        cx.reach('ok')
        n = After(cx, x, o.storage, range(12), ALL); wellformed(cx, p, n, o)
        want = [e for e in (expected(x, y) for y in acts) if e is not None]
        if kinds & SINGLE: cx.prove('a rule change sends nothing', z3.BoolVal(not [1 for r in o.receipts for _ in r['actions']]))
        else:
            rs = o.receipts
            cx.prove('one receipt to the receiver with exactly the requested actions', And(z3.BoolVal(len(rs) == 1 and rs[0]['deps'] == []), eqb(rs[0]['to'], recv), actions_eq(rs[0]['actions'], want)) if rs else z3.BoolVal(False))
            cx.prove('its outcome is the answer', z3.BoolVal(getattr(o.host, 'ret_promise', None) == [0]))
        nn, nl = tm(p.n), tm(p.limit)
        if kinds == {'SetNumConfirmations'}: nn = tm(acts[0][1][0])
        if kinds == {'SetActiveRequestsLimit'}: nl = tm(acts[0][1][0])
        cx.prove('rules change exactly as requested', And(tm(n.n) == nn, tm(n.limit) == nl, tm(n.nonce) == p.nonce))
        cx.prove('the request is gone', z3.BoolVal(not n.reqs and not n.confs))
        if x.v == 2: cx.prove('members change exactly as requested', z3.BoolVal(len(n.members) == len(newset) and set(n.members) == newset))
        if not dels and 'DeleteKey' not in kinds: counts(cx, p, n, {a: -1})
    return scn
def s_e2e(x, lo, hi):
    """what was submitted is what is executed: add_request_and_confirm, or add_request followed by confirm, with threshold 1"""
    def scn(cx):
        acts = cx.choose('case', action_cases(cx, x)[lo:hi]); recv = cx.choose('recv', ['bobby', ME])
        a, b, c = x.who
        p = MS(cx, x, [], n=1); cx.assume(tm(p.count[a]) < tm(p.limit))
        kinds = {y[0] for y in acts}
        ok = (not kinds & SELF_ONLY or recv == ME) and (not kinds & SINGLE or len(acts) == 1)
        valid = z3.BoolVal(ok)
        spend = sum([tm(y[1][0]) for y in acts if y[0] == 'Transfer'] + [tm(y[1][2]) for y in acts if y[0] == 'FunctionCall'], z3.IntVal(0))
        if x.v == 2 and 'SetNumConfirmations' in kinds: valid = And(valid, tm(acts[0][1][0]) <= len(p.members)) if ok else z3.BoolVal(False)
        valid = And(valid, spend <= 10 ** 35)
        two = cx.choose('two', [0, 1])
        o = p.call('add_request' if two else 'add_request_and_confirm', a, {'request': {'receiver_id': recv, 'actions': [json_action(x, y) for y in acts]}})
        if two:
            if not o.ok: cx.prove('submission accepted', z3.BoolVal(False)); return
            cx.prove('nothing executed by submission', z3.BoolVal(not o.receipts)); p.storage = o.storage
            o = p.call('confirm', b, {'request_id': 9})
        if not o.ok: cx.reach('rejected'); cx.prove('valid requests execute', Not(valid)); return
        cx.reach('ok'); cx.prove('account management only on the own account, rule changes alone', valid)
        n = After(cx, x, o.storage, range(12), ALL)
        want = [e for e in (expected(x, y) for y in acts) if e is not None]
        rs = [q for q in o.receipts if q['actions'] or not kinds & SINGLE]
        if kinds & SINGLE: cx.prove('a rule change sends nothing', z3.BoolVal(not rs))
        else: cx.prove('one receipt to the receiver with exactly the submitted actions', And(z3.BoolVal(len(rs) == 1), eqb(rs[0]['to'], recv), actions_eq(rs[0]['actions'], want)) if rs else z3.BoolVal(False))
        cx.prove('the request is gone', z3.BoolVal(not n.reqs and not n.confs))
        if kinds == {'SetNumConfirmations'}: cx.prove('threshold as submitted', tm(n.n) == tm(acts[0][1][0]))
        if kinds == {'SetActiveRequestsLimit'}: cx.prove('limit as submitted', tm(n.limit) == tm(acts[0][1][0]))
    return scn
def s_remove(x):
    """removing a member's key also drops its requests and its confirmations"""
    def scn(cx):
        a, b, c = x.who
        dead = cx.choose('dead', [b, c, a])
        conf = cx.choose('conf', [[], [dead], [dead, a] if dead != a else [a, b]])
        by = cx.choose('by', [a, b, c])
        by0 = cx.choose('by0', [a, dead])
        act = ('DeleteKey' if x.v == 1 else 'DeleteMember', [dead])
        n0 = cx.int('n', 0, 2)
        which = cx.choose('others', [3, 7, 6] if by != dead else [7, 3])
        rq = [Req(3, 'bobby', [('CreateAccount', [])], by, 5, conf)] if which & 1 else []
        rq.append(Req(2, ME, [act], by0, 0, [c if dead != c else b]))
        if which & 4: rq.append(Req(4, 'alice', [('Transfer', [7])], dead, 6, []))
        p = MS(cx, x, rq, n=n0)
        exe = a
        o = p.call('confirm', exe, {'request_id': 2})
        if not o.ok: cx.reach('rejected'); cx.prove('removal works while enough members remain', z3.BoolVal(False) if x.v == 1 else tm(n0) > 2); return
        cx.reach('ok'); n = After(cx, x, o.storage, range(12), ALL)
        cx.prove('requests of the removed member are gone, others stay', z3.BoolVal(set(n.reqs) == ({3} if by != dead and which & 1 else set()) and set(n.confs) == set(n.reqs)))
        cx.prove('its request count is forgotten', z3.BoolVal(dead not in n.count))
        if by != dead and which & 1:
            cx.prove('remaining requests keep their content', val_eq(n.reqs.get(3), p.breq(p.reqs[0])))
            cx.prove('a removed member\'s confirmation no longer counts', z3.BoolVal(sorted(n.confs.get(3, [])) == sorted([w for w in conf if w != dead])))
        wellformed(cx, p, n, o)
        for w in x.who:
            if w == dead: continue
            d = -1 if w == by0 else 0
            cx.prove('counts of the others exact', tm(n.count[w]) == tm(p.count[w]) + d)
        if x.v == 2:
            cx.prove('members', z3.BoolVal(sorted(n.members) == sorted(w for w in x.who if w != dead)))
            p.storage = o.storage; cx.assume(1 < tm(p.limit))
            m, args = cx.choose('then', [('confirm', {'request_id': 3}), ('delete_request', {'request_id': 3}), ('add_request', {'request': {'receiver_id': 'bobby', 'actions': [json_action(x, ('CreateAccount', []))]}}), ('add_request_and_confirm', {'request': {'receiver_id': 'bobby', 'actions': [json_action(x, ('CreateAccount', []))]}})])
            q = p.call(m, dead, args); cx.prove('a removed member cannot act', z3.BoolVal(not q.ok))
    return scn
# ---- adding and deleting requests
def s_add(x, lo, hi):
    def scn(cx):
        acts = cx.choose('case', action_cases(cx, x)[lo:hi]); recv = cx.choose('recv', ['bobby', ME])
        a, b, c = x.who
        nonce = cx.choose('nonce', [9, U32])
        old = cx.choose('old', [0, 1])
        who = cx.choose('who', ([a, c] if lo == 0 else [c]) + ([x.stranger] if x.stranger else []))
        outside = cx.choose('outside', [0] + (OUTSIDE if lo == 0 and len(acts) == 0 else OUTSIDE[:1])) if who in KEY else 0
        p = MS(cx, x, [Req(2, 'bobby', [('CreateAccount', [])], b, 5, [c])] if old else [], nonce=nonce, counted=None if old else [b, c] if who == a else [a, b])
        o = p.call('add_request', who, {'request': {'receiver_id': recv, 'actions': [json_action(x, y) for y in acts]}}, **(dict(predecessor=outside) if outside else {}))
        room = And(tm(p.count.get(who, 0)) + 1 <= tm(p.limit), z3.BoolVal(who in x.who and not outside and nonce < U32))
        if not o.ok: cx.reach('rejected'); cx.prove('members below their limit can add requests', Not(room)); return
        cx.reach('ok'); cx.prove('only members below their limit add requests', room)
        n = After(cx, x, o.storage, [2, 9, 10], ALL); wellformed(cx, p, n, o); params(cx, p, n)
        cx.prove('fresh number', And(z3.BoolVal(unJ(o.ret) == nonce), tm(n.nonce) == nonce + 1))
        r = Req(nonce, recv, acts, who, p.now, [])
        cx.prove('stored exactly as submitted, unconfirmed', And(z3.BoolVal(n.confs.get(nonce) == []), val_eq(n.reqs.get(nonce), p.breq(r))))
        unchanged(cx, p, n); counts(cx, p, n, {who: 1})
        cx.prove('adding executes nothing', z3.BoolVal(not o.receipts))
    return scn
def s_delete(x):
    def scn(cx):
        a, b, c = x.who; ts = cx.int('ts', 0, U64)
        p = MS(cx, x, [Req(2, 'bobby', [('Transfer', [5])], a, ts, [b]), Req(5, 'alice', [('CreateAccount', [])], b, 77, [b])])
        rid = cx.choose('rid', [2, 3]); who = cx.choose('who', x.who + ([x.stranger] if x.stranger else []))
        outside = cx.choose('outside', [0] + OUTSIDE) if who in KEY else 0
        o = p.call('delete_request', who, {'request_id': rid}, **(dict(predecessor=outside) if outside else {}))
        can = And(z3.BoolVal(rid == 2 and who in x.who and not outside), tm(p.now) > tm(ts) + COOL)
        if not o.ok: cx.reach('rejected'); cx.prove('members can delete requests after the cooldown', Not(can)); return
        cx.reach('ok'); cx.prove('only members, only after the cooldown', can)
        n = After(cx, x, o.storage, range(12), ALL); wellformed(cx, p, n, o); params(cx, p, n)
        cx.prove('exactly that request is gone', z3.BoolVal(set(n.reqs) == {5})); unchanged(cx, p, n, [2]); counts(cx, p, n, {a: -1})
        cx.prove('deleting executes nothing', And(z3.BoolVal(not o.receipts), tm(n.nonce) == p.nonce))
    return scn
def s_msviews(x):
    def scn(cx):
        a, b, c = x.who; amt = cx.u128('amt', 0, SUPPLY)
        p = MS(cx, x, [Req(2, 'bobby', [('Transfer', [amt])], a, 3, [b]), Req(5, 'alice', [('CreateAccount', [])], b, 77, [b, c])])
        def v(m, args=None):
            o = p.call(m, a, args, view=True); cx.prove(m + ' answers', z3.BoolVal(o.ok)); return unJ(o.ret)
        r = v('get_request', {'request_id': 2}); cx.prove('request view', And(z3.BoolVal(r['receiver_id'] == 'bobby' and len(r['actions']) == 1 and r['actions'][0]['type'] == 'Transfer'), num(r['actions'][0]['amount']) == tm(amt)))
        cx.prove('request ids', z3.BoolVal(sorted(v('list_request_ids')) == [2, 5]))
        want = [PK[w] for w in (b, c)] if x.v == 1 else [x.ident(w) for w in (b, c)]
        cx.prove('confirmations view', z3.BoolVal(sorted(v('get_confirmations', {'request_id': 5})) == sorted(want)))
        cx.prove('threshold view', tm(v('get_num_confirmations')) == tm(p.n)); cx.prove('nonce view', z3.BoolVal(v('get_request_nonce') == 9))
        r = v('get_num_requests_pk', {'public_key': PK[a]}) if x.v == 1 else v('get_num_requests_per_member', {'member': x.jmem(a)})
        cx.prove('count view', tm(r) == tm(p.count[a]))
        if x.v == 2:
            r = v('get_members'); cx.prove('members view', z3.BoolVal(sorted(map(str, r)) == sorted(str(x.jmem(w)) for w in x.who)))
        cx.reach('ok')
    return scn
def s_msnew(x):
    def scn(cx):
        had = cx.choose('had', [0, 1]); n = cx.int('k', 0, U32)
        s = MS(cx, x, []).storage if had else Storage()
        ms = cx.choose('ms', [['k1'], ['k1', 'alice', 'k2'], ['alice', 'alice'], ['k1', 'alice', 'k1']]) if x.v == 2 else None
        args = {'num_confirmations': n}
        if ms: args['members'] = [x.jmem(w) for w in ms]
        o = cx.call(x.c, 'new', s, args, predecessor=ME, signer=ME, current=ME)
        okc = z3.BoolVal(not had) if x.v == 1 else And(z3.BoolVal(not had), tm(n) <= len(set(ms)))
        if not o.ok: cx.reach('rejected'); cx.prove('valid initialization works', Not(okc)); return
        cx.reach('ok'); cx.prove('initialized once, with enough distinct members', okc)
        v = After(cx, x, o.storage, range(3), ALL)
        cx.prove('initial state', And(tm(v.n) == tm(n), tm(v.limit) == 12, tm(v.nonce) == 0, z3.BoolVal(not v.reqs and not v.confs and not v.count and len(o.storage.items()) == v.expected_entries)))
        if x.v == 2:
            cx.prove('members as given', z3.BoolVal(sorted(v.members) == sorted(set(ms))))
            acts = [y for r in o.receipts for y in r['actions']]
            cx.prove('each member key gets exactly a restricted key of this account', And(z3.BoolVal(all(text(r['to']) == ME for r in o.receipts)), actions_eq(acts, [expected(x, ('AddMember', [w])) for w in ms if w in KEY])))
        else: cx.prove('no receipts', z3.BoolVal(not o.receipts))
        for m in ('confirm', 'delete_request'):
            q = cx.call(x.c, m, Storage(), {'request_id': 0}, **x.ctx('k1')); cx.prove('unusable before initialization', z3.BoolVal(not q.ok))
    return scn
BD = {'members': '3 members (v2: two keys and an account) and a stranger', 'requests': 'up to 3 active requests, any request counts', 'actions': 'each kind alone and selected bundles of up to 4', 'calls': '1 (3 for repeated confirmations)'}
def mk(pid, x, scns):
    @prop(pid, BD)
    def f(run):
        for name, fn, lab in scns: run.explore(name, fn, [x.c], lab)
for x, b in ((V1(), 20), (V2(), 24)):
    nc = 21 if x.v == 1 else 23
    mk('P%d' % b, x, [('confirm', s_confirm(x), ['executed', 'recorded', 'rejected']), ('repeated', s_twice(x), ['paid 0', 'paid 1']), ('add and confirm', s_addconfirm(x), ['executed', 'stored', 'rejected'])])
    mk('P%d' % (b + 1), x, [('plain actions', s_execute(x, 0, 8), ['ok', 'rejected']), ('management', s_execute(x, 8, nc), ['ok', 'rejected']), ('submit and execute', s_e2e(x, 0, nc), ['ok', 'rejected'])])
    mk('P%d' % (b + 2), x, [('removal', s_remove(x), ['ok'] + (['rejected'] if 0 else []))])
    mk('P%d' % (b + 3), x, [('add', s_add(x, 0, 8), ['ok', 'rejected']), ('add management', s_add(x, 8, nc), ['ok', 'rejected']), ('delete', s_delete(x), ['ok', 'rejected']), ('views', s_msviews(x), ['ok']), ('new', s_msnew(x), ['ok'])])
