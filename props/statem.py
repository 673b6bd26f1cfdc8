"""state-manipulation: P60 (replace), P61 (clean)."""
from .common import *
C = 'state-manipulation'

def byts(cx, name, n):
    """n arbitrary bytes"""
    if n == 0: return b2a(b'')
    v = cx.int(name, 0, (1 << (8 * n)) - 1)
    return b2a(v.to_bytes(n, 'little')) if isinstance(v, int) else sym_bytes(v, n)
def pre(cx, lens):
    """arbitrary stored entries: keys and values of the given lengths, arbitrary bytes (equal keys collapse), plus two fixed ones"""
    s = Storage(); s.conc[b'STATE'] = b2a(b'state'); s.conc[b'old'] = byts(cx, 'oldv', 4)
    for i, (k, v) in enumerate(lens): s.put(byts(cx, 'pk%d' % i, k), byts(cx, 'pv%d' % i, v))
    return s
def same(x, y):
    """optional values"""
    if x is None or y is None: return z3.BoolVal(x is None and y is None)
    return eqb(x, y)
def probe(cx, lens):
    n = cx.choose('qlen', sorted(set(lens)))
    return byts(cx, 'q', n)
def equal(a, b):
    """decided equality of byte strings (forks)"""
    if len(a.data) != len(b.data): return False
    return bool(branch(mem_eq(a, 0, b, 0, len(a.data)))) if len(a.data) else True

REPL = [[], [(0, 2), (1, 1)], [(3, 2)], [(1, 0)], [(0, 3)], [(0, 0)], [(0, 0), (3, 0)], [(3, 2), (3, 5)], [(2, 1), (3, 33)]]
REPL_T = REPL + [[(3, 2), (3, 5), (3, 1)], [(5, 70)], [(40, 3)], [(3, 1), (5, 2), (3, 4)]]
def s_replace(shapes, pres):
    def scn(cx):
        sh = cx.choose('shape', shapes); s = pre(cx, cx.choose('pre', pres + [[(n, 2) for n in sorted({a for a, b in sh} - {3})]]))
        es = [(byts(cx, 'k%d' % i, a), byts(cx, 'v%d' % i, b)) for i, (a, b) in enumerate(sh)]
        o = cx.call(C, 'replace', s, {'entries': [[B64(k), B64(v)] for k, v in es]}, predecessor=cx.choose('who', ['alice', 'contract']), deposit=cx.choose('deposit', [0, 1]))
        cx.prove('well-formed input is accepted', z3.BoolVal(o.ok))
        if not o.ok: return
        cx.reach('ok')
        q = probe(cx, [3, 5] + [a for a, b in sh])
        want = s.get(q)
        for k, v in es:
            if equal(q, k): want = v; cx.reach('written')
        got = o.storage.get(q)
        cx.prove('every key holds the last value given for it, or its old value', same(got, want))
        cx.prove('no receipts, no return value, no money moves', z3.BoolVal(not o.receipts and o.ret is None))
    return scn
CLEAN = [[], [3], [1], [0], [3, 3], [3, 2]]
CLEAN_T = CLEAN + [[3, 3, 3], [5], [40], [5, 3, 3]]
def s_clean(shapes, pres):
    def scn(cx):
        sh = cx.choose('shape', shapes); s = pre(cx, cx.choose('pre', pres + [[(n, 2) for n in sorted(set(sh) - {3})]]))
        ks = [byts(cx, 'k%d' % i, a) for i, a in enumerate(sh)]
        o = cx.call(C, 'clean', s, {'keys': [B64(k) for k in ks]}, predecessor=cx.choose('who', ['alice', 'contract']), deposit=cx.choose('deposit', [0, 1]))
        cx.prove('well-formed input is accepted', z3.BoolVal(o.ok))
        if not o.ok: return
        cx.reach('ok')
        q = probe(cx, [3, 5] + sh)
        want = s.get(q)
        if want is not None: cx.reach('stored')
        for k in ks:
            if equal(q, k):
                if want is not None: cx.reach('removed')
                want = None
        cx.prove('exactly the given keys are gone, everything else is as before', same(o.storage.get(q), want))
        cx.prove('no receipts, no return value, no money moves', z3.BoolVal(not o.receipts and o.ret is None))
    return scn
ALPH = [bytes([251, 255, 254]), b'\xff\xef', b'\xfb', bytes(range(256)), b'STATE']     # base64 texts with + and /, both paddings, every alphabet character
def s_text(m):
    """the standard base64 alphabet with padding, on concrete bytes"""
    def scn(cx):
        s = pre(cx, []); k, v = cx.choose('k', ALPH), cx.choose('v', ALPH if m == 'replace' else [b'x'])
        if m == 'clean' and cx.choose('had', [1, 0]): s.put(b2a(k), byts(cx, 'pv', 2))
        o = cx.call(C, m, s, {'entries': [[B64(b2a(k)), B64(b2a(v))]]} if m == 'replace' else {'keys': [B64(b2a(k))]}, predecessor='alice')
        cx.prove('well-formed input is accepted', z3.BoolVal(o.ok))
        if not o.ok: return
        cx.reach('ok')
        for q in ALPH + [b'old']: cx.prove('every entry is as it has to be', same(o.storage.get(b2a(q)), (b2a(v) if m == 'replace' else None) if q == k else s.get(b2a(q))))
    return scn
def s_bad(m):
    def scn(cx):
        s = pre(cx, [(3, 2)]); k = byts(cx, 'k0', 3); g = B64(k)
        pair = lambda x: [x, x] if m == 'replace' else x
        f = 'entries' if m == 'replace' else 'keys'
        bad = cx.choose('bad', ['!!!!', 'Y', 'YQ==YQ==', 'YR==', 'a b=', 'nofield', 'notlist', 'number', 'empty', 'trailing'])
        x = {f: [pair(g), pair(bad)]}
        if bad in ('nofield',): x = {'other': []}
        if bad in ('notlist',): x = {f: 'YQ=='}
        if bad == 'number': x = {f: [pair(7)]}
        if bad == 'empty': x = ''
        if bad == 'trailing': x = J({f: [pair(g)]}) + 'x'
        o = cx.call(C, m, s, x, predecessor='alice')
        cx.prove('malformed input is rejected as a whole', z3.BoolVal(not o.ok)); cx.reach('rejected')
    return scn
def s_round(cx):
    """values written can be removed again; cleaning leaves exactly what replace did not touch"""
    s = pre(cx, [(3, 2)]); k, v = byts(cx, 'k0', 3), byts(cx, 'v0', 4)
    o = cx.call(C, 'replace', s, {'entries': [[B64(k), B64(v)]]}, predecessor='alice')
    cx.prove('accepted', z3.BoolVal(o.ok))
    if not o.ok: return
    o2 = cx.call(C, 'clean', o.storage, {'keys': [B64(k)]}, predecessor='alice')
    cx.prove('accepted too', z3.BoolVal(o2.ok)); cx.reach('ok')
    q = byts(cx, 'q', 3)
    cx.prove('only the key is gone', same(o2.storage.get(q), None if equal(q, k) else s.get(q)))
SB_ = {'entries per call': 'up to 2 (quick), 3 (thorough)', 'key length': '0-3 bytes (thorough up to 40), every byte value', 'value length': '0-33 bytes (thorough up to 70), every byte value', 'stored before': 'STATE, one fixed key and up to 2 arbitrary keys', 'probe': 'any key of the lengths in play'}
SA = ['base64 text of symbolic bytes is an opaque token that base64::decode maps back to exactly those bytes (the base64 crate is not part of this repository); its rejection of malformed text is executed on concrete texts']
@prop('P60', SB_, SA)
def P60(run):
    t = run.tier == 'thorough'
    run.explore('replace', s_replace(REPL_T if t else REPL, [[], [(3, 2)], [(3, 2), (3, 1)]] if t else [[], [(3, 2)]]), [C], ['ok', 'written'])
    run.explore('malformed', s_bad('replace'), [C], ['rejected']); run.explore('alphabet', s_text('replace'), [C], ['ok'])
@prop('P61', SB_, SA)
def P61(run):
    t = run.tier == 'thorough'
    run.explore('clean', s_clean(CLEAN_T if t else CLEAN, [[], [(3, 2)], [(3, 2), (3, 1)]]), [C], ['ok', 'stored', 'removed'])
    run.explore('malformed', s_bad('clean'), [C], ['rejected']); run.explore('alphabet', s_text('clean'), [C], ['ok'])
    run.explore('replace then clean', s_round, [C], ['ok'])
