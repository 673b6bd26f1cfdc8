"""Translation of one dumped MIR function into Python source (done on first call)."""
import struct
from .engine import *
from . import engine as E_
from .mem import *

# ------------------------------------------------------------------ runtime helpers used by generated code
def ldfp(a, o):
    return (ldp(a, o), ld(a, o + 4, 4))
def stfp(a, o, v):
    st(a, o, 4, v[0]); st(a, o + 4, 4, v[1])
def ccp(a, o, n):
    x = Alloc(n); cp(a, o, x, 0, n); return x
def sweq(v, val):
    if v.__class__ is Neq: 
        if val == 0: return False
        raise Unsupported('switch on unordered comparison')
    return branch(s_eq(num(v), val))
def niche_discr(tag, ns, nstart, nend, untag, n, dvals):
    """decode a niche-encoded discriminant"""
    c = tag.__class__
    if c is Ptr:
        if tag.a is not None: return dvals[untag]
        tag = tag.o
    elif c is FnPtr: return dvals[untag]
    m = M[n]
    if tag.__class__ is int:
        r = (tag - ns) & m
        if r <= nend - nstart: return dvals[nstart + r]
        return dvals[untag]
    for i in range(nend - nstart + 1):
        if branch(s_eq(tag, (ns + i) & m)): return dvals[nstart + i]
    return dvals[untag]
def dir_discr(tag, tn, signed, dn):
    return cast_int(tag, tn, signed, dn)
def dynoff(meta, fo):
    al = ld(meta.a, meta.o + 8, 4)
    return (fo + al - 1) // al * al
def chk(v, expected):
    """condition of an assert terminator"""
    if v.__class__ is int: return (v != 0) == expected
    b = bt(v)
    return branch(b if expected else z3.Not(b))
def panic(msg):
    raise PathEnd('panic', msg)
def unreachable(w):
    raise Unsupported('unreachable code reached in ' + w)
def rep_store(a, o, cnt, sz, v, k):
    if k == 'u' and v.__class__ is int:
        if a.rel: clear(a, o, cnt * sz)
        a.data[o:o + cnt * sz] = v.to_bytes(sz, 'little') * cnt
        return
    if v is None: return
    for i in range(cnt):
        if k == 'fp': stfp(a, o + i * sz, v)
        elif k == 'a': cp(v, 0, a, o + i * sz, sz)
        else: st(a, o + i * sz, sz, v)
def vcall(prog, vt, idx):
    f = ld(vt.a, vt.o + 4 * idx, 4)
    return prog.FT[f.f]
def pcall(prog, f):
    if f.__class__ is not FnPtr: raise Unsupported('call of non-function pointer')
    return prog.FT[f.f]
def dropdyn(prog, p, vt):
    f = ld(vt.a, vt.o, 4)
    if f.__class__ is FnPtr: prog.FT[f.f](p)
def nz(v):
    return v
def f2i(v, n, dn, dsigned):
    x = struct.unpack('<d' if n == 8 else '<f', v.to_bytes(n, 'little'))[0]
    if x != x: return 0
    lo, hi = (-(1 << (8 * dn - 1)), (1 << (8 * dn - 1)) - 1) if dsigned else (0, M[dn])
    if x in (float('inf'), float('-inf')): return (hi if x > 0 else lo) & M[dn]
    return max(lo, min(hi, int(x))) & M[dn]
def i2f(v, n, s, dn):
    if v.__class__ is not int: raise Unsupported('symbolic to float')
    return int.from_bytes(struct.pack('<d' if dn == 8 else '<f', float(sgn(v, n) if s else v)), 'little')

NS = {k: v for k, v in globals().items() if not k.startswith('__')}

class PL:
    __slots__ = ('k', 'v', 'a', 'o', 'od', 't', 'meta', 'var', 'reuse')
    def __init__(self, k, **kw):
        self.k = k; self.v = None; self.a = None; self.o = 0; self.od = []; self.meta = None; self.var = None; self.reuse = None
        for x, y in kw.items(): setattr(self, x, y)
    def off(self):
        if not self.od: return str(self.o)
        s = '+'.join(self.od)
        return s if self.o == 0 else '%s+%d' % (s, self.o)

def compile_fn(prog, fid):
    F = prog.F_(fid)
    from .hooks import find_hook
    h = find_hook(prog, fid, F)
    if h is not None: return h
    if 'bb' not in F:
        if F.get('ctor'): return make_ctor(prog, fid, F)
        name = F['n']
        def nobody(*a): raise Unsupported('no body: ' + name)
        return nobody
    prog.executed.add(fid)
    return Gen(prog, fid, F).build()

def make_ctor(prog, fid, F):
    """tuple-struct / tuple-variant constructor used as a function: synthesise its body"""
    rt = F['rt']; at = F['at']
    d = prog.T_(rt)
    v = 0
    if d['k'] == 'enum':
        nm = F['dp'].split('::')[-1]
        v = [i for i, x in enumerate(d['v']) if x['n'] == nm][0]
    G = dict(F)
    G['l'] = [rt] + at; G['ac'] = len(at); G['sp'] = None
    G['bb'] = [[[['=', [0], ['agg', ['adt', v], [['m', [i + 1]] for i in range(len(at))]]]], ['ret']]]
    return Gen(prog, fid, G).build()

class Gen:
    def __init__(self, prog, fid, F):
        self.p = prog; self.fid = fid; self.F = F
        self.L = F['l']; self.ac = F['ac']; self.bbs = F['bb']
        self.out = []; self.nt = 0
        self.consts = {}
        self.ns = dict(NS); self.ns['prog'] = prog; self.ns['FT'] = prog.FT
    # ---------------- analysis
    def analyse(self):
        p = self.p
        taken = set(); ckbad = set(); 
        def place_use(pl, ref=False):
            if ref:
                for e in pl[1:]:
                    if e[0] == 'd': return
                taken.add(pl[0])
        def seeplace(pl):
            # indexing / subslice of a local array requires memory; arrays are memory anyway
            if len(pl) == 2 and pl[1][0] == 'f': return
            ckbad.add(pl[0])
        def seeop(o):
            if o[0] in ('c', 'm'): seeplace(o[1])
        for ss, t in self.bbs:
            for s in ss:
                if s[0] == '=':
                    rv = s[2]
                    if not (rv[0] == 'cbin' and len(s[1]) == 1): ckbad.add(s[1][0])
                    k = rv[0]
                    if k == 'use': seeop(rv[1])
                    elif k == 'ref': place_use(rv[1], True); ckbad.add(rv[1][0])
                    elif k == 'agg':
                        for o in rv[2]: seeop(o)
                    elif k in ('bin', 'cbin'): seeop(rv[2]); seeop(rv[3])
                    elif k == 'un': seeop(rv[2])
                    elif k == 'cast': seeop(rv[2])
                    elif k in ('discr', 'len'): ckbad.add(rv[1][0])
                    elif k == 'rep': seeop(rv[1])
                elif s[0] == 'sd': ckbad.add(s[1][0])
                elif s[0] == 'cno':
                    for o in s[1:4]: seeop(o)
            k = t[0]
            if k == 'drop': place_use(t[1], True); ckbad.add(t[1][0])
            elif k == 'sw': seeop(t[1])
            elif k == 'assert': seeop(t[1])
            elif k == 'call':
                if t[1][0] == 'ptr': seeop(t[1][1])
                for o, ty in t[2]: seeop(o)
                ckbad.add(t[3][0])
        self.taken = taken
        self.cls = []
        sp = self.F['sp']
        for i, t in enumerate(self.L):
            kd = p.kind(t)
            if kd[0] == 'z': c = 'z'
            elif kd[0] in ('u', 'p', 'fp') and i not in taken: c = 'r'
            elif kd[0] == 'uns': c = 'uns'
            else: c = 'm'
            if c == 'm' and i > self.ac and i not in ckbad and i not in taken:
                d = p.T_(t)
                if d['k'] == 'tuple' and len(d['f']) == 2 and all(p.kind(x)[0] == 'u' for x in d['f']): c = 'c'
            self.cls.append(c)
    # ---------------- output helpers
    def emit(self, s): self.out.append(' ' * self.ind + s)
    def tmp(self):
        self.nt += 1; return 't%d' % self.nt
    def bake(self, obj):
        n = 'K%d' % len(self.consts); self.consts[n] = obj; self.ns[n] = obj; return n
    # ---------------- places
    def place(self, pl):
        p = self.p
        i = pl[0]; t = self.L[i]
        c = self.cls[i]
        v = '_%d' % i
        if c == 'r': cur = PL('r', v=v, t=t)
        elif c == 'z': cur = PL('z', t=t)
        elif c == 'c':
            if len(pl) == 2: return PL('r', v='%s%s' % (v, 'ab'[pl[1][1]]), t=pl[1][2])
            raise Unsupported('whole use of checked pair')
        elif c == 'uns': raise Unsupported('unsized local')
        else: cur = PL('m', a=v, t=t)
        for e in pl[1:]:
            k = e[0]
            if k == 'd':
                d = p.T_(cur.t)
                if d['k'] in ('ref', 'ptr'): et = d['e']
                elif d['k'] == 'pat': et = p.T_(d['e'])['e']
                elif d.get('box'): et = d['ta'][0]
                else: raise Unsupported('deref of ' + d['n'])
                fat = p.kind(cur.t)[0] in ('fp', 'a')
                if cur.k == 'r': pv = cur.v
                elif cur.k == 'm':
                    pv = self.tmp()
                    self.emit('%s = %s(%s, %s)' % (pv, 'ldfp' if fat else 'ldp', cur.a, cur.off()))
                else: raise Unsupported('deref of zst')
                if fat:
                    q = self.tmp(); self.emit('%s = %s[0]' % (q, pv))
                    cur = PL('m', a=q + '.a', od=[q + '.o'], t=et, meta=pv + '[1]', reuse=pv)
                else:
                    cur = PL('m', a=pv + '.a', od=[pv + '.o'], t=et, reuse=pv)
            elif k == 'v': cur = PL(cur.k, v=cur.v, a=cur.a, o=cur.o, od=cur.od, t=cur.t, meta=cur.meta, var=e[1], reuse=None)
            elif k == 'f':
                ft = e[2]; kd = p.kind(ft)
                if cur.k == 'r':
                    cur = PL('z', t=ft) if kd[0] == 'z' else PL('r', v=cur.v, t=ft)
                elif cur.k == 'z': cur = PL('z', t=ft)
                else:
                    d = p.T_(cur.t)
                    if cur.var is not None and 'vo' in d: fo = d['vo'][cur.var][e[1]]
                    elif 'fo' in d: 
                        fo = d['fo'][e[1]]
                    else: raise Unsupported('field offset of ' + d['n'])
                    n = PL('m', a=cur.a, o=cur.o, od=list(cur.od), t=ft)
                    if kd[0] == 'uns':
                        n.meta = cur.meta
                        tail = p.T_(ft)
                        while tail['k'] == 'struct': tail = p.T_(tail['v'][0]['f'][-1][1])
                        if tail['k'] == 'dyn': n.od.append('dynoff(%s,%d)' % (cur.meta, fo))
                        else: n.o += fo
                    else: n.o += fo
                    cur = n
            elif k in ('i', 'c', 's'):
                d = p.T_(cur.t)
                et = p.T_(p.T_(cur.t).get('e')) if False else d.get('e')
                if d['k'] == 'str': raise Unsupported('index str')
                es = p.size(et)
                if cur.k == 'z': cur = PL('z', t=et); continue
                if cur.k == 'r': raise Unsupported('index of register')
                n = PL('m', a=cur.a, o=cur.o, od=list(cur.od), t=et)
                ln = str(d['cnt']) if d['k'] == 'array' else cur.meta
                if k == 'i':
                    iv = '_%d' % e[1]
                    if self.cls[e[1]] == 'm': iv = self.tmp(); self.emit('%s = ld(_%d, 0, 4)' % (iv, e[1]))
                    x = self.tmp(); self.emit('%s = %s if %s.__class__ is int else idx(%s)' % (x, iv, iv, iv))
                    if es: n.od.append('%s*%d' % (x, es) if es != 1 else x)
                elif k == 'c':
                    if e[3]: n.od.append('(%s-%d)*%d' % (ln, e[1], es))
                    else: n.o += e[1] * es
                else:
                    n.o += e[1] * es
                    if d['k'] == 'array':
                        raise Unsupported('array subslice')
                    n.t = cur.t
                    n.meta = '(%s-%d)' % (ln, e[1] + e[2]) if e[3] else str(e[2] - e[1])
                cur = n
            elif k == 'o': cur.t = e[1]
            else: raise Unsupported('projection ' + k)
        return cur
    def ptype(self, pl):
        p = self.p; t = self.L[pl[0]]
        for e in pl[1:]:
            if e[0] == 'd':
                d = p.T_(t)
                t = d['e'] if d['k'] in ('ref', 'ptr') else p.T_(d['e'])['e'] if d['k'] == 'pat' else d['ta'][0]
            elif e[0] == 'f': t = e[2]
            elif e[0] in ('i', 'c'): t = p.T_(t)['e']
            elif e[0] == 'o': t = e[1]
        return t
    def optype(self, o):
        if o[0] in ('c', 'm'): return self.ptype(o[1])
        if o[0] in ('k', 'z', 'K', '?'): return o[1]
        return None
    def load(self, P):
        """register expression of a non-aggregate place"""
        kd = self.p.kind(P.t)
        if kd[0] == 'z': return 'None'
        if P.k == 'r': return P.v
        if kd[0] == 'u': return 'ld(%s, %s, %d)' % (P.a, P.off(), kd[1])
        if kd[0] == 'p': return 'ldp(%s, %s)' % (P.a, P.off())
        if kd[0] == 'fp': return 'ldfp(%s, %s)' % (P.a, P.off())
        raise Unsupported('load aggregate')
    def store(self, P, e, kd=None):
        kd = kd or self.p.kind(P.t)
        if kd[0] == 'z': return
        if P.k == 'r': self.emit('%s = %s' % (P.v, e)); return
        if P.k == 'z': return
        if kd[0] == 'u': self.emit('st(%s, %s, %d, %s)' % (P.a, P.off(), kd[1], e))
        elif kd[0] == 'p': self.emit('st(%s, %s, 4, %s)' % (P.a, P.off(), e))
        elif kd[0] == 'fp': self.emit('stfp(%s, %s, %s)' % (P.a, P.off(), e))
        elif kd[0] == 'a': self.emit('cp(%s, 0, %s, %s, %d)' % (e, P.a, P.off(), kd[1]))
        else: raise Unsupported('store unsized')
    # ---------------- operands
    def const_alloc(self, o):
        if o[0] == 'k':
            a = Alloc(self.p.size(o[1])); a.data[:] = o[2].to_bytes(len(a.data), 'little')
        else:
            d = o[2]; a = Alloc(len(d['b']) // 2); self.p.fill(a, d)
        return a
    def ev(self, o):
        """expression of an operand with register kind (or None)"""
        k = o[0]
        if k == 'z': return 'None'
        if k == 'rc': return '1' if 'Overflow' in o[1] else '0'
        if k in ('k', 'K'):
            kd = self.p.kind(o[1])
            if kd[0] == 'z': return 'None'
            if kd[0] == 'u':
                if k == 'k': return str(o[2])
                a = self.const_alloc(o); v = ld(a, 0, kd[1])
                return str(v) if v.__class__ is int else self.bake(v)
            if kd[0] == 'p':
                if k == 'k': return self.bake(Ptr(None, o[2]))
                return self.bake(ldp(self.const_alloc(o), 0))
            if kd[0] == 'fp': return self.bake(ldfp(self.const_alloc(o), 0))
            if kd[0] == 'a': return self.bake(self.const_alloc(o))
            raise Unsupported('const kind')
        if k == '?': raise Unsupported('const ' + str(o))
        P = self.place(o[1])
        return self.load(P)
    def atom(self, o):
        e = self.ev(o)
        if e.isidentifier() or e.isdigit(): return e
        x = self.tmp(); self.emit('%s = %s' % (x, e)); return x
    def src(self, o):
        """(alloc expr, offset expr) of an aggregate operand"""
        if o[0] in ('k', 'K'): return self.bake(self.const_alloc(o)), '0'
        P = self.place(o[1])
        if P.k != 'm': raise Unsupported('aggregate in register')
        return P.a, P.off()
    def arg(self, o, t):
        kd = self.p.kind(t)
        if kd[0] == 'z':
            return 'None'
        if kd[0] != 'a': return self.ev(o)
        if o[0] in ('k', 'K'): return '%s.clone()' % self.bake(self.const_alloc(o))
        if o[0] == 'm' and len(o[1]) == 1: return '_%d' % o[1][0]
        a, of = self.src(o)
        return 'ccp(%s, %s, %d)' % (a, of, kd[1])
    def put_op(self, P, o, t):
        """store operand o of type t at place P"""
        kd = self.p.kind(t)
        if kd[0] == 'z': return
        if kd[0] == 'a':
            a, of = self.src(o)
            self.emit('cp(%s, %s, %s, %s, %d)' % (a, of, P.a, P.off(), kd[1]))
        else: self.store(P, self.ev(o), kd)
    # ---------------- enum helpers
    def tagval(self, d, v):
        """(offset, size, kind, value) to store for variant v, or None"""
        if 'tag' not in d: return None
        tk, tn = d['tag'][0], d['tag'][1]
        if 'niche' in d:
            un, s, e, ns = d['niche']
            if v == un: return None
            val = (ns + v - s) & M[tn]
        else: val = d['v'][v]['d'] & M[tn]
        return d['tago'], tn, tk, val
    def set_discr(self, P, v):
        d = self.p.T_(P.t)
        tv = self.tagval(d, v)
        if tv is None: return
        o, n, k, val = tv
        if P.k == 'r': self.emit('%s = %s' % (P.v, val if k != 'p' else self.bake(Ptr(None, val)))); return
        if P.k == 'z': return
        Q = PL('m', a=P.a, o=P.o + o, od=P.od, t=P.t)
        self.emit('st(%s, %s, %d, %d)' % (Q.a, Q.off(), n, val))
    def discr(self, P, dt):
        d = self.p.T_(P.t); p = self.p
        dn = p.size(dt)
        m = M[dn]
        if d['k'] != 'enum': return '0'
        if 'tag' not in d:
            sv = d.get('sv', 0)
            return str((d['v'][sv]['d'] if d['v'] else 0) & m)
        tn = d['tag'][1]
        if P.k == 'r': tag = P.v
        else:
            Q = PL('m', a=P.a, o=P.o + d['tago'], od=P.od)
            tag = 'ld(%s, %s, %d)' % (Q.a, Q.off(), tn)
        if 'niche' in d:
            un, s, e, ns = d['niche']
            dv = self.bake([x['d'] & m for x in d['v']])
            return 'niche_discr(%s, %d, %d, %d, %d, %d, %s)' % (tag, ns, s, e, un, tn, dv)
        if tn == dn: return tag
        sg = d['tag'][0] == 'i'
        if not sg: return tag
        return 'dir_discr(%s, %d, %s, %d)' % (tag, tn, sg, dn)
    # ---------------- rvalues
    def assign(self, pl, rv):
        p = self.p
        k = rv[0]
        if self.cls[pl[0]] == 'c':
            if k != 'cbin': raise Unsupported('checked pair assign')
            e = self.cbin(rv)
            self.emit('_%da, _%db = %s' % (pl[0], pl[0], e)); return
        D = self.place(pl)
        kd = p.kind(D.t)
        if k == 'use':
            self.put_op(D, rv[1], D.t)
        elif k == 'ref': 
            self.store(D, self.refexpr(self.place(rv[1])), kd)
        elif k == 'agg': self.agg(D, kd, rv[1], rv[2])
        elif k == 'bin':
            self.store(D, self.binop(rv), kd)
        elif k == 'cbin':
            x = self.tmp(); self.emit('%s = %s' % (x, self.cbin(rv)))
            f = p.fields(D.t)
            for i in (0, 1):
                self.store(PL('m', a=D.a, o=D.o + f[i][0], od=D.od, t=f[i][1]), '%s[%d]' % (x, i))
        elif k == 'un':
            a = self.ev(rv[2]); t = rv[3]; td = p.T_(t)
            if rv[1] == 'Not': e = 'op_not(%s, %d, %s)' % (a, p.size(t), td['k'] == 'bool')
            elif rv[1] == 'Neg':
                e = 'op_neg(%s, %d)' % (a, p.size(t)) if td['k'] != 'float' else '(%s ^ %d)' % (a, 1 << (8 * p.size(t) - 1))
            else: 
                sk = p.kind(t)
                if sk[0] == 'fp': e = '%s[1]' % a
                else: e = 'None'
            self.store(D, e, kd)
        elif k == 'cast': self.cast(D, kd, rv)
        elif k == 'discr': self.store(D, self.discr(self.place(rv[1]), D.t), kd)
        elif k == 'len':
            S = self.place(rv[1]); d = p.T_(S.t)
            self.store(D, str(d['cnt']) if d['k'] == 'array' else S.meta, kd)
        elif k == 'rep':
            if kd[0] == 'z' or rv[2] == 0: return
            et = p.T_(D.t)['e']; ek = p.kind(et)
            if ek[0] == 'a':
                a, of = self.src(rv[1]); v = 'ccp(%s, %s, %d)' % (a, of, ek[1])
            else: v = self.ev(rv[1])
            self.emit('rep_store(%s, %s, %d, %d, %s, %r)' % (D.a, D.off(), rv[2], p.size(et), v, ek[0]))
        else: raise Unsupported('rvalue ' + k)
    def refexpr(self, P):
        if P.k == 'z': return self.bake(Ptr(None, 16))
        if P.k == 'r': raise Unsupported('ref of register')
        if P.reuse and P.o == 0 and len(P.od) == 1:
            return P.reuse
        e = 'Ptr(%s, %s)' % (P.a, P.off())
        if self.p.kind(P.t)[0] == 'uns': 
            return '(%s, %s)' % (e, P.meta)
        return e
    def agg(self, D, kd, ak, ops):
        p = self.p
        if kd[0] == 'z': return
        d = p.T_(D.t)
        if ak[0] == 'rp':
            a = self.ev(ops[0])
            if kd[0] == 'fp':
                b = self.ev(ops[1]); self.store(D, '(%s, %s)' % (a, b), kd)
            else: self.store(D, a, kd)
            return
        tys = [self.optype(o) for o in ops]
        if ak[0] == 'arr':
            es = p.size(d['e'])
            # constant arrays of ints
            for i, o in enumerate(ops):
                self.put_op(PL('m', a=D.a, o=D.o + i * es, od=D.od, t=d['e']), o, d['e'])
            return
        v = None
        if ak[0] == 'adt': v = ak[1]
        if ak[0] == 'un': fo = [d['fo'][ak[1]]] if 'fo' in d else [0]
        elif d['k'] == 'enum' and 'vo' in d: fo = d['vo'][v]
        else: fo = d.get('fo', [0] * len(ops))
        if ak[0] == 'un': tys = [d['v'][0]['f'][ak[1]][1]]
        elif d['k'] in ('struct', 'enum'): tys = [x[1] for x in d['v'][v or 0]['f']]
        elif d['k'] == 'tuple': tys = d['f']
        if D.k == 'r':
            done = False
            for o, t in zip(ops, tys):
                if p.kind(t)[0] != 'z':
                    if p.kind(t)[0] == 'a': raise Unsupported('aggregate in register agg')
                    self.store(D, self.ev(o), kd); done = True
            if d['k'] == 'enum': self.set_discr(D, v)
            return
        for o, t, f in zip(ops, tys, fo):
            self.put_op(PL('m', a=D.a, o=D.o + f, od=D.od, t=t), o, t)
        if d['k'] == 'enum': self.set_discr(D, v)
    def binop(self, rv):
        p = self.p
        _, op, a, b, ta, tb = rv
        x = self.atom(a); y = self.atom(b)
        td = p.T_(ta); n = td.get('sz', 8); sg = p.signed(ta)
        if td['k'] == 'float': return self.fbin(op, x, y, n)
        if op in ('Add', 'AddUnchecked'): return 'w_add(%s, %s, %d, %s)' % (x, y, n, sg)
        if op in ('Sub', 'SubUnchecked'): return 'w_sub(%s, %s, %d, %s)' % (x, y, n, sg)
        if op in ('Mul', 'MulUnchecked'): return 'w_mul(%s, %s, %d, %s)' % (x, y, n, sg)
        if op == 'Div': return 'op_div(%s, %s, %d, %s)' % (x, y, n, sg)
        if op == 'Rem': return 'op_rem(%s, %s, %d, %s)' % (x, y, n, sg)
        if op == 'BitAnd': return 'op_and(%s, %s, %d)' % (x, y, n)
        if op == 'BitOr': return 'op_or(%s, %s, %d)' % (x, y, n)
        if op == 'BitXor': return 'op_xor(%s, %s, %d)' % (x, y, n)
        if op in ('Shl', 'ShlUnchecked'): return 'op_shl(%s, %s, %d, %s)' % (x, y, n, sg)
        if op in ('Shr', 'ShrUnchecked'): return 'op_shr(%s, %s, %d, %s)' % (x, y, n, sg)
        if op == 'Offset': return 'op_offset(%s, %s, %d)' % (x, y, p.T_(td['e']).get('sz', 0))
        if op == 'Cmp': return 'op_3way(%s, %s, %d, %s)' % (x, y, n, sg)
        py = {'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}.get(op)
        if py:
            if p.kind(ta)[0] == 'z': return '1' if op in ('Eq', 'Le', 'Ge') else '0'
            full = 'op_cmp(%r, %s, %s, %d, %s)' % (op, x, y, n, sg)
            if p.kind(ta)[0] == 'u' and (not sg or op in ('Eq', 'Ne')):
                conds = ['%s.__class__ is int' % z for z in (x, y) if not z.isdigit()]
                if not conds: return full
                return '((1 if %s %s %s else 0) if %s else %s)' % (x, py, y, ' and '.join(conds), full)
            return full
        raise Unsupported('binop ' + op)
    def fbin(self, op, x, y, n): return 'fbin(%r, %s, %s, %d)' % (op, x, y, n)
    def cbin(self, rv):
        p = self.p
        _, op, a, b, ta, tb = rv
        x = self.atom(a); y = self.atom(b)
        td = p.T_(ta); n = td['sz']; sg = p.signed(ta)
        f = {'Add': 'op_add', 'Sub': 'op_sub', 'Mul': 'op_mul', 'AddWithOverflow': 'op_add', 'SubWithOverflow': 'op_sub', 'MulWithOverflow': 'op_mul'}[op]
        return '%s(%s, %s, %d, %s, True)' % (f, x, y, n, sg)
    def cast(self, D, kd, rv):
        p = self.p
        _, ck, o, sty, dty, extra = rv
        sk = p.kind(sty)
        if kd[0] == 'z': return
        if ck in ('reify', 'closurefn'):
            f = extra if ck == 'reify' else p.thunk(extra)
            self.store(D, self.bake(FnPtr(f)), kd); return
        if ck == 'unsize':
            if extra[0] == 'keep':
                self.put_op(D, o, sty); return
            if extra[0] == 'len': meta = str(extra[1])
            elif extra[0] == 'vt': meta = self.bake(Ptr(p.valloc(extra[1]), 0))
            else: raise Unsupported('unsize')
            if sk[0] == 'p':
                v = self.ev(o)
                if kd[0] == 'fp': self.store(D, '(%s, %s)' % (v, meta), kd)
                else: self.emit('stfp(%s, %s, (%s, %s))' % (D.a, D.off(), v, meta))
                return
            raise Unsupported('unsize of kind %s' % (sk,))
        if ck == 'IntToInt':
            v = self.ev(o); sn = p.size(sty); dn = p.size(dty); sg = p.signed(sty)
            if sn == dn or (dn > sn and not sg): self.store(D, v, kd)
            else: self.store(D, 'cast_int(%s, %d, %s, %d)' % (v, sn, sg, dn), kd)
            return
        if ck in ('FloatToInt', 'IntToFloat', 'FloatToFloat'):
            v = self.ev(o); sn = p.size(sty); dn = p.size(dty)
            if ck == 'IntToFloat': self.store(D, 'i2f(%s, %d, %s, %d)' % (v, sn, p.signed(sty), dn), kd)
            elif ck == 'FloatToInt': self.store(D, 'f2i(%s, %d, %d, %s)' % (v, sn, dn, p.signed(dty)), kd)
            else: self.store(D, 'f2f(%s, %d, %d)' % (v, sn, dn), kd)
            return
        # pointer casts, transmute
        if sk[0] == 'fp' and kd[0] == 'p': self.store(D, '%s[0]' % self.atom(o), kd); return
        if sk[0] == 'z': return
        if sk[0] == 'a' and kd[0] == 'a': self.put_op(D, o, sty); return
        if sk[0] == 'a':
            a, of = self.src(o)
            Q = PL('m', a=a, od=[of], t=dty)
            self.store(D, self.load(Q), kd); return
        v = self.ev(o)
        if kd[0] == 'a':
            if D.k != 'm': raise Unsupported('transmute into register')
            self.store(D, v, sk); return
        if kd[0] == 'p' and sk[0] == 'u': v = 'to_ptr(%s)' % v
        if sk[0] == 'fp' and kd[0] == 'u': raise Unsupported('transmute fp to int')
        if sk[0] == 'u' and kd[0] == 'fp': raise Unsupported('transmute int to fp')
        self.store(D, v, kd)
    # ---------------- terminators / control flow
    def succs(self, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'sw': return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]] if False else [t[3]]
        return []
    def goto(self, b, depth):
        if self.preds[b] == 1 and b != 0 and depth < 24 and self.ind < 60:
            self.block(b, depth + 1)
        else:
            if b not in self.heads: self.heads.append(b)
            self.emit('bb = %d' % b); self.emit('continue')
    def cond_int(self, e, sym):
        return '(%s if %s.__class__ is int else %s)'
    def block(self, b, depth=0):
        ind = self.ind
        try: self.block_(b, depth)
        except Unsupported as e:
            self.ind = ind
            self.emit('raise Unsupported(%r)' % ('%s [in %s]' % (e, self.F['n'])))
    def block_(self, b, depth=0):
        ss, t = self.bbs[b]
        for s in ss:
            if s[0] == '=': self.assign(s[1], s[2])
            elif s[0] == 'sd': self.set_discr(self.place(s[1]), s[2])
            elif s[0] == 'cno':
                et = self.p.T_(s[4])['e']; sz = self.p.size(et)
                a = self.atom(s[1]); c = self.atom(s[2]); n = self.atom(s[3])
                if sz: self.emit('cp(%s.a, %s.o, %s.a, %s.o, idx(%s)*%d)' % (a, a, c, c, n, sz))
            elif s[0] == 'sl': 
                pass
            else: raise Unsupported('stmt ' + s[0])
        self.term(t, depth)
    def term(self, t, depth):
        k = t[0]; p = self.p
        if k == 'goto': self.goto(t[1], depth)
        elif k == 'ret': self.ret()
        elif k == 'unr': self.emit('unreachable(%r)' % self.F['n'])
        elif k in ('resume', 'abort'): self.emit('panic(%r)' % k)
        elif k == 'sw':
            v = self.atom(t[1]); cases = t[3]; other = t[4]
            if len(cases) == 1:
                val, tgt = cases[0]
                if v.isdigit():
                    self.goto(tgt if int(v) == val else other, depth); return
                if p.T_(t[2])['k'] == 'bool' and val == 0:
                    self.emit('if (%s if %s.__class__ is int else branch(%s)):' % (v, v, v)); a, b = other, tgt
                else:
                    self.emit('if (%s == %d if %s.__class__ is int else sweq(%s, %d)):' % (v, val, v, v, val)); a, b = tgt, other
                self.ind += 1; self.goto(a, depth + 1); self.ind -= 1
                self.goto(b, depth)
            else:
                for _, tg in cases + [[0, other]]:
                    if tg not in self.heads: self.heads.append(tg)
                m = self.bake({a: b for a, b in cases}); c = self.bake([tuple(x) for x in cases])
                self.emit('bb = %s.get(%s, %d) if %s.__class__ is int else switch(%s, %s, %d)' % (m, v, other, v, v, c, other))
                self.emit('continue')
        elif k == 'assert':
            v = self.atom(t[1]); exp = bool(t[2])
            if v.isdigit():
                if (int(v) != 0) != exp: self.emit('panic(%r)' % t[4])
            else:
                self.emit('if (%s%s if %s.__class__ is int else not chk(%s, %s)): panic(%r)' % ('not ' if exp else '', v, v, v, exp, t[4]))
            self.goto(t[3], depth)
        elif k == 'drop':
            P = self.place(t[1])
            if t[4] == 'dyn':
                e = self.tmp(); self.emit('%s = %s' % (e, self.refexpr(P)))
                self.emit('dropdyn(prog, %s[0], %s[1])' % (e, e))
            else:
                self.emit('FT[%d](%s)' % (t[4], self.refexpr(P)))
            self.goto(t[2], depth)
        elif k == 'call': self.call(t, depth)
        elif k == 'asm': self.emit("raise Unsupported('asm')")
        else: raise Unsupported('terminator ' + k)
    def call(self, t, depth):
        p = self.p
        f, args, dest, target, rustcall = t[1:6]
        av = []
        lst = list(args)
        for i, (o, ty) in enumerate(lst):
            if rustcall and i == len(lst) - 1:
                # untuple
                kd = p.kind(ty); d = p.T_(ty)
                n = len(d['f'])
                if kd[0] == 'z': av += ['None'] * n; continue
                flds = p.fields(ty)
                if o[0] in ('k', 'K', 'z'):
                    a = self.bake(self.const_alloc(o)); base = PL('m', a=a, t=ty)
                else: base = self.place(o[1])
                for fo, ft in flds:
                    fk = p.kind(ft)
                    if fk[0] == 'z': av.append('None')
                    elif base.k == 'r': av.append(base.v)
                    else:
                        Q = PL('m', a=base.a, o=base.o + fo, od=base.od, t=ft)
                        if fk[0] == 'a': e = 'ccp(%s, %s, %d)' % (Q.a, Q.off(), fk[1])
                        else: e = self.load(Q)
                        x = self.tmp(); self.emit('%s = %s' % (x, e)); av.append(x)
            else:
                av.append(self.arg(o, ty))
        k = f[0]
        if k == 'fn': fe = 'FT[%d]' % f[1]
        elif k == 'ptr': fe = 'pcall(prog, %s)' % self.ev(f[1])
        elif k == 'virt':
            t0 = args[0][1]; kd0 = p.kind(t0)
            x = self.tmp()
            if kd0[0] == 'fp': self.emit('%s = %s' % (x, av[0]))
            elif kd0[0] == 'a': self.emit('%s = ldfp(%s, 0)' % (x, av[0]))
            else: raise Unsupported('virtual self kind')
            av[0] = x + '[0]'
            fe = 'vcall(prog, %s[1], %d)' % (x, f[1])
        elif k == 'nop': fe = None
        else:
            self.emit("raise Unsupported('unresolved call')"); return
        if target is None:
            if fe: self.emit('%s(%s)' % (fe, ', '.join(av)))
            self.emit('unreachable(%r)' % (self.F['n'] + ' after diverging call'))
            return
        if fe is None: self.goto(target, depth); return
        dt = self.ptype(dest)
        kd = p.kind(dt)
        ce = '%s(%s)' % (fe, ', '.join(av))
        if kd[0] == 'z': self.emit(ce)
        elif kd[0] == 'a':
            i = dest[0]
            if len(dest) == 1 and self.cls[i] == 'm' and i not in self.taken and i != 0: self.emit('_%d = %s' % (i, ce))
            else:
                x = self.tmp(); self.emit('%s = %s' % (x, ce))
                D = self.place(dest)
                self.emit('cp(%s, 0, %s, %s, %d)' % (x, D.a, D.off(), kd[1]))
        else:
            if len(dest) == 1 and self.cls[dest[0]] == 'r': self.emit('_%d = %s' % (dest[0], ce))
            else:
                x = self.tmp(); self.emit('%s = %s' % (x, ce))
                self.store(self.place(dest), x, kd)
        self.goto(target, depth)
    def ret(self):
        c = self.cls[0]; kd = self.p.kind(self.L[0])
        if kd[0] == 'z': self.emit('return None')
        elif c == 'r': self.emit('return _0')
        elif kd[0] == 'a': self.emit('return _0')
        elif kd[0] == 'u': self.emit('return ld(_0, 0, %d)' % kd[1])
        elif kd[0] == 'p': self.emit('return ldp(_0, 0)')
        else: self.emit('return ldfp(_0, 0)')
    def build(self):
        p = self.p
        self.analyse()
        n = len(self.bbs)
        self.preds = [0] * n
        for ss, t in self.bbs:
            k = t[0]
            multi = k == 'sw' and len(t[3]) > 1
            for s in self.succs(t): self.preds[s] += 2 if multi else 1
        self.heads = [0]
        sp = self.F['sp']
        params = ['_%d' % i for i in range(1, self.ac + 1)]
        pro = []
        if sp is not None:
            st_ = self.L[sp]
            d = p.T_(st_)
            nf = len(d['f'])
            params = ['_%d' % i for i in range(1, sp)] + ['s%d' % i for i in range(nf)]
            kd = p.kind(st_)
            if kd[0] == 'a':
                pro.append('_%d = Alloc(%d)' % (sp, kd[1]))
                for i, (fo, ft) in enumerate(p.fields(st_)):
                    fk = p.kind(ft)
                    if fk[0] == 'z': continue
                    if fk[0] == 'a': pro.append('cp(s%d, 0, _%d, %d, %d)' % (i, sp, fo, fk[1]))
                    elif fk[0] == 'fp': pro.append('stfp(_%d, %d, s%d)' % (sp, fo, i))
                    else: pro.append('st(_%d, %d, %d, s%d)' % (sp, fo, p.size(ft), i))
            elif kd[0] != 'z':
                for i, (fo, ft) in enumerate(p.fields(st_)):
                    if p.kind(ft)[0] != 'z': pro.append('_%d = s%d' % (sp, i))
        regs = []
        for i, c in enumerate(self.cls):
            kd = p.kind(self.L[i])
            isarg = 1 <= i <= self.ac
            if c == 'r' and not isarg: regs.append('_%d' % i)
            elif c == 'm':
                if isarg:
                    if kd[0] == 'u': pro.append('_%d, x = Alloc(%d), _%d; st(_%d, 0, %d, x)' % (i, kd[1], i, i, kd[1]))
                    elif kd[0] == 'p': pro.append('_%d, x = Alloc(4), _%d; st(_%d, 0, 4, x)' % (i, i, i))
                    elif kd[0] == 'fp': pro.append('_%d, x = Alloc(8), _%d; stfp(_%d, 0, x)' % (i, i, i))
                else: pro.append('_%d = Alloc(%d)' % (i, p.size(self.L[i])))
        if regs: pro.insert(0, ' = '.join(regs) + ' = None')
        # generate heads
        bodies = {}
        done = 0
        while done < len(self.heads):
            b = self.heads[done]; done += 1
            self.out = []; self.ind = 0
            try: self.block(b)
            except Unsupported as e:
                self.emit('raise Unsupported(%r)' % ('%s [in %s]' % (e, self.F['n'])))
            bodies[b] = self.out
        hs = sorted(bodies)
        lines = ['def f(%s):' % ', '.join(params)]
        for x in pro: lines.append(' ' + x)
        if len(hs) == 1 and not any(l.strip() == 'continue' for l in bodies[0]):
            lines += [' ' + l for l in bodies[0]]
        else:
            lines.append(' bb = 0')
            lines.append(' while True:')
            def disp(lst, ind):
                if len(lst) <= 3:
                    for i, h in enumerate(lst):
                        if i < len(lst) - 1:
                            lines.append(' ' * ind + 'if bb == %d:' % h)
                            lines.extend(' ' * (ind + 1) + l for l in bodies[h])
                        else:
                            lines.extend(' ' * ind + l for l in bodies[h])
                else:
                    m = len(lst) // 2
                    lines.append(' ' * ind + 'if bb < %d:' % lst[m])
                    disp(lst[:m], ind + 1)
                    lines.append(' ' * ind + 'else:')
                    disp(lst[m:], ind + 1)
            disp(hs, 2)
        srcc = '\n'.join(lines)
        try:
            code = compile(srcc, 'mir:%d:%s' % (self.fid, self.F['n']), 'exec')
        except SyntaxError as e:
            raise RuntimeError('codegen %s: %s\n%s' % (self.F['n'], e, srcc[:3000]))
        exec(code, self.ns)
        f = self.ns['f']
        if prog_debug: self.ns['__src'] = srcc
        return f
prog_debug = False
