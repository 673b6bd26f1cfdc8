"""Symbolic executor for the dumped monomorphic MIR: every function is translated to Python code
on first use; scalars are Python ints or symbolic integers, aggregates live in memory."""
import json, sys, gc
from .sym import *
from . import sym
from .mem import *

M = {1: 0xff, 2: 0xffff, 4: 0xffffffff, 8: (1 << 64) - 1, 16: (1 << 128) - 1}

class Prog:
    def __init__(self, path):
        self.F = {}; self.A = {}; self.T = {}
        self.roots = {}; self.adts = {}
        with open(path) as f:
            for l in f:
                k = l[0]
                if k == 'R':
                    d = json.loads(l[2:]); self.roots = dict(d['roots']); self.adts = dict(d['adts']); continue
                i = l.index(' ')
                n = int(l[1:i])
                (self.F if k == 'F' else self.A if k == 'A' else self.T)[n] = l[i + 1:]
        self.Tc = {}; self.Fc = {}; self.Ac = {}; self.code = {}; self.statics = {}; self.static_ids = []
        self.names = None
        self.hooks = []
        self.executed = set()
        self.depth = 0
        self.host = None
        n = max(self.F) + 1
        self.FT = [None] * n
        self.nthunk = 0
        for i in range(n): self.FT[i] = self.stub(i)
    def stub(self, i):
        def f(*a):
            return self.fn(i)(*a)
        return f
    def thunk(self, fid):
        FT = self.FT
        FT.append(lambda *a: FT[fid](None, *a))
        return len(FT) - 1
    def string_ty(self):
        if not hasattr(self, '_str'):
            for i in self.T:
                if '"def": "alloc::string::String"' in self.T[i] or '"def":"alloc::string::String"' in self.T[i] or 'std::string::String"' in self.T[i][:400]:
                    d = self.T_(i)
                    if d.get('def', '').endswith('string::String'): self._str = i; break
        return getattr(self, "_str", None)
    def path_off(self, t, *names):
        o = 0
        for n in names:
            d = self.T_(t)
            for k, (nm, ft) in enumerate(d['v'][0]['f']):
                if nm == n: o += d['fo'][k]; t = ft; break
            else: raise Unsupported('field %s of %s' % (n, d['n']))
        return o, t
    def vec_layout(self, t):
        """(cap off, ptr off, len off) of a Vec type"""
        lo, _ = self.path_off(t, 'len')
        co, _ = self.path_off(t, 'buf', 'inner', 'cap')
        po, _ = self.path_off(t, 'buf', 'inner', 'ptr')
        return co, po, lo
    def string_layout(self):
        if not hasattr(self, '_sl'):
            o, v = self.path_off(self.string_ty(), 'vec')
            self._sl = tuple(x + o for x in self.vec_layout(v))
        return self._sl
    def reset_statics(self):
        for i in self.static_ids:
            a = self.Ac[i]; a.rel.clear(); self.fill(a, json.loads(self.A[i]))
    # ---- tables
    def T_(self, i):
        t = self.Tc.get(i)
        if t is None: t = self.Tc[i] = json.loads(self.T[i])
        return t
    def F_(self, i):
        t = self.Fc.get(i)
        if t is None: t = self.Fc[i] = json.loads(self.F[i])
        return t
    def find_fn(self, pred):
        if self.names is None:
            self.names = {}
            for i, l in self.F.items():
                d = self.F_(i)
                self.names.setdefault(d['dp'], []).append(i)
        return self.names.get(pred, [])
    def alloc(self, i):
        a = self.Ac.get(i)
        if a is not None: return a
        d = json.loads(self.A[i])
        k = d['k']
        if k == 'fn':
            a = FnPtr(d['i'])
            if self.is_closure_shim(d['i']): a = FnPtr(self.thunk(d['i']))
        elif k == 'vt':
            a = self.valloc(d['a'])
        elif k == 'typeid':
            a = Alloc(16); a.data[:] = (d['t'] * 0x9E3779B97F4A7C15 + 12345).to_bytes(16, 'little')
        elif k == 'extern': raise Unsupported('extern static ' + d['n'])
        else:
            a = Alloc(len(d['b']) // 2)
            self.Ac[i] = a
            self.fill(a, d)
            if k == 'static': self.statics[d['n']] = a; self.static_ids.append(i)
            return a
        self.Ac[i] = a
        return a
    def valloc(self, i):
        a = self.Ac.get(('vt', i))
        if a is None:
            m = json.loads(self.A[i])
            a = self.Ac[('vt', i)] = Alloc(len(m['b']) // 2); self.fill(a, m, True)
        return a
    def is_closure_shim(self, fid):
        F = self.F_(fid)
        if F['dp'] != 'core::ops::function::FnOnce::call_once' or F.get('sp') is None: return False
        t = self.T_(F['l'][1])
        return t['k'] == 'closure' and t['sz'] == 0
    def fill(self, a, d, vt=False):
        a.data[:] = bytes.fromhex(d['b'])
        for off, al in d['p']:
            o = int.from_bytes(a.data[off:off + 4], 'little')
            t = self.alloc(al)
            if vt and t.__class__ is FnPtr: t = FnPtr(json.loads(self.A[al])['i'])
            a.rel[off] = (4, t if t.__class__ is FnPtr else Ptr(t, o))
    # ---- types
    def kind(self, t):
        d = self.T_(t)
        k = d.get('_k')
        if k is None: k = d['_k'] = self._kind(d)
        return k
    def _kind(self, d):
        if 'sz' not in d or d.get('uns'): return ('uns',)
        if d['sz'] == 0: return ('z',)
        abi = d.get('abi')
        if abi:
            if len(abi) == 1:
                return ('p',) if abi[0][0] == 'p' else ('u', abi[0][1])
            if d['k'] in ('ref', 'ptr'): return ('fp',)
        return ('a', d['sz'])
    def size(self, t): return self.T_(t)['sz']
    def signed(self, t):
        d = self.T_(t)
        if d['k'] == 'int': return True
        if d['k'] == 'pat': return self.signed(d['e'])
        return False
    def fields(self, t, variant=None):
        """list of (offset, type)"""
        d = self.T_(t)
        k = d['k']
        if k in ('tuple',): return list(zip(d.get('fo', [0] * len(d['f'])), d['f']))
        if k in ('struct', 'union', 'enum'):
            if k == 'enum' and 'vo' in d:
                v = variant or 0
                return list(zip(d['vo'][v], [x[1] for x in d['v'][v]['f']]))
            v = variant or 0
            fs = d['v'][v]['f']
            return list(zip(d.get('fo', [0] * len(fs)), [x[1] for x in fs]))
        raise Unsupported('fields of ' + d['n'])

    # ---- calls
    def fn(self, i):
        c = self.code.get(i)
        if c is None:
            from .compile import compile_fn
            c = self.code[i] = compile_fn(self, i)
            self.FT[i] = c
        return c
    def call(self, i, *args):
        return self.fn(i)(*args)

def sgn(v, n):
    return v - (1 << (8 * n)) if v >> (8 * n - 1) else v

# ------------------------------------------------------------------ runtime operations (slow paths)
def num(v):
    c = v.__class__
    if c is int or c is Sym: return v
    return addr_of(v)

def op_add(a, b, n, signed, checked):
    a = num(a); b = num(b)
    m = M[n]
    if type(a) is int and type(b) is int:
        if signed:
            r = sgn(a, n) + sgn(b, n)
            return (r & m, int(not (-(m + 1) // 2 <= r <= m // 2)))
        r = a + b
        return (r & m, int(r > m))
    if signed: return signed_sym('add', a, b, n)
    r = s_add(a, b)
    if r.hi <= m: return (r, 0)
    if r.lo <= m and branch(r.t <= m):
        r.hi = min(r.hi, m); return (r, 0)
    return (s_sub_exact(r, m + 1), 1)
def op_sub(a, b, n, signed, checked):
    a = num(a); b = num(b)
    m = M[n]
    if type(a) is int and type(b) is int:
        if signed:
            r = sgn(a, n) - sgn(b, n)
            return (r & m, int(not (-(m + 1) // 2 <= r <= m // 2)))
        r = a - b
        return (r & m, int(r < 0))
    if signed: return signed_sym('sub', a, b, n)
    if a is b: return (0, 0)
    if lo_(a) >= hi_(b): return (s_sub_exact(a, b), 0)
    if hi_(a) >= lo_(b) and branch(s_le(b, a)):
        return (s_sub_exact(a, b), 0)
    return (Sym(tm(a) - tm(b) + (m + 1), 0, m), 1)
def op_mul(a, b, n, signed, checked):
    a = num(a); b = num(b)
    m = M[n]
    if type(a) is int and type(b) is int:
        if signed:
            r = sgn(a, n) * sgn(b, n)
            return (r & m, int(not (-(m + 1) // 2 <= r <= m // 2)))
        r = a * b
        return (r & m, int(r > m))
    if signed: return signed_sym('mul', a, b, n)
    r = s_mul(a, b)
    if type(r) is int or r.hi <= m: return (r, 0)
    if branch(r.t <= m):
        return (Sym(r.t, r.lo, min(r.hi, m)), 0)
    return (s_mod_c(r, m + 1), 1)
def signed_sym(op, a, b, n):
    """signed arithmetic on symbolic values: bring to mathematical integers, then wrap"""
    m = M[n]; h = (m + 1) // 2
    def val(x):
        if type(x) is int: return z3.IntVal(sgn(x, n))
        if x.hi < h: return x.t
        return x.t if branch(x.t < h) else x.t - (m + 1)
    x, y = val(a), val(b)
    if op == 'mul' and not (z3.is_int_value(x) or z3.is_int_value(y)): raise Unsupported('signed symbolic product')
    r = x + y if op == 'add' else x - y if op == 'sub' else x * y
    if branch(z3.And(r >= -h, r < h)):
        return (Sym(r, 0, m) if branch(r >= 0) else Sym(r + m + 1, 0, m), 0)
    raise Unsupported('signed symbolic overflow')

def op_wrap(f):
    def g(a, b, n, signed):
        return f(a, b, n, signed, False)[0]
    return g
w_add = op_wrap(op_add); w_sub = op_wrap(op_sub); w_mul = op_wrap(op_mul)

def op_div(a, b, n, signed):
    a = num(a); b = num(b)
    if type(a) is int and type(b) is int:
        if b == 0: raise Unsupported('division by zero reached')
        if signed:
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y)
            return (-q if (x < 0) != (y < 0) else q) & M[n]
        return a // b
    if signed: raise Unsupported('signed symbolic division')
    return s_divmod(a, b)[0]
def op_rem(a, b, n, signed):
    a = num(a); b = num(b)
    if type(a) is int and type(b) is int:
        if b == 0: raise Unsupported('rem by zero reached')
        if signed:
            x, y = sgn(a, n), sgn(b, n)
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & M[n]
        return a % b
    if signed: raise Unsupported('signed symbolic rem')
    return s_divmod(a, b)[1]

def op_and(a, b, n):
    a = num(a); b = num(b)
    if type(a) is int and type(b) is int: return a & b
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if (b & (b + 1)) == 0: return s_mod_c(a, b + 1)
        if a.b is not None or a.hi <= 1: return s_mod_c(a, 2) if b & 1 else 0
        tz = (b & -b).bit_length() - 1
        c = b >> tz
        if (c & (c + 1)) == 0:
            q = s_divmod_c(a, 1 << tz)[0]
            return s_mul(s_mod_c(q, c + 1), 1 << tz)
        raise Unsupported('symbolic & mask %x' % b)
    if a.hi <= 1 and b.hi <= 1: return mkbool(z3.And(bt(a), bt(b)))
    raise Unsupported('symbolic & symbolic')
def op_or(a, b, n):
    a = num(a); b = num(b)
    if type(a) is int and type(b) is int: return a | b
    if hi_(a) <= 1 and hi_(b) <= 1: return mkbool(z3.Or(bt(a), bt(b)))
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return a
        if b & ((1 << a.hi.bit_length()) - 1) == 0: return s_add(a, b)
    # disjoint: one is a multiple of 2^k above the other's bound
    if type(b) is not int:
        for x, y in ((a, b), (b, a)):
            k = 1 << y.hi.bit_length()
            if type(s_mod_c_nocreate(x, k)) is int and s_mod_c_nocreate(x, k) == 0: return s_add(x, y)
    raise Unsupported('symbolic |')
def s_mod_c_nocreate(x, k):
    # recognise terms built as 2^j * y with j >= log2 k
    t = x.t
    if z3.is_mul(t) and t.num_args() == 2:
        for c in t.children():
            if z3.is_int_value(c) and c.as_long() % k == 0: return 0
    return None
def op_xor(a, b, n):
    a = num(a); b = num(b)
    if type(a) is int and type(b) is int: return a ^ b
    if hi_(a) <= 1 and hi_(b) <= 1: return mkbool(bt(a) != bt(b))
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return a
        if b == M[n]: return Sym(z3.IntVal(M[n]) - a.t, M[n] - a.hi, M[n] - a.lo)
    raise Unsupported('symbolic ^')
def op_shl(a, b, n, signed):
    b = num(b); a = num(a)
    if type(b) is not int: b = concretize(b)
    b &= n * 8 - 1
    if type(a) is int: return (a << b) & M[n]
    return s_mod_c(s_mul(a, 1 << b), M[n] + 1)
def op_shr(a, b, n, signed):
    b = num(b); a = num(a)
    if type(b) is not int: b = concretize(b)
    b &= n * 8 - 1
    if type(a) is int:
        if signed: return (sgn(a, n) >> b) & M[n]
        return a >> b
    if signed and a.hi >= (M[n] + 1) // 2: raise Unsupported('signed symbolic >>')
    return s_divmod_c(a, 1 << b)[0]
def op_not(a, n, isbool):
    if isbool: return s_not(a) if type(a) is not int else 1 - a
    a = num(a)
    if type(a) is int: return a ^ M[n]
    return Sym(z3.IntVal(M[n]) - a.t, M[n] - a.hi, M[n] - a.lo)
def op_neg(a, n):
    if type(a) is int: return (-a) & M[n]
    raise Unsupported('symbolic negation')

def fix_signed(a, n):
    """symbolic signed compare: only when both non-negative by bounds"""
    return a
def op_cmp(op, a, b, n, signed):
    ca, cb = a.__class__, b.__class__
    if ca is tuple or cb is tuple:
        a0, b0 = a, b
        if op in ('Eq', 'Ne'):
            e = (addr_of(a[0]) == addr_of(b[0])) and (num(a[1]) == num(b[1]))
            return int(e) if op == 'Eq' else int(not e)
        a, b = a[0], b[0]
        ca, cb = a.__class__, b.__class__
    if ca is Ptr or cb is Ptr or ca is FnPtr or cb is FnPtr:
        if ca is Ptr and cb is Ptr and a.a is b.a: a, b = a.o, b.o
        else: a, b = addr_of(a), addr_of(b)
    if type(a) is int and type(b) is int:
        if signed: a, b = sgn(a, n), sgn(b, n)
        return int(a == b if op == 'Eq' else a != b if op == 'Ne' else a < b if op == 'Lt' else a <= b if op == 'Le' else a > b if op == 'Gt' else a >= b)
    if a.__class__ is Neq or b.__class__ is Neq:
        if op == 'Eq': return 0
        if op == 'Ne': return 1
        raise Unsupported('ordering of symbolic byte strings')
    if op == 'Eq': return s_eq(a, b)
    if op == 'Ne': return s_ne(a, b)
    if signed:
        h = (M[n] + 1) // 2
        if hi_(a) >= h or hi_(b) >= h:
            def sg(x):
                if type(x) is int: return sgn(x, n), None
                if x.hi < h: return x, None
                raise Unsupported('signed symbolic compare')
            xa, xb = sg(a)[0], sg(b)[0]
            if type(xa) is int and xa < 0: return int(op in ('Lt', 'Le'))
            if type(xb) is int and xb < 0: return int(op in ('Gt', 'Ge'))
    if op == 'Lt': return s_lt(a, b)
    if op == 'Le': return s_le(a, b)
    if op == 'Gt': return s_lt(b, a)
    return s_le(b, a)
class Neq:
    """result of a byte comparison known to be non-zero with unknown order"""
NEQ = Neq()
def op_3way(a, b, n, signed):
    a = num(a); b = num(b)
    if branch(op_cmp('Lt', a, b, n, signed)): return 0xff
    if branch(op_cmp('Eq', a, b, n, signed)): return 0
    return 1

def op_offset(p, cnt, sz):
    if cnt.__class__ is not int:
        cnt = concretize(num(cnt), what='pointer offset')
    c = cnt - (1 << 32) if cnt >> 31 else cnt
    if p.__class__ is int: return Ptr(None, (p + c * sz) & 0xffffffff)
    if p.__class__ is tuple: return (op_offset(p[0], cnt, sz), p[1])
    if p.a is None: return Ptr(None, (p.o + c * sz) & 0xffffffff)
    return Ptr(p.a, p.o + c * sz)

def cast_int(v, sn, ssigned, dn):
    if v.__class__ is int:
        if ssigned and v >> (8 * sn - 1): v -= 1 << (8 * sn)
        return v & M[dn]
    if v.__class__ is not Sym:
        if dn >= 4: return v
        v = addr_of(v)
        return v & M[dn]
    if dn < sn: 
        r = s_mod_c(v, M[dn] + 1)
        return r
    if ssigned and dn > sn and v.hi >= (M[sn] + 1) // 2:
        if branch(v.t < (M[sn] + 1) // 2): return v
        return Sym(v.t + (M[dn] - M[sn]), 0, M[dn])
    return v

def to_ptr(v):
    if v.__class__ is int: return Ptr(None, v)
    if v.__class__ is Sym: return Ptr(None, concretize(v))
    return v

REPIDX = [False]   # inside JSON escaping: symbolic account-id bytes are represented by 'a'
def idx(v):
    if v.__class__ is int: return v
    if REPIDX[0] and v.__class__ is Sym and v.src is not None and v._t is None: return 97
    return concretize(num(v), what='index')

def switch(v, cases, other):
    """symbolic switch"""
    v = num(v) if v.__class__ is not Neq else v
    if v.__class__ is Neq:
        for val, tgt in cases:
            if val == 0: continue
            raise Unsupported('switch on unordered comparison')
        return other
    if type(v) is int:
        for val, tgt in cases:
            if val == v: return tgt
        return other
    for val, tgt in cases:
        c = s_eq(v, val)
        if branch(c): return tgt
    return other

def mem_eq(a, ao, b, bo, n):
    """equality of two byte ranges: int or Sym bool"""
    if n == 0: return 1
    if not a.rel and not b.rel: return int(a.data[ao:ao + n] == b.data[bo:bo + n])
    ea = overl(a, ao, n); eb = overl(b, bo, n)
    if not ea and not eb: return int(a.data[ao:ao + n] == b.data[bo:bo + n])
    # cut points
    cuts = {0, n}
    for k, (sz, v) in ea: cuts.add(max(0, k - ao)); cuts.add(min(n, k + sz - ao))
    for k, (sz, v) in eb: cuts.add(max(0, k - bo)); cuts.add(min(n, k + sz - bo))
    cuts = sorted(cuts)
    conj = []
    for s, e in zip(cuts, cuts[1:]):
        x = ld_any(a, ao + s, e - s); y = ld_any(b, bo + s, e - s)
        if x is y: continue
        r = s_eq(num(x), num(y))
        if r.__class__ is int:
            if not r: return 0
            continue
        conj.append(bt(r))
    if not conj: return 1
    return mkbool(z3.And(*conj) if len(conj) > 1 else conj[0])
def ld_any(a, off, n):
    if not a.rel: return int.from_bytes(a.data[off:off + n], 'little')
    e = a.rel.get(off)
    if e is not None and e[0] == n: return e[1]
    return ld_slow(a, off, n)

def ptr_read_bytes(p, n):
    if n == 0: return Alloc(0)
    return SB.from_mem(p.a, p.o, n)
