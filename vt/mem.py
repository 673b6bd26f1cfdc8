"""Miri-like memory: allocations of concrete bytes plus a relocation/symbolic overlay."""
from .sym import *

class Alloc:
    __slots__ = ('data', 'rel', 'base', 'ro', 'kind')
    NEXT = [0x100000]
    def __init__(self, size, kind=None):
        self.data = bytearray(size)
        self.rel = {}
        self.base = 0
        self.ro = False
        self.kind = kind
    def addr(self):
        if not self.base:
            n = Alloc.NEXT
            self.base = n[0]
            n[0] += (len(self.data) + 31) & ~15
        return self.base
    def clone(self):
        a = Alloc(0)
        a.data = bytearray(self.data); a.rel = dict(self.rel)
        return a

class Ptr:
    __slots__ = ('a', 'o')
    def __init__(self, a, o): self.a = a; self.o = o
    def __repr__(self): return 'Ptr(%s,%s)' % (id(self.a) % 100000 if self.a is not None else None, self.o)
class FnPtr:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def __repr__(self): return 'FnPtr(%d)' % self.f

def addr_of(v):
    c = v.__class__
    if c is int or c is Sym: return v
    if c is Ptr:
        if v.a is None: return v.o
        return (v.a.addr() + v.o) & 0xffffffff
    if c is FnPtr: return 0xF0000000 + v.f * 4
    raise Unsupported('addr_of %r' % (v,))

def frag(v, off, n, total):
    """n bytes at byte offset off of value v (total bytes wide)"""
    if n == total and off == 0: return v
    if v.__class__ is Sym:
        if v.src is not None and v._t is None and v.b is None:
            p, o, m = v.src
            if off == 0 and n >= m: return v
            return mkfrag(p, o + off, min(n, m - off)) if off < m else 0
        return mkfrag(v, off, n)
    if v.__class__ is int: return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
    raise Unsupported('fragment of pointer')

def mkfrag(p, off, n):
    if (p.hi >> (8 * off)) == 0: return 0
    if off == 0 and p.hi < (1 << (8 * n)): return p
    return Sym(None, 0, min((1 << (8 * n)) - 1, p.hi >> (8 * off)), None, (p, off, n))

def clear(a, off, n):
    """remove overlay entries overlapping [off, off+n), splitting partial overlaps"""
    rel = a.rel
    end = off + n
    if len(rel) < 24 or len(rel) < n + 32:
        ks = [k for k, e in rel.items() if k < end and k + e[0] > off]
    else:
        ks = [k for k in range(off - 31, end) if k in rel and k + rel[k][0] > off]
    for k in ks:
        sz, v = rel.pop(k)
        if k < off:
            put(a, k, off - k, frag(v, 0, off - k, sz))
        if k + sz > end:
            put(a, end, k + sz - end, frag(v, end - k, k + sz - end, sz))

def put(a, off, n, v):
    if v.__class__ is int: a.data[off:off + n] = v.to_bytes(n, 'little')
    else: a.rel[off] = (n, v)

def st(a, off, n, v):
    """store scalar of n bytes"""
    if a is None: raise Unsupported('store through dangling pointer')
    if off < 0 or off + n > len(a.data): raise Unsupported('out-of-bounds store %d+%d of %d' % (off, n, len(a.data)))
    if a.rel: clear(a, off, n)
    if v.__class__ is int:
        a.data[off:off + n] = v.to_bytes(n, 'little')
    elif v.__class__ is Ptr and v.a is None:
        a.data[off:off + n] = v.o.to_bytes(n, 'little')
    elif v is None: pass
    else:
        a.rel[off] = (n, v)

def ld(a, off, n):
    """load scalar of n bytes (int kind)"""
    if a is None: raise Unsupported('load through dangling pointer')
    if off < 0 or off + n > len(a.data): raise Unsupported('out-of-bounds load %d+%d of %d' % (off, n, len(a.data)))
    rel = a.rel
    if rel:
        e = rel.get(off)
        if e is not None and e[0] == n: return e[1]
        return ld_slow(a, off, n)
    return int.from_bytes(a.data[off:off + n], 'little')

def overl(a, off, n):
    rel = a.rel; end = off + n
    if len(rel) < n + 32:
        return sorted([(k, e) for k, e in rel.items() if k < end and k + e[0] > off], key=lambda x: x[0])
    return [(k, rel[k]) for k in range(off - 31, end) if k in rel and k + rel[k][0] > off]

def ld_slow(a, off, n):
    es = overl(a, off, n)
    if not es: return int.from_bytes(a.data[off:off + n], 'little')
    end = off + n
    # try: all fragments of one parent in order
    k, (sz, v) = es[0]
    if k <= off and k + sz >= end:
        return frag(v, off - k, n, sz)
    parts = []
    pos = off
    for k, (sz, v) in es:
        if k > pos: parts.append((pos, k - pos, int.from_bytes(a.data[pos:k], 'little')))
        s = max(k, off); e = min(k + sz, end)
        parts.append((s, e - s, frag(v, s - k, e - s, sz)))
        pos = e
    if pos < end: parts.append((pos, end - pos, int.from_bytes(a.data[pos:end], 'little')))
    r = join(parts, off, n)
    return r

def join(parts, base, n):
    """recombine consecutive (pos,len,val) pieces into one little-endian value"""
    par = None; ok = True; start = None
    cur = None
    for pos, ln, v in parts:
        if v.__class__ is Sym:
            if v.src is not None and v._t is None and v.b is None: p, o, m = v.src
            else: p, o, m = v, 0, ln
            if par is None:
                par = p; start = o - (pos - base)
                if start < 0: ok = False; break
            elif par is not p: ok = False; break
            if o != start + pos - base: ok = False; break
            # the piece may cover fewer meaningful bytes than ln: rest must be zero in parent
            if m < ln and (par.hi >> (8 * (o + m))) != 0: ok = False; break
        elif v.__class__ is int:
            pass
        else: raise Unsupported('pointer fragment join')
    if ok and par is not None:
        for pos, ln, v in parts:
            if v.__class__ is int:
                # concrete piece must be implied zero bytes of the parent
                if v != 0 or (par.hi >> (8 * (start + pos - base))) != 0: ok = False; break
    if ok and par is not None:
        return mkfrag(par, start, n) if not (start == 0 and par.hi < (1 << (8 * n))) else par
    t = 0
    for pos, ln, v in parts:
        t = s_add(t, s_mul(v, 1 << (8 * (pos - base))))
    return t

def ldp(a, off):
    v = ld(a, off, 4)
    if v.__class__ is int: return Ptr(None, v)
    return v

def cp(sa, so, da, do, n):
    if n == 0: return
    if sa is None or da is None: raise Unsupported('copy through dangling pointer')
    if so < 0 or so + n > len(sa.data) or do < 0 or do + n > len(da.data):
        raise Unsupported('out-of-bounds copy n=%d src %d/%d dst %d/%d' % (n, so, len(sa.data), do, len(da.data)))
    if sa.rel:
        if so == 0 and n == len(sa.data): es = list(sa.rel.items())
        else: es = overl(sa, so, n)
    else: es = None
    b = sa.data[so:so + n]
    if da.rel: clear(da, do, n)
    da.data[do:do + n] = b
    if es:
        end = so + n
        for k, (sz, v) in es:
            if k >= so and k + sz <= end:
                da.rel[do + k - so] = (sz, v)
            else:
                s = max(k, so); e = min(k + sz, end)
                put(da, do + s - so, e - s, frag(v, s - k, e - s, sz))

class SB:
    """symbolic byte string (immutable snapshot) = Alloc contents"""
    @staticmethod
    def from_mem(a, off, n):
        x = Alloc(n)
        if n: cp(a, off, x, 0, n)
        return x
    @staticmethod
    def const(b):
        x = Alloc(0); x.data = bytearray(b); return x

def conc_bytes(a, what=''):
    if a.rel:
        for k in list(a.rel):
            sz, v = a.rel[k]
            if v.__class__ is Sym:
                c = concretize(v, what=what)
                del a.rel[k]
                a.data[k:k + sz] = c.to_bytes(sz, 'little')
            else: raise Unsupported('pointer in bytes ' + what)
    return bytes(a.data)
