"""Borsh encoding/decoding of contract state by reflection over the dumped types, including the
near-sdk collections (layout taken from their struct fields)."""
from .engine import *
from .mem import *
from .host import b2a, to_alloc, show

class W:
    def __init__(self): self.parts = []; self.n = 0
    def raw(self, a):
        a = to_alloc(a); self.parts.append((self.n, a)); self.n += len(a.data)
    def int(self, v, n):
        a = Alloc(n); st(a, 0, n, v); self.raw(a)
    def done(self):
        r = Alloc(self.n)
        for o, a in self.parts:
            if len(a.data): cp(a, 0, r, o, len(a.data))
        return r

class R:
    def __init__(self, a): self.a = a; self.o = 0
    def take(self, n):
        if self.o + n > len(self.a.data): raise DecodeError('short data')
        x = SB.from_mem(self.a, self.o, n) if n else Alloc(0); self.o += n; return x
    def int(self, n):
        v = ld(self.a, self.o, n); self.o += n; return v
    def len(self): return idx(self.int(4))
class DecodeError(Exception): pass

def u64b(i): return i.to_bytes(8, 'little')

SCHEMA = None
def schema(c):
    global SCHEMA
    if SCHEMA is None:
        import os
        SCHEMA = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'schema.json')))
    return SCHEMA.get(c)
def pairing(old, new):
    """names the properties use -> names in the code: by name, renamed ones by position"""
    m = {a: a for a in old if a in new}
    x = [a for a in old if a not in m]; y = [a for a in new if a not in m.values()]
    if len(x) != len(y): return None
    m.update(zip(x, y)); return m
def canon(p):
    """per type: {property name: code name}, following renamings of private types, fields and variants"""
    if hasattr(p, 'canon'): return p.canon
    p.canon = C = {}; p.root_by_shape = None
    s = schema(getattr(p, 'cname', None))
    if s is None: return C
    B = s['types']
    root = [t for n, t in p.adts.items() if n == s['root'] or n.endswith('::' + s['root'])][:1]
    def shape(t):
        d = p.T_(t); return [p.T_(b)['k'] for _, b in d['v'][0]['f']] if d['k'] == 'struct' and d.get('v') else None
    if not root:
        want = [B[str(b)]['k'] for _, b in B[str(s['tid'])]['v'][0][1]]
        root = [t for n, t in p.adts.items() if '<' not in n and '::_::' not in n and len(want) > 2 and shape(t) == want][:1]
        if not root: return C
    p.root_by_shape = root[0]
    seen = set()
    def walk(b, t):
        if (b, t) in seen: return
        seen.add((b, t))
        o = B[str(b)]; d = p.T_(t)
        if o['k'] != d['k']: return
        if 'ta' in o:
            ta = d['f'] if o['k'] == 'tuple' else [d['e']] if o['k'] == 'array' else d.get('ta', [])
            for x, y in zip(o['ta'], ta): walk(x, y)
        elif 'v' in o and d.get('v'):
            vs = pairing([x[0] for x in o['v']], [x['n'] for x in d['v']]) if o['k'] == 'enum' else {o['v'][0][0]: d['v'][0]['n']}
            if vs is None: return
            byn = {x['n']: x for x in d['v']}; m = {}
            for vn, fs in o['v']:
                x = byn[vs[vn]]; fm = pairing([a for a, _ in fs], [a for a, _ in x['f']])
                if fm is None: return
                m[vn] = (vs[vn], fm); ft = dict((a, q) for a, q in x['f'])
                for a, q in fs: walk(q, ft[fm[a]])
            if any(vn != c or any(a != q for a, q in fm.items()) for vn, (c, fm) in m.items()): C[t] = m
    walk(s['tid'], root[0])
    return C

class Codec:
    def __init__(self, prog, storage):
        self.p = prog; self.s = storage; self.c = canon(prog)
    def names(self, t, vn=None):
        """code field name -> property field name, and the variant names both ways"""
        m = self.c.get(t)
        if not m: return {}
        if vn is None: return {q: a for a, q in next(iter(m.values()))[1].items()}
        return {q: a for a, q in m[vn][1].items()} if vn in m else {}
    def base(self, d): return d.get('def', d['n']).split('::')[-1]
    # -------------------------------------------------------------- encode
    def enc(self, t, v, w=None):
        top = w is None
        if top: w = W()
        p = self.p; d = p.T_(t); k = d['k']
        if k in ('uint', 'int'): w.int(v, d['sz'])
        elif k == 'bool': w.int(v if isinstance(v, Sym) else int(v), 1)
        elif k == 'tuple':
            for x, ft in zip(v, d['f']): self.enc(ft, x, w)
        elif k == 'array':
            if p.size(d['e']) == 1: w.raw(v)
            else:
                for x in v: self.enc(d['e'], x, w)
        elif k == 'enum':
            nm = self.base(d)
            if nm == 'Option':
                if v is None: w.int(0, 1)
                else: w.int(1, 1); self.enc(d['v'][1]['f'][0][1], v, w)
            else:
                name, fs = v if isinstance(v, tuple) else (v, {})
                nm_ = self.names(t, name); cur = self.c[t][name][0] if t in self.c and name in self.c[t] else name
                for i, x in enumerate(d['v']):
                    if x['n'] == cur:
                        w.int(i, 1)
                        for j, (fn, ft) in enumerate(x['f']): self.enc(ft, fs[nm_.get(fn, fn)] if isinstance(fs, dict) else fs[j], w)
                        break
                else: raise KeyError(name)
        elif k == 'struct':
            nm = self.base(d)
            f = d['v'][0]['f']
            if nm == 'String': 
                a = to_alloc(v); w.int(len(a.data), 4); w.raw(a)
            elif nm == 'Vec':
                et = d['ta'][0]
                if p.size(et) == 1 and p.T_(et)['k'] == 'uint': a = to_alloc(v); w.int(len(a.data), 4); w.raw(a)
                else:
                    w.int(len(v), 4)
                    for x in v: self.enc(et, x, w)
            elif nm in ('HashSet', 'BTreeSet'):
                w.int(len(v), 4)
                for x in v: self.enc(d['ta'][0], x, w)
            elif nm in ('HashMap', 'BTreeMap'):
                w.int(len(v), 4)
                for a, b in v: self.enc(d['ta'][0], a, w); self.enc(d['ta'][1], b, w)
            elif nm in ('UnorderedMap', 'UnorderedSet', 'LookupMap', 'LookupSet', 'Vector', 'TreeMap', 'LazyOption') and 'near_sdk' in d['def']:
                self.enc_coll(nm, d, v, w)
            elif d.get('box') : self.enc(d['ta'][0], v, w)
            elif nm == 'PhantomData': pass
            elif len(f) == 1 and not isinstance(v, dict): self.enc(f[0][1], v, w)   # newtype
            else:
                nm_ = self.names(t)
                for fn, ft in f:
                    if nm_.get(fn, fn) not in v: raise Unsupported('state field %s of %s is unknown to the properties' % (fn, d['n']))
                    self.enc(ft, v[nm_.get(fn, fn)], w)
        else: raise Unsupported('borsh encode ' + d['n'])
        if top: return w.done()
    def vector(self, prefix, vals, et):
        for i, x in enumerate(vals): self.s.put(b2a(prefix + u64b(i)), self.enc(et, x))
    def enc_coll(self, nm, d, v, w):
        """v = Coll(prefix, entries)"""
        pre = v.prefix
        f = dict((a, b) for a, b in d['v'][0]['f'])
        ta = d['ta']
        if nm == 'Vector':
            self.vector(pre, v.items, ta[0]); w.int(len(v.items), 8); w.int(len(pre), 4); w.raw(pre)
        elif nm in ('LookupMap', 'LookupSet'):
            for it in v.items:
                if nm == 'LookupMap': self.s.put(cat(b2a(pre), self.enc(ta[0], it[0])), self.enc(ta[1], it[1]))
                else: self.s.put(cat(b2a(pre), self.enc(ta[0], it)), b2a(b''))
            w.int(len(pre), 4); w.raw(pre)
        elif nm == 'UnorderedSet':
            ip, ep = pre + b'i', pre + b'e'
            for i, x in enumerate(v.items): self.s.put(cat(b2a(ip), self.enc(ta[0], x)), b2a(u64b(i)))
            self.vector(ep, v.items, ta[0])
            w.int(len(ip), 4); w.raw(ip); w.int(len(v.items), 8); w.int(len(ep), 4); w.raw(ep)
        elif nm == 'UnorderedMap':
            ip, kp, vp = pre + b'i', pre + b'k', pre + b'v'
            for i, (a, b) in enumerate(v.items): self.s.put(cat(b2a(ip), self.enc(ta[0], a)), b2a(u64b(i)))
            self.vector(kp, [a for a, b in v.items], ta[0]); self.vector(vp, [b for a, b in v.items], ta[1])
            w.int(len(ip), 4); w.raw(ip)
            for q in (kp, vp): w.int(len(v.items), 8); w.int(len(q), 4); w.raw(q)
        elif nm == 'LazyOption':
            w.int(len(pre), 4); w.raw(pre)
            if v.items is not None: self.s.put(b2a(pre), self.enc(ta[0], v.items))
        else: raise Unsupported('collection ' + nm)
    # -------------------------------------------------------------- decode
    def dec(self, t, a):
        r = R(a); v = self.d(t, r)
        if r.o != len(a.data): raise DecodeError('trailing bytes')
        return v
    def d(self, t, r):
        p = self.p; d = p.T_(t); k = d['k']
        if k in ('uint', 'int'): return r.int(d['sz'])
        if k == 'bool': return r.int(1)
        if k == 'tuple': return tuple(self.d(ft, r) for ft in d['f'])
        if k == 'array':
            if p.size(d['e']) == 1: return r.take(d['cnt'])
            return [self.d(d['e'], r) for _ in range(d['cnt'])]
        if k == 'enum':
            i = idx(r.int(1))
            if i >= len(d['v']): raise DecodeError('bad variant')
            if self.base(d) == 'Option': return None if i == 0 else self.d(d['v'][1]['f'][0][1], r)
            x = d['v'][i]
            m = self.c.get(t, {}); vn = next((a for a, q in m.items() if q[0] == x['n']), x['n']); nm_ = self.names(t, vn)
            return (vn, {nm_.get(fn, fn): self.d(ft, r) for fn, ft in x['f']})
        if k == 'struct':
            nm = self.base(d); f = d['v'][0]['f']; ta = d.get('ta', [])
            if nm == 'String': return r.take(r.len())
            if nm == 'Vec':
                n = r.len()
                if p.size(ta[0]) == 1 and p.T_(ta[0])['k'] == 'uint': return r.take(n)
                return [self.d(ta[0], r) for _ in range(n)]
            if nm in ('HashSet', 'BTreeSet'): return [self.d(ta[0], r) for _ in range(r.len())]
            if nm in ('HashMap', 'BTreeMap'): return [(self.d(ta[0], r), self.d(ta[1], r)) for _ in range(r.len())]
            if nm in ('UnorderedMap', 'UnorderedSet', 'LookupMap', 'LookupSet', 'Vector', 'LazyOption') and 'near_sdk' in d['def']: return self.dec_coll(nm, d, r)
            if d.get('box'): return self.d(ta[0], r)
            if nm == 'PhantomData': return None
            if len(f) == 1 and f[0][0] == '0': return self.d(f[0][1], r)
            nm_ = self.names(t)
            return {nm_.get(fn, fn): self.d(ft, r) for fn, ft in f}
        raise Unsupported('borsh decode ' + d['n'])
    def rvec(self, pre, n, et):
        out = []
        for i in range(n):
            a = self.s.get(b2a(pre + u64b(i)))
            if a is None: raise DecodeError('missing vector element')
            out.append(self.dec(et, a))
        return out
    def pre(self, r): 
        a = r.take(r.len()); return bytes(a.data)
    def dec_coll(self, nm, d, r):
        ta = d['ta']
        if nm == 'Vector':
            n = idx(r.int(8)); q = self.pre(r); return Coll(q, self.rvec(q, n, ta[0]))
        if nm in ('LookupMap', 'LookupSet'):
            q = self.pre(r); c = Coll(q, None); c.get = lambda key: self.lookup(q, ta, key); return c
        if nm == 'LazyOption':
            q = self.pre(r); a = self.s.get(b2a(q)); return Coll(q, None if a is None else self.dec(ta[0], a))
        if nm == 'UnorderedSet':
            ip = self.pre(r); n = idx(r.int(8)); ep = self.pre(r); vals = self.rvec(ep, n, ta[0])
            c = Coll(ip[:-1], vals); return c
        if nm == 'UnorderedMap':
            ip = self.pre(r); n = idx(r.int(8)); kp = self.pre(r); n2 = idx(r.int(8)); vp = self.pre(r)
            if n != n2: raise DecodeError('map length mismatch')
            ks = self.rvec(kp, n, ta[0]); vs = self.rvec(vp, n, ta[1])
            for i, k in enumerate(ks):
                a = self.s.get(cat(b2a(ip), self.enc(ta[0], k)))
                if a is None: raise DecodeError('missing index entry')
            return Coll(ip[:-1], list(zip(ks, vs)))
    def lookup(self, q, ta, key):
        a = self.s.get(cat(b2a(q), self.enc(ta[0], key)))
        if a is None: return None
        return self.dec(ta[1], a) if len(ta) > 1 else True
class Coll:
    def __init__(self, prefix, items): self.prefix = prefix; self.items = items
def cat(*xs):
    w = W()
    for x in xs: w.raw(x)
    return w.done()
