"""Discharging obligations: path constraints + exact nonlinear definitions |= goal."""
import subprocess, tempfile, os, time, z3
from .sym import *

STATS = {'queries': 0, 'time': 0.0}

# ---- polynomial normal form over base variables (expands p == a*b definitions)
class Poly:
    def __init__(self, nl):
        self.defs = {p.get_id(): (a, b) for p, a, b in nl}
        self.memo = {}; self.keep = []; self.mono = {}
    def poly(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is not None: return r
        if i in self.defs:
            a, b = self.defs[i]; r = self.mul(self.poly(a), self.poly(b))
        elif z3.is_int_value(t): 
            v = t.as_long(); r = {(): v} if v else {}
        elif z3.is_add(t):
            r = {}
            for c in t.children(): r = self.add(r, self.poly(c), 1)
        elif z3.is_sub(t):
            ch = t.children(); r = dict(self.poly(ch[0]))
            for c in ch[1:]: r = self.add(r, self.poly(c), -1)
        elif z3.is_mul(t):
            r = {(): 1}
            for c in t.children(): r = self.mul(r, self.poly(c))
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            r = self.add({}, self.poly(t.children()[0]), -1)
        elif t.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = t.children()
            v = z3.FreshInt('ite'); self.extra.append(z3.If(self.form(c), v == self.lin(self.poly(x)), v == self.lin(self.poly(y))))
            r = {(v.get_id(),): 1}; self.keep.append(v); self.mono[(v.get_id(),)] = v
        else:
            r = {(i,): 1}; self.mono[(i,)] = t
        self.memo[i] = r; self.keep.append(t)
        return r
    def add(self, a, b, k):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + k * c
            if x: r[m] = x
            else: r.pop(m, None)
        return r
    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                x = r.get(k, 0) + c * d
                if x: r[k] = x
                else: r.pop(k, None)
        return r
    def lin(self, p):
        out = []
        for m, c in p.items():
            if m == (): out.append(z3.IntVal(c)); continue
            v = self.mono.get(m)
            if v is None: v = self.mono[m] = z3.Int('mono!' + '_'.join(map(str, m)))
            out.append(v if c == 1 else v * c)
        if not out: return z3.IntVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]
    extra = None
    def form(self, f):
        if self.extra is None: self.extra = []
        if z3.is_int(f): return self.lin(self.poly(f))
        k = f.decl().kind()
        ch = f.children()
        if ch and z3.is_int(ch[0]) and k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            d = self.lin(self.add(self.poly(ch[0]), self.poly(ch[1]), -1))
            z = z3.IntVal(0)
            return {z3.Z3_OP_LE: lambda: d <= z, z3.Z3_OP_LT: lambda: d < z, z3.Z3_OP_GE: lambda: d >= z, z3.Z3_OP_GT: lambda: d > z,
                    z3.Z3_OP_EQ: lambda: d == z, z3.Z3_OP_DISTINCT: lambda: d != z}[k]()
        if not ch: return f
        return f.decl()(*[self.form(c) for c in ch])

def z3lia(fs, rl=20000000):
    s = z3.SolverFor('QF_LIA'); s.set('rlimit', rl)
    s.add(*fs); r = s.check()
    return r, (s.model() if r == z3.sat else None)

def model_ok(m, nl):
    for p, a, b in nl:
        if m.eval(p, model_completion=True).as_long() != m.eval(a, model_completion=True).as_long() * m.eval(b, model_completion=True).as_long(): return False
    return True

def getmodel(m):
    return {n: m.eval(v, model_completion=True).as_long() for n, v, lo, hi in PATH.inputs}

def prove(goal, timeout=20, lemmas=(), mult=()):
    """returns ('proved', how) | ('cex', model dict) | ('unknown', why)
    lemmas: facts already proved on this path; mult: nonnegative terms the negated goal and the lemmas are multiplied by"""
    t0 = time.time()
    try:
        gs = split(goal)
        hows = []
        for g in gs:
            STATS['queries'] += 1
            r = _prove(g, timeout, lemmas, mult)
            if r[0] != 'proved': return r
            hows.append(r[1])
        for h in ('z3', 'cvc5', 'product-lia', 'monomial-lia', 'lia'):
            if h in hows: return ('proved', h)
        return ('proved', 'const')
    finally: STATS['time'] += time.time() - t0

def split(g):
    if isinstance(g, Sym): g = bt(g)
    if isinstance(g, (bool, int)): return [g]
    if z3.is_and(g): return [y for x in g.children() for y in split(x)]
    return [g]

def ineqs(f, neg):
    """atomic (in)equality (negated if neg) as a list of alternatives, each a list of (x, y, k) meaning x - y - k >= 0; None if not atomic"""
    while z3.is_not(f): f = f.children()[0]; neg = not neg
    ch = f.children()
    if len(ch) != 2 or not z3.is_int(ch[0]): return None
    a, b = ch; k = f.decl().kind()
    LE, LT, GE, GT, EQ = z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ
    if neg: 
        if k == EQ: return [[(a, b, 1)], [(b, a, 1)]]
        k = {LE: GT, LT: GE, GE: LT, GT: LE}.get(k)
    if k == LE: return [[(b, a, 0)]]
    if k == LT: return [[(b, a, 1)]]
    if k == GE: return [[(a, b, 0)]]
    if k == GT: return [[(a, b, 1)]]
    if k == EQ: return [[(a, b, 0), (b, a, 0)]]
    return None

def _prove(goal, timeout, lemmas, mult):
    if goal is True or (type(goal) is int and goal): return ('proved', 'const')
    if isinstance(goal, int): goal = z3.BoolVal(bool(goal))
    goal = z3.simplify(goal) if not PATH.nl else goal
    if z3.is_true(goal): return ('proved', 'const')
    ng = z3.Not(goal)
    cons = PATH.cons; nl = PATH.nl
    r, m = z3lia(cons + [ng])
    if r == z3.unsat: return ('proved', 'lia')
    if r == z3.sat and model_ok(m, nl): return ('cex', getmodel(m))
    if nl:
        nn = nonneg_vars(cons)
        def attempt(mults, alt):
            P = Poly(nl); P.extra = []
            fs = [P.form(c) for c in cons] + [P.form(c) for c in lemmas]
            facts = []
            for l in lemmas:
                q = ineqs(l, False)
                if q and len(q) == 1: facts += q[0]
            fs.append(P.form(ng) if alt is None else z3.And([P.lin(P.add(P.add(P.poly(x), P.poly(y), -1), {(): k} if k else {}, -1)) >= 0 for x, y, k in alt]))
            for x, y, k in (alt or []) + facts:
                e = P.add(P.add(P.poly(x), P.poly(y), -1), {(): k} if k else {}, -1)
                for mu in mults: fs.append(P.lin(P.mul(e, P.poly(mu))) >= 0)
            fs += P.extra
            # products of nonnegative variables are nonnegative
            for mono, v in list(P.mono.items()):
                if len(mono) > 1 and all(i in nn for i in mono): fs.append(v >= 0)
            return z3lia(fs)[0]
        if attempt([], None) == z3.unsat: return ('proved', 'monomial-lia')
        alts = ineqs(goal, True)
        if alts is not None:
            ms = list(mult); seen = {x.get_id() for x in ms}
            for b in PATH.divs:
                if b.get_id() not in seen: seen.add(b.get_id()); ms.append(b)
            if ms and all(attempt(ms, a) == z3.unsat for a in alts): return ('proved', 'product-lia')
    return external(cons + [p == a * b for p, a, b in nl] + list(lemmas) + [ng], timeout)

def nonneg_vars(cons):
    s = set()
    for c in cons:
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_GE:
            a, b = c.children()
            if z3.is_const(a) and z3.is_int_value(b) and b.as_long() >= 0: s.add(a.get_id())
    return s

def external(fs, timeout):
    s = z3.Solver(); s.add(*fs)
    txt = s.to_smt2()
    base = txt.replace('(check-sat)', '')
    names = [n for n, v, lo, hi in PATH.inputs]
    small = ''.join('(assert (<= |%s| %d))\n' % (n, min(hi, max(lo, 0) + 4000)) for n, v, lo, hi in PATH.inputs)
    getv = '(check-sat)\n' + ('(get-value (%s))\n' % ' '.join('|%s|' % n for n in names) if names else '')
    d = tempfile.mkdtemp(prefix='vsmt')
    try:
        f1 = os.path.join(d, 'a.smt2'); f2 = os.path.join(d, 'b.smt2'); f3 = os.path.join(d, 'c.smt2')
        open(f1, 'w').write('(set-option :produce-models true)\n' + base + getv)
        open(f2, 'w').write('(set-option :produce-models true)\n' + base + small + getv)
        open(f3, 'w').write('(set-logic ALL)\n(set-option :produce-models true)\n' + base + getv)
        cmds = [('z3', ['z3-new', '-T:%d' % timeout, f1], True), ('z3small', ['z3-new', '-T:%d' % timeout, f2], False),
                ('cvc5', ['cvc5', '--tlimit=%d' % (timeout * 1000), '--nl-ext-tplanes', f3], True)]
        ps = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), u) for n, c, u in cmds]
        res = ('unknown', 'no solver answered')
        t0 = time.time()
        live = list(ps)
        while live and time.time() - t0 < timeout + 3:
            for x in list(live):
                n, p, u = x
                if p.poll() is None: continue
                live.remove(x)
                o = p.stdout.read()
                if o.startswith('unsat') and u: res = ('proved', n); live = []; break
                if o.startswith('sat'):
                    res = ('cex', parse_vals(o)); live = []; break
            else: time.sleep(0.02); continue
        for n, p, u in ps:
            if p.poll() is None: p.kill()
            p.wait()
        return res
    finally:
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        os.rmdir(d)

def parse_vals(o):
    import re
    out = {}
    o = o[o.index('\n') + 1:] if '\n' in o else ''
    for m in re.finditer(r'\(\|?([^\s|()]+)\|?\s+(\d+|\(- (\d+)\))\)', o):
        out[m.group(1)] = int(m.group(2)) if m.group(3) is None else -int(m.group(3))
    return out
