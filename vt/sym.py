"""Symbolic scalars, path condition and forking.

All symbolic scalars are mathematical integers (unsigned representation, static bounds lo..hi).
Terms are kept linear: products of two symbolic terms become fresh variables whose definition
(p == a*b) is kept aside in PATH.nl.  Path feasibility uses the linear part plus cheap linear
consequences (an over-approximation: an infeasible path may be kept, never the converse); final
obligations are discharged with the exact nonlinear definitions added."""
import os, sys, json, time, errno
import z3

class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind; self.msg = msg
        Exception.__init__(self, '%s: %s' % (kind, msg))
class Unsupported(Exception): pass

CTX = z3.main_ctx()
I0 = z3.IntVal(0)

class Sym:
    __slots__ = ('_t', 'lo', 'hi', 'b', 'src')
    def __init__(self, t, lo, hi, b=None, src=None):
        self._t = t; self.lo = lo; self.hi = hi; self.b = b; self.src = src
    @property
    def t(self):
        if self._t is None:
            if self.b is not None:
                self._t = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))
            else:
                parent, off, n = self.src
                x = parent
                if off: x = s_divmod_c(x, 1 << (8 * off))[0]
                x = s_mod_c(x, 1 << (8 * n))
                self._t = tm(x)
        return self._t
    def __repr__(self): return 'Sym(%s)' % (self._t if self._t is not None else (self.b if self.b is not None else self.src,))

def tm(x):
    if type(x) is int: return z3.IntVal(x)
    return x.t

def bt(x):
    """z3 Bool of a bool-like value"""
    if type(x) is int: return z3.BoolVal(x != 0)
    if x.b is not None: return x.b
    return x.t != 0

def mkbool(b):
    if b is True or b is False: return int(b)
    if z3.is_true(b): return 1
    if z3.is_false(b): return 0
    return Sym(None, 0, 1, b)

class PathState:
    def __init__(self):
        self.cons = []       # linear constraints
        self.nl = []         # (p, a, b) : p == a*b
        self.cnt = 0
        self.inputs = []     # (name, var, lo, hi): declared symbolic inputs
        self.trace = []      # decisions
        self.cache = {}
        self.solver = None
        self.keep = []
        self.nq = 0; self.tq = 0.0
        self.notes = []
        self.shas = []
        self.canon = {}
        self.proved = {}     # facts proved on this path
        self.divs = []       # symbolic divisors (all >= 1 on this path)
    def fresh(self, hint='v'):
        self.cnt += 1
        return z3.Int('%s!%d' % (hint, self.cnt))
    def add(self, c):
        self.cons.append(c)
        if self.solver is not None: self.solver.add(c)
    def get_solver(self):
        if self.solver is None:
            self.solver = z3.SolverFor('QF_LIA')
            self.solver.set('rlimit', 3000000)
            for c in self.cons: self.solver.add(c)
        return self.solver
    def feasible(self, c):
        s = self.get_solver()
        t0 = time.time()
        s.push(); s.add(c)
        r = s.check()
        s.pop()
        self.nq += 1; self.tq += time.time() - t0
        return r != z3.unsat

PATH = PathState()

def inp(name, lo, hi):
    """declare a symbolic input"""
    v = z3.Int(name)
    PATH.inputs.append((name, v, lo, hi))
    PATH.add(v >= lo); PATH.add(v <= hi)
    return Sym(v, lo, hi)

def assume(b):
    if isinstance(b, Sym): b = bt(b)
    if b is True: return
    if b is False: raise PathEnd('infeasible')
    if isinstance(b, int): 
        if b: return
        raise PathEnd('infeasible')
    PATH.add(b)

def assume_feasible(b):
    assume(b)
    if not PATH.feasible(z3.BoolVal(True)): raise PathEnd('infeasible')

# ---------------------------------------------------------------- arithmetic
def linform(t):
    """linear normal form {atom id: coefficient} (constant under key 0)"""
    i = t.get_id()
    r = PATH.canon.get(i)
    if r is not None: return r[0]
    k = t.decl().kind()
    if z3.is_int_value(t): v = t.as_long(); r = {0: v} if v else {}
    elif k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children(): lf_acc(r, linform(c), 1)
    elif k == z3.Z3_OP_SUB:
        ch = t.children(); r = dict(linform(ch[0]))
        for c in ch[1:]: lf_acc(r, linform(c), -1)
    elif k == z3.Z3_OP_UMINUS:
        r = {}; lf_acc(r, linform(t.children()[0]), -1)
    elif k == z3.Z3_OP_MUL and len(t.children()) == 2 and (z3.is_int_value(t.arg(0)) or z3.is_int_value(t.arg(1))):
        x, y = t.children()
        if z3.is_int_value(y): x, y = y, x
        r = {}; lf_acc(r, linform(y), x.as_long())
    else: r = {i: 1}
    PATH.canon[i] = (r, t)
    return r
def lf_acc(r, x, k):
    for m, c in x.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
def cid(t):
    """key of the linear normal form (so that equal sums share products and quotients)"""
    return tuple(sorted(linform(t).items()))
def s_mul(a, b):
    if type(a) is int and type(b) is int: return a * b
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if b == 1: return a
        return Sym(a.t * b, a.lo * b, a.hi * b)
    ta, tb = a.t, b.t
    ia, ib = cid(ta), cid(tb)
    k = (ia, ib) if ia <= ib else (ib, ia)
    k = ('mul',) + k
    r = PATH.cache.get(k)
    if r is not None: return r
    p = PATH.fresh('mul')
    PATH.nl.append((p, ta, tb))
    PATH.add(p >= 0)
    PATH.add(z3.Implies(z3.Or(ta == 0, tb == 0), p == 0))
    PATH.add(z3.Implies(tb >= 1, p >= ta)); PATH.add(z3.Implies(ta >= 1, p >= tb))
    PATH.add(p <= a.hi * tb); PATH.add(p <= b.hi * ta)
    if a.lo > 0: PATH.add(p >= a.lo * tb)
    if b.lo > 0: PATH.add(p >= b.lo * ta)
    r = Sym(p, a.lo * b.lo, a.hi * b.hi)
    PATH.cache[k] = r; PATH.keep.append((ta, tb))
    return r

def s_divmod_c(a, d):
    if type(a) is int: return divmod(a, d)
    if a.hi < d: return 0, a
    if d == 1: return a, 0
    t = a.t
    k = ('dm', cid(t), d)
    r = PATH.cache.get(k)
    if r is None:
        q = PATH.fresh('q'); m = PATH.fresh('r')
        PATH.add(t == q * d + m); PATH.add(m >= 0); PATH.add(m < d); PATH.add(q >= 0)
        r = (Sym(q, a.lo // d, a.hi // d), Sym(m, 0, d - 1))
        PATH.cache[k] = r; PATH.keep.append(t)
    return r
def s_mod_c(a, d):
    if type(a) is int: return a % d
    if a.hi < d: return a
    return s_divmod_c(a, d)[1]

def s_divmod(a, b):
    """caller guarantees b != 0 on this path"""
    if type(a) is int and type(b) is int: return divmod(a, b)
    if type(b) is int: return s_divmod_c(a, b)
    if type(a) is int and a == 0: return 0, 0
    ahi = a if type(a) is int else a.hi
    ta = tm(a); tb = b.t
    k = ('dms', cid(ta), cid(tb))
    r = PATH.cache.get(k)
    if r is None:
        q = PATH.fresh('q'); m = PATH.fresh('r')
        PATH.divs.append(tb)
        blo = max(1, b.lo)
        qs = Sym(q, 0, ahi // blo)
        PATH.add(q >= 0); PATH.add(q <= ahi // blo)
        p = s_mul(qs, b)
        PATH.add(ta == tm(p) + m); PATH.add(m >= 0); PATH.add(m < tb); PATH.add(q <= ta)
        r = (qs, Sym(m, 0, b.hi - 1))
        PATH.cache[k] = r; PATH.keep.append((ta, tb))
    return r

def s_add(a, b):
    if type(a) is int and type(b) is int: return a + b
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    return Sym(tm(a) + tm(b), lo_(a) + lo_(b), hi_(a) + hi_(b))
def s_sub_exact(a, b):
    """difference known to be >= 0 on this path"""
    if type(a) is int and type(b) is int: return a - b
    if type(b) is int and b == 0: return a
    return Sym(tm(a) - tm(b), max(0, lo_(a) - hi_(b)), hi_(a) - lo_(b))
def lo_(x): return x if type(x) is int else x.lo
def hi_(x): return x if type(x) is int else x.hi

def s_lt(a, b):
    if type(a) is int and type(b) is int: return int(a < b)
    if hi_(a) < lo_(b): return 1
    if lo_(a) >= hi_(b): return 0
    return mkbool(tm(a) < tm(b))
def s_le(a, b):
    if type(a) is int and type(b) is int: return int(a <= b)
    if hi_(a) <= lo_(b): return 1
    if lo_(a) > hi_(b): return 0
    return mkbool(tm(a) <= tm(b))
def s_eq(a, b):
    if type(a) is int and type(b) is int: return int(a == b)
    if a is b: return 1
    if hi_(a) < lo_(b) or lo_(a) > hi_(b): return 0
    if type(b) is int and type(a) is not int and a.b is not None:
        return a if b == 1 else s_not(a)
    if type(a) is int and b.b is not None:
        return b if a == 1 else s_not(b)
    return mkbool(tm(a) == tm(b))
def s_not(a):
    if type(a) is int: return 1 - a
    return mkbool(z3.Not(bt(a)))
def s_ne(a, b): return s_not(s_eq(a, b))

# ---------------------------------------------------------------- forking
class Forker:
    """forks the process at symbolic branches; tokens bound the number of live processes"""
    def __init__(self, ncpu):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        if ncpu > 1: os.write(self.w, b'x' * (ncpu - 1))
        self.has_token = False   # root does not hold a pipe token
        self.children = []
        self.enabled = True
        self.on_child = None
        self.depth = 0
    def try_token(self):
        try: return len(os.read(self.r, 1)) == 1
        except BlockingIOError: return False
    def fork(self):
        """returns True in child"""
        # reap finished children opportunistically
        tok = self.try_token()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            self.children = []; self.has_token = tok; self.depth += 1
            if self.on_child: self.on_child()
            return True
        if tok: self.children.append(pid)
        else: self.wait(pid)
        return False
    def wait(self, pid):
        while True:
            try:
                _, st = os.waitpid(pid, 0); break
            except InterruptedError: continue
        if st != 0: self.bad = getattr(self, 'bad', 0) + 1
    def finish(self):
        """called at the end of this process' own work; releases token before waiting for children"""
        if self.has_token: os.write(self.w, b'x'); self.has_token = False
        for p in self.children: self.wait(p)
        self.children = []

FORK = None   # set by run

def branch(c):
    """decide a symbolic condition; forks when both outcomes are feasible. returns bool"""
    if c is True or c is False: return c
    if type(c) is int: return c != 0
    if isinstance(c, Sym): c = bt(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    nc = z3.Not(c)
    f1 = PATH.feasible(c)
    if not f1:
        PATH.add(nc); return False
    f2 = PATH.feasible(nc)
    if not f2:
        PATH.add(c); return True
    if len(PATH.trace) > 400: raise Unsupported('path too deep')
    if FORK.fork():
        PATH.trace.append(0); PATH.add(nc); return False
    PATH.trace.append(1); PATH.add(c); return True

def concretize(x, limit=64, what=''):
    if type(x) is int: return x
    if x.lo == x.hi: return x.lo
    s = PATH.get_solver()
    for _ in range(limit):
        s.push()
        r = s.check()
        if r != z3.sat:
            s.pop(); raise Unsupported('concretize: no model ' + what)
        v = s.model().eval(x.t, model_completion=True).as_long()
        s.pop()
        if branch(x.t == v): return v
    raise Unsupported('concretize: too many values ' + what)
