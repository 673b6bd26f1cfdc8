"""Shared helpers for the property modules."""
import os, sys, json, z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.lib import *
from vt.sym import *
from vt.engine import mem_eq
from vt import smt as SMT

YOCTO = 10 ** 24
SUPPLY = 10 ** 34           # bound on every token amount (ten times the 10^9 NEAR supply)
U64 = (1 << 64) - 1
U128 = (1 << 128) - 1
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If

def B(x):
    if isinstance(x, Sym): return bt(x)
    if isinstance(x, (bool, int)): return z3.BoolVal(bool(x))
    return x
def eqb(a, b):
    """byte-string equality (Alloc / str / bytes) as a z3 Bool"""
    a, b = to_alloc(a), to_alloc(b)
    if len(a.data) != len(b.data): return z3.BoolVal(False)
    return B(mem_eq(a, 0, b, 0, len(a.data)))
def text(a): return show(to_alloc(a))
def mul(a, b): return tm(s_mul(a, b))
def add(*xs):
    r = 0
    for x in xs: r = s_add(r, x)
    return r
def sub(a, b):
    """difference as a z3 term (may be negative)"""
    return tm(a) - tm(b)

def V(t, lo=0, hi=10 ** 60):
    """symbolic scalar from a term known to lie in [lo, hi]; a plain number when the term is one"""
    c = z3.simplify(t)
    if z3.is_int_value(c): return c.as_long()
    return Sym(t, lo, hi)

def similar(*ids):
    """account ids that resemble the given ones: prefixes, extensions, sub-accounts"""
    return [y for x in ids for y in (x[:-1], x + 'x', 'x' + x, 'x.' + x, x + '.x')]
def caller(cx, *ids):
    """any account of the length of the (equally long) ids, or one that resembles them"""
    k = cx.choose('caller', [None] + similar(*ids))
    return cx.account('who', len(ids[0])) if k is None else k

PROPS = {}
def prop(pid, bounds=None, assumptions=()):
    def d(f):
        PROPS[pid] = (f, bounds or {}, list(assumptions)); return f
    return d

BASE_ASSUMPTIONS = [
    'NEAR host functions follow the model of vt/host.py (near-vm-logic semantics; checked on every run by replaying path witnesses on the wasm compiled from the same tree through the independent host of vt/replay.js, which shares the same reading of the protocol)',
    'gas is not metered: a call never runs out of gas, and prepaid/used gas are fixed numbers',
    'U256 of the staking pool (the uint crate) is interpreted as exact integer arithmetic with checked range; memory copy/compare, allocation, number formatting and number parsing are intrinsics of the engine',
    'token amounts are at most 10^34 yoctoNEAR (ten times the total supply) unless a bound below says otherwise',
    'MIR is produced by the nightly rustc at mir-opt-level 2 for wasm32 from /repo, with the overflow-check setting of the contract\'s own release profile; hash iteration order / HashMap hashing is replaced by a constant hash',
]
