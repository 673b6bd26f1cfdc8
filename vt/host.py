"""Model of the NEAR host functions (near-vm-logic semantics, gas metering excluded)."""
import hashlib
from .engine import *
from .mem import *

U64MAX = (1 << 64) - 1
def b2a(b):
    a = Alloc(0); a.data = bytearray(b if isinstance(b, (bytes, bytearray)) else b.encode()); return a
def to_alloc(x):
    return x if isinstance(x, Alloc) else b2a(x)
def sym_bytes(v, n):
    a = Alloc(n); a.rel[0] = (n, v); return a
def show(a):
    """readable rendering of an Alloc (symbolic parts as {..})"""
    if not a.rel: return bytes(a.data).decode('latin1')
    out = b''; pos = 0
    for k in sorted(a.rel):
        sz, v = a.rel[k]
        out += bytes(a.data[pos:k]) + b'{sym}'; pos = k + sz
    return (out + bytes(a.data[pos:])).decode('latin1')

class Storage:
    def __init__(self): self.conc = {}; self.sym = []
    def copy(self):
        s = Storage(); s.conc = dict(self.conc); s.sym = list(self.sym); return s
    def locate(self, k):
        """returns ('c', bytes) | ('s', i) | None"""
        n = len(k.data)
        for i, (kk, v) in enumerate(self.sym):
            if len(kk.data) == n and branch(mem_eq(k, 0, kk, 0, n)): return ('s', i)
        if not k.rel:
            b = bytes(k.data)
            return ('c', b) if b in self.conc else None
        for b in list(self.conc):
            if len(b) == n and branch(mem_eq(k, 0, b2a(b), 0, n)): return ('c', b)
        return None
    def get(self, k):
        l = self.locate(k)
        if l is None: return None
        return self.conc[l[1]] if l[0] == 'c' else self.sym[l[1]][1]
    def put(self, k, v):
        l = self.locate(k)
        if l is None:
            if k.rel: self.sym.append((k, v))
            else: self.conc[bytes(k.data)] = v
            return None
        if l[0] == 'c': o = self.conc[l[1]]; self.conc[l[1]] = v
        else: o = self.sym[l[1]][1]; self.sym[l[1]] = (self.sym[l[1]][0], v)
        return o
    def rem(self, k):
        l = self.locate(k)
        if l is None: return None
        if l[0] == 'c': return self.conc.pop(l[1])
        return self.sym.pop(l[1])[1]
    def items(self): return [(b2a(k), v) for k, v in self.conc.items()] + list(self.sym)

class Host:
    def __init__(self, **kw):
        self.storage = Storage()
        self.regs = {}
        self.current = 'contract'; self.signer = 'signer'; self.signer_pk = b'\0' * 33
        self.predecessor = 'predecessor'; self.input = b''
        self.block_index = 1000; self.timestamp = 0; self.epoch = 1
        self.balance = 0          # includes the attached deposit
        self.locked = 0; self.deposit = 0
        self.usage = 100000
        self.prepaid = 300 * 10**12; self.used = 10**12
        self.view = False
        self.presults = []        # list of ('ok', Alloc) | ('fail',) | ('notready',)
        self.receipts = []; self.promises = []
        self.logs = []; self.ret = None; self.ret_promise = None
        self.validators = {}
        for k, v in kw.items(): setattr(self, k, v)
    def sset(self, key, val): self.storage.conc[key if isinstance(key, bytes) else key.encode()] = to_alloc(val)
    # ---- memory
    def rdm(self, ln, p):
        n = idx(num(ln))
        if n == 0: return Alloc(0)
        if p.__class__ is not Ptr: raise Unsupported('host pointer')
        return SB.from_mem(p.a, p.o, n)
    def getb(self, ln, p):
        """length U64MAX means register"""
        if ln.__class__ is int and ln == U64MAX:
            r = self.regs.get(idx(p))
            if r is None: raise PathEnd('panic', 'InvalidRegisterId')
            return r
        return self.rdm(ln, p)
    def setr(self, r, x):
        self.regs[idx(r)] = to_alloc(x)
    def rd128(self, p): return ld(p.a, p.o, 16)
    # ---- registers
    def h_read_register(self, r, p):
        a = self.regs.get(idx(r))
        if a is None: raise PathEnd('panic', 'InvalidRegisterId')
        if len(a.data): cp(a, 0, p.a, p.o, len(a.data))
    def h_register_len(self, r):
        a = self.regs.get(idx(r))
        return U64MAX if a is None else len(a.data)
    def h_write_register(self, r, ln, p): self.setr(r, self.rdm(ln, p))
    # ---- context
    def h_current_account_id(self, r): self.setr(r, self.current)
    def noview(self):
        if self.view: raise PathEnd('panic', 'ProhibitedInView')
    def h_signer_account_id(self, r): self.noview(); self.setr(r, self.signer)
    def h_signer_account_pk(self, r): self.noview(); self.setr(r, self.signer_pk)
    def h_predecessor_account_id(self, r): self.noview(); self.setr(r, self.predecessor)
    def h_input(self, r): self.setr(r, self.input)
    def h_block_index(self): return self.block_index
    def h_block_timestamp(self): return self.timestamp
    def h_epoch_height(self): return self.epoch
    def h_storage_usage(self): return self.usage
    def h_account_balance(self, p): st(p.a, p.o, 16, self.balance)
    def h_account_locked_balance(self, p): st(p.a, p.o, 16, self.locked)
    def h_attached_deposit(self, p): self.noview(); st(p.a, p.o, 16, self.deposit)
    def h_prepaid_gas(self): self.noview(); return self.prepaid
    def h_used_gas(self): self.noview(); return self.used
    def h_random_seed(self, r): self.setr(r, b'\x07' * 32)
    def h_sha256(self, ln, p, r):
        a = self.rdm(ln, p)
        if not a.rel: self.setr(r, hashlib.sha256(bytes(a.data)).digest()); return
        for k, v in PATH.shas:
            if len(k.data) == len(a.data) and branch(mem_eq(k, 0, a, 0, len(a.data))):
                self.setr(r, v); return
        v = PATH.fresh('sha'); PATH.add(v >= 0); PATH.add(v < (1 << 256))
        s = sym_bytes(Sym(v, 0, (1 << 256) - 1), 32)
        PATH.shas.append((a, s)); self.setr(r, s)
    def h_validator_stake(self, ln, p, q):
        a = self.getb(ln, p)
        for k, v in self.validators.items():
            kb = b2a(k)
            if len(kb.data) == len(a.data) and branch(mem_eq(kb, 0, a, 0, len(kb.data))):
                st(q.a, q.o, 16, v); return
        st(q.a, q.o, 16, 0)
    def h_validator_total_stake(self, q): st(q.a, q.o, 16, self.validator_total)
    # ---- output
    def h_value_return(self, ln, p): self.ret = self.getb(ln, p)
    def h_panic(self): raise PathEnd('panic', 'explicit guest panic')
    def h_panic_utf8(self, ln, p): raise PathEnd('panic', show(self.getb(ln, p)))
    def h_log_utf8(self, ln, p): self.logs.append(self.getb(ln, p))
    def h_log_utf16(self, ln, p): self.logs.append(self.getb(ln, p))
    # ---- storage
    def h_storage_write(self, kl, kp, vl, vp, r):
        self.noview()
        k = self.getb(kl, kp); v = self.getb(vl, vp)
        o = self.storage.put(k, v)
        self.writes = getattr(self, 'writes', 0) + 1
        if o is None:
            self.usage = s_add(self.usage, len(k.data) + len(v.data) + 40); return 0
        self.usage = s_sub_exact(s_add(self.usage, len(v.data)), len(o.data))
        self.setr(r, o); return 1
    def h_storage_read(self, kl, kp, r):
        o = self.storage.get(self.getb(kl, kp))
        if o is None: return 0
        self.setr(r, o); return 1
    def h_storage_remove(self, kl, kp, r):
        self.noview()
        k = self.getb(kl, kp)
        o = self.storage.rem(k)
        if o is None: return 0
        self.usage = s_sub_exact(self.usage, len(k.data) + len(o.data) + 40)
        self.setr(r, o); return 1
    def h_storage_has_key(self, kl, kp): return int(self.storage.get(self.getb(kl, kp)) is not None)
    # ---- promises
    def acct(self, ln, p):
        a = self.getb(ln, p)
        return a
    def newrec(self, acc, deps):
        self.noview()
        self.receipts.append({'to': acc, 'deps': deps, 'actions': []})
        self.promises.append(('r', len(self.receipts) - 1))
        return len(self.promises) - 1
    def deps_of(self, i):
        i = idx(i)
        if i >= len(self.promises): raise PathEnd('panic', 'InvalidPromiseIndex')
        k = self.promises[i]
        return [k[1]] if k[0] == 'r' else list(k[1])
    def rec(self, i):
        self.noview()
        i = idx(i)
        if i >= len(self.promises): raise PathEnd('panic', 'InvalidPromiseIndex')
        k = self.promises[i]
        if k[0] != 'r': raise PathEnd('panic', 'CannotAppendActionToJointPromise')
        return self.receipts[k[1]]
    def pay(self, amt):
        if not branch(s_le(amt, self.balance)): raise PathEnd('panic', 'BalanceExceeded')
        self.balance = s_sub_exact(self.balance, amt)
    def h_promise_batch_create(self, ln, p): return self.newrec(self.acct(ln, p), [])
    def h_promise_batch_then(self, i, ln, p): return self.newrec(self.acct(ln, p), self.deps_of(i))
    def h_promise_create(self, al, ap, ml, mp, gl, gp, amt, gas):
        i = self.newrec(self.acct(al, ap), []); self.h_promise_batch_action_function_call(i, ml, mp, gl, gp, amt, gas); return i
    def h_promise_then(self, pi, al, ap, ml, mp, gl, gp, amt, gas):
        i = self.newrec(self.acct(al, ap), self.deps_of(pi)); self.h_promise_batch_action_function_call(i, ml, mp, gl, gp, amt, gas); return i
    def h_promise_and(self, p, n):
        self.noview()
        n = idx(n); d = []
        for j in range(n): d += self.deps_of(ld(p.a, p.o + 8 * j, 8))
        self.promises.append(('and', d)); return len(self.promises) - 1
    def act(self, i, **kw): self.rec(i)['actions'].append(kw)
    def h_promise_batch_action_create_account(self, i): self.act(i, k='create')
    def h_promise_batch_action_deploy_contract(self, i, ln, p): self.act(i, k='deploy', code=self.getb(ln, p))
    def h_promise_batch_action_function_call(self, i, ml, mp, al, ap, amt, gas):
        self.rec(i)
        m = self.getb(ml, mp)
        if len(m.data) == 0: raise PathEnd('panic', 'EmptyMethodName')
        amt = self.rd128(amt); args = self.getb(al, ap)
        self.pay(amt)
        self.act(i, k='call', method=m, args=args, amount=amt, gas=gas)
    def h_promise_batch_action_transfer(self, i, amt):
        self.rec(i)
        amt = self.rd128(amt); self.pay(amt); self.act(i, k='transfer', amount=amt)
    def h_promise_batch_action_stake(self, i, amt, ln, p): self.act(i, k='stake', amount=self.rd128(amt), key=self.getb(ln, p))
    def h_promise_batch_action_add_key_with_full_access(self, i, ln, p, nonce): self.act(i, k='addkey', key=self.getb(ln, p), nonce=nonce, full=True)
    def h_promise_batch_action_add_key_with_function_call(self, i, ln, p, nonce, al, rl, rp, ml, mp):
        self.act(i, k='addkey', key=self.getb(ln, p), nonce=nonce, full=False, allowance=self.rd128(al), receiver=self.getb(rl, rp), methods=self.getb(ml, mp))
    def h_promise_batch_action_delete_key(self, i, ln, p): self.act(i, k='delkey', key=self.getb(ln, p))
    def h_promise_batch_action_delete_account(self, i, ln, p): self.act(i, k='delacct', beneficiary=self.getb(ln, p))
    def h_promise_results_count(self): self.noview(); return len(self.presults)
    def h_promise_result(self, i, r):
        self.noview()
        i = idx(i)
        if i >= len(self.presults): raise PathEnd('panic', 'InvalidPromiseResultIndex')
        x = self.presults[i]
        if x[0] == 'ok': self.setr(r, x[1]); return 1
        return 2 if x[0] == 'fail' else 0
    def h_promise_return(self, i): self.noview(); self.ret_promise = self.deps_of(i); self.ret = None
