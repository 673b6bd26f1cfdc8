"""Scenario runner: symbolic exploration of scenarios over the real code, obligations, confirmation by
replay on the compiled wasm, evidence."""
import os, sys, json, time, tempfile, shutil, traceback, re, signal
sys.setrecursionlimit(200000)
from . import sym, smt, build, hooks
from .engine import *
from .mem import *
from .host import *
from .codec import *
from . import engine as EN

NCPU = int(os.environ.get('VERIF_CPUS', '8'))
PROGS = {}
def prog(contract):
    if contract not in PROGS: PROGS[contract] = Prog(build.dump(contract)); PROGS[contract].cname = contract
    return PROGS[contract]

class Out: pass

class N128:
    """JSON string numeral (U128 / U64 wrappers)"""
    def __init__(self, v): self.v = v

class B64:
    """JSON string: base64 of (possibly symbolic) bytes"""
    def __init__(self, v): self.v = to_alloc(v)

def J(x):
    """python value -> JSON bytes with symbolic numerals as tokens"""
    if isinstance(x, N128):
        v = x.v
        return '"%s"' % (v if isinstance(v, int) else hooks.token(v))
    if isinstance(x, B64):
        import base64
        return '"%s"' % (hooks.token(x.v) if x.v.rel else base64.b64encode(bytes(x.v.data)).decode())
    if isinstance(x, Sym): return str(hooks.magic(x))
    if isinstance(x, bool): return 'true' if x else 'false'
    if x is None: return 'null'
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return json.dumps(x)
    if isinstance(x, (list, tuple)): return '[' + ','.join(J(y) for y in x) + ']'
    if isinstance(x, dict): return '{' + ','.join(json.dumps(k) + ':' + J(v) for k, v in x.items()) + '}'
    raise TypeError(x)

def unJ(a):
    """return value bytes -> python, tokens back to symbolic values"""
    t = bytes(a.data).decode()
    if a.rel: raise Unsupported('symbolic bytes in JSON')
    t = re.sub(r'(?<!")(@\d+@)(?!")', r'"\1"', t)
    def m(x):
        if isinstance(x, str): return hooks.TOKENS.get(x, x)
        if isinstance(x, list): return [m(y) for y in x]
        if isinstance(x, dict): return {k: m(v) for k, v in x.items()}
        return x
    return m(json.loads(t))

class Cx:
    """one path of a scenario"""
    def __init__(self, run, model=None):
        self.run = run; self.model = model; self.calls = []; self.labels = []; self.failed = []
        self.ghost = {}
    # ---- inputs
    def int(self, name, lo, hi):
        if self.model is not None:
            v = self.model.get(name, lo)
            return max(lo, min(hi, v)) if False else v
        return inp(name, lo, hi)
    def u128(self, name, lo=0, hi=(1 << 128) - 1): return self.int(name, lo, hi)
    def bool(self, name): return self.int(name, 0, 1)
    def choose(self, name, options):
        """symbolic selection among finitely many options (forks)"""
        i = self.int(name, 0, len(options) - 1)
        return options[concretize(i, what=name)]
    def account(self, name, n):
        """a symbolic account id of n characters (as raw bytes)"""
        v = self.int(name, 0, (1 << (8 * n)) - 1)
        if isinstance(v, int):
            return b2a(v.to_bytes(n, 'little'))
        # every byte is an allowed account character: restrict to printable subset by construction of models
        for i in range(n):
            b = s_mod_c(s_divmod_c(v, 1 << (8 * i))[0], 256)
            assume(z3.And(tm(b) >= 97, tm(b) <= 122))
        return sym_bytes(v, n)
    def assume(self, c):
        if isinstance(c, Sym): c = bt(c)
        if c is True or (isinstance(c, int) and c): return
        if c is False or isinstance(c, int): raise PathEnd('infeasible')
        c = z3.simplify(c) if self.model is not None else c
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd('infeasible')
        PATH.add(c)
    def feasible(self):
        if self.model is None and not PATH.feasible(z3.BoolVal(True)): raise PathEnd('infeasible')
    def branch(self, c): return branch(c)
    # ---- obligations
    def prove(self, label, goal, timeout=None, lemmas=(), mult=()):
        """obligation; lemmas are proved first (as obligations of their own) and may then be used"""
        if isinstance(goal, Sym): goal = bt(goal)
        for i, l in enumerate(lemmas): self.prove('%s (step %d)' % (label, i + 1), l, timeout)
        if self.model is not None:
            if not isinstance(goal, (bool, int)): goal = z3.is_true(z3.simplify(goal))
            if not goal: self.failed.append(label)
            return
        if not isinstance(goal, (bool, int)):
            if goal.get_id() in PATH.proved: return
        r = smt.prove(goal, timeout or self.run.timeout, lemmas, mult)
        if r[0] == 'proved' and not isinstance(goal, (bool, int)): PATH.proved[goal.get_id()] = goal
        rec = {'t': 'ob', 'label': label, 'r': r[0], 'how': r[1] if r[0] != 'cex' else None, 'trace': ''.join(map(str, PATH.trace[-80:]))}
        if r[0] == 'unknown' and os.environ.get('VERIF_DEBUG'):
            with open('/tmp/unk-%d.txt' % os.getpid(), 'w') as f: f.write('%s\n%s\nLEM %s\nNL %s\nDIVS %s\n%s' % (label, goal, lemmas, PATH.nl, PATH.divs, '\n'.join(map(str, PATH.cons))))
        if r[0] == 'cex': rec['model'] = {k: str(v) for k, v in r[1].items()}
        self.run.emit(rec)
        if r[0] == 'cex': raise PathEnd('stop', label)
        if isinstance(goal, int) and not goal or not isinstance(goal, int) and z3.is_false(goal): raise PathEnd('infeasible')
    def prove_known(self, label, goal, fid, cond):
        """obligation with a recorded finding: outside cond it must hold; inside cond a failure is the finding fid"""
        g = goal if not isinstance(goal, Sym) else bt(goal)
        c = cond if not isinstance(cond, Sym) else bt(cond)
        if isinstance(g, int): g = z3.BoolVal(bool(g))
        if isinstance(c, int): c = z3.BoolVal(bool(c))
        if self.model is not None:
            gv, cv = z3.is_true(z3.simplify(g)), z3.is_true(z3.simplify(c))
            if not gv: self.failed.append('known:' + fid if cv else label)
            return
        r = smt.prove(z3.Or(g, z3.Not(c)), self.run.timeout)
        if r[0] == 'cex': self.run.emit({'t': 'known', 'id': fid, 'model': {k: str(v) for k, v in r[1].items()}})
        self.prove(label, z3.Or(g, c))
    def known(self, *conds):
        """those of the candidate facts that the linear part of the path condition already implies (used as proof hints)"""
        if self.model is not None: return []
        return [c for c in conds if smt.z3lia(PATH.cons + [z3.Not(c)], 2000000)[0] == z3.unsat]
    def divisors(self): return list(PATH.divs) if self.model is None else []
    def fail(self, label):
        """this path must be infeasible"""
        self.prove(label, False)
    def reach(self, label):
        """vacuity witness: some path reaches this point with satisfiable constraints"""
        if self.model is None and label not in self.labels: self.labels.append(label)
    # ---- running contract code
    def call(self, contract, method, storage, args=None, balance=0, deposit=0, **kw):
        p = prog(contract)
        if isinstance(args, dict): args = J(args)
        if args is None: args = b'{}'
        if isinstance(args, Alloc) and not args.rel and b'@' in bytes(args.data):
            # arguments produced by another contract: unquoted symbolic numerals are passed on as JSON numbers
            args = re.sub(r'(?<!")(@\d+@)(?!")', lambda m: str(hooks.magic(hooks.TOKENS[m.group(1)])) if m.group(1) in hooks.TOKENS else m.group(1), bytes(args.data).decode('latin1')).encode('latin1')
        h = Host(storage=storage.copy(), input=to_alloc(args), balance=s_add(balance, deposit), deposit=deposit, **kw)
        for k in ('current', 'signer', 'predecessor', 'signer_pk'): setattr(h, k, to_alloc(getattr(h, k)))
        bal0 = h.balance
        p.host = h
        p.reset_statics()
        o = Out()
        o.host = h; o.pre = storage; o.method = method; o.contract = contract
        self.run.ncalls += 1
        try:
            if method not in p.roots: raise Unsupported('no exported method ' + method)
            p.call(p.roots[method])
            o.ok = True; o.msg = None; o.storage = h.storage; o.receipts = h.receipts; o.ret = h.ret; o.balance = h.balance
        except PathEnd as e:
            if e.kind != 'panic': raise
            o.ok = False; o.msg = e.msg; o.storage = storage; o.receipts = []; o.ret = None; o.balance = bal0
        self.last = o
        if self.model is not None:
            self.calls.append(self.transcript(o, contract, method, storage, h, balance, bal0))
        return o
    def transcript(self, o, contract, method, storage, h, balance, bal0):
        def hx(a): return conc(a).hex()
        return {'contract': contract, 'method': method,
                'storage': [[hx(k), hx(v)] for k, v in storage.items()], 'input': hx(h.input),
                'ctx': {'current': hx(h.current), 'signer': hx(h.signer), 'signer_pk': hx(h.signer_pk), 'predecessor': hx(h.predecessor),
                        'block_index': str(h.block_index), 'timestamp': str(h.timestamp), 'epoch': str(h.epoch), 'balance': str(balance), 'locked': str(h.locked), 'prepaid': str(h.prepaid),
                        'deposit': str(h.deposit), 'view': h.view},
                'presults': [[x[0]] + [hx(y) for y in x[1:]] for x in h.presults],
                'validators': {k: str(v) for k, v in h.validators.items()}, 'validator_total': str(getattr(h, 'validator_total', 0)),
                'expect': {'ok': o.ok, 'msg': o.msg,
                           'storage': [[hx(k), hx(v)] for k, v in o.storage.items()] if o.ok else None,
                           'receipts': [{'to': hx(r['to']), 'deps': r['deps'], 'actions': [enc_act(a) for a in r['actions']]} for r in o.receipts],
                           'balance': str(o.balance) if o.ok else None, 'ret': hx(o.ret) if o.ret is not None else None}}
    def state(self, contract, storage, tname=None, key=b'STATE'):
        p = prog(contract)
        a = storage.get(b2a(key))
        if a is None: return None
        return Codec(p, storage).dec(tid(p, tname), a)
    def mkstate(self, contract, tname, value, storage=None, key=b'STATE'):
        p = prog(contract)
        s = storage or Storage()
        a = Codec(p, s).enc(tid(p, tname), value)
        s.put(b2a(key), a)
        return s

def conc(a):
    if a.rel: raise Unsupported('symbolic bytes in a concrete transcript')
    return bytes(a.data)
def enc_act(a):
    return {k: (conc(v).hex() if isinstance(v, Alloc) else str(v) if isinstance(v, int) and not isinstance(v, bool) else v) for k, v in a.items()}
def tid(p, name):
    for n, t in p.adts.items():
        if n == name or n.endswith('::' + name): return t
    s = schema(getattr(p, 'cname', None))
    if s and s['root'] == name:
        canon(p)
        if p.root_by_shape is not None: return p.root_by_shape
    raise Unsupported('type %s not found' % name)

class Run:
    def __init__(self, pid, tier='quick', timeout=20):
        self.pid = pid; self.tier = tier; self.timeout = timeout
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vrun-')
        self.file = os.path.join(self.dir, 'out')
        open(self.file, 'w').close()
        self.fd = os.open(self.file, os.O_WRONLY | os.O_APPEND)
        self.results = []     # (scenario, records)
        self.ncalls = 0
        self.executed = set()
        self.scn = {}
    def emit(self, rec):
        os.write(self.fd, (json.dumps(rec) + '\n').encode())
    def explore(self, name, fn, contracts=(), expect=()):
        """run scenario fn(cx) over all paths; expect = labels that must be reached"""
        for c in contracts: prog(c)
        self.scn[name] = (fn, list(expect))
        t0 = time.time()
        os.ftruncate(self.fd, 0)
        # warm-up in this process with a default concrete model (compiles the code once)
        self.warm(fn)
        pid = os.fork()
        if pid == 0:
            self.child(fn)
            os._exit(0)
        os.waitpid(pid, 0)
        recs = []
        for l in open(self.file):
            try: recs.append(json.loads(l))
            except ValueError: recs.append({'t': 'err', 'msg': 'garbled record'})
        self.results.append((name, recs, time.time() - t0))
        return recs
    def warm(self, fn):
        pass
    def child(self, fn):
        PATH.__init__(); hooks.TOKENS.clear(); hooks.MAGIC.clear()
        smt.STATS.update(queries=0, time=0.0)
        sym.FORK = Forker(NCPU)
        f = sym.FORK
        def onchild():
            PATH.nq = 0; PATH.tq = 0.0; smt.STATS.update(queries=0, time=0.0); self.ncalls = 0
        f.on_child = onchild
        cx = Cx(self)
        kind = 'done'; msg = ''
        try: fn(cx)
        except PathEnd as e: kind, msg = e.kind, e.msg
        except Unsupported as e: kind, msg = 'unsupported', str(e) + ' :: ' + where()
        except RecursionError as e: kind, msg = 'unsupported', 'recursion'
        except BaseException as e:
            kind, msg = 'error', ''.join(traceback.format_exception(e))[-1500:]
        # vacuity: the labels count only when the exact path condition is satisfiable
        lab = []
        if cx.labels and kind in ('done', 'panic', 'stop'):
            lab = cx.labels
            self.emit({'t': 'reach', 'labels': lab})
        ex = sorted({(c, PROGS[c].F_(i)['dp']) for c in PROGS for i in PROGS[c].executed if local(c, PROGS[c].F_(i)['dp'])})
        wit = None
        if kind in ('done', 'stop') and PATH.inputs and self.ncalls_path(cx):
            try: wit = self.witness()
            except Exception: wit = None
        self.emit({'wit': wit, 't': 'path', 'kind': kind, 'msg': msg[:3000], 'trace': ''.join(map(str, PATH.trace[-80:])), 'nq': PATH.nq + smt.STATS['queries'], 'tq': PATH.tq + smt.STATS['time'],
                   'cons': len(PATH.cons), 'nl': len(PATH.nl), 'calls': self.ncalls, 'fns': [c + ':' + d for c, d in ex]})
        f.finish()
        if getattr(f, 'bad', 0): self.emit({'t': 'err', 'msg': '%d child process(es) ended abnormally' % f.bad})
        os._exit(0)
    def ncalls_path(self, cx): return hasattr(cx, 'last')
    def witness(self):
        r, m = smt.z3lia(PATH.cons, 3000000)
        if r == z3.unsat: return 'infeasible'
        if r == z3.sat and smt.model_ok(m, PATH.nl): return {k: str(v) for k, v in smt.getmodel(m).items()}
        if self.tier == 'thorough' and PATH.nl:
            e = smt.external(PATH.cons + [p == a * b for p, a, b in PATH.nl], 5)
            if e[0] == 'cex' and e[1]: return {k: str(v) for k, v in e[1].items()}
        return None
    # ---- concrete re-execution of a counterexample
    def concrete(self, name, model):
        fn = self.scn[name][0]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            PATH.__init__(); hooks.TOKENS.clear(); hooks.MAGIC.clear()
            cx = Cx(self, model)
            class NoFork:
                def fork(self): raise Unsupported('symbolic branch in concrete run')
            sym.FORK = NoFork()
            kind = 'done'; msg = ''
            try: fn(cx)
            except PathEnd as e: kind, msg = e.kind, e.msg
            except BaseException as e: kind, msg = 'error', ''.join(traceback.format_exception(e))[-1500:]
            b = json.dumps({'kind': kind, 'msg': msg, 'failed': cx.failed, 'calls': cx.calls}).encode()
            with os.fdopen(w, 'wb') as f: f.write(b)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f: b = f.read()
        os.waitpid(pid, 0)
        return json.loads(b) if b else {'kind': 'error', 'msg': 'no result', 'failed': [], 'calls': []}

def replay(calls):
    """run concrete transcripts on the compiled wasm; returns list of mismatch descriptions (empty = agrees)"""
    import subprocess
    w = {c: build.wasm(c) for c in {x['contract'] for x in calls}}
    d = tempfile.mkdtemp(prefix='vreplay-')
    try:
        f = os.path.join(d, 'job.json')
        json.dump({'wasm': w, 'calls': calls}, open(f, 'w'))
        p = subprocess.run(['node', '--stack-size=4000', os.path.join(build.VERIF, 'vt', 'replay.js'), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if p.returncode: return ['replay failed: ' + p.stderr[-800:]]
        res = json.loads(p.stdout)
    finally: shutil.rmtree(d, ignore_errors=True)
    bad = []
    for i, (c, r) in enumerate(zip(calls, res)):
        e = c['expect']; tag = 'call %d %s.%s: ' % (i, c['contract'], c['method'])
        if e['ok'] != r['ok']: bad.append(tag + 'predicted ok=%s (%s), wasm ok=%s (%s)' % (e['ok'], e['msg'], r['ok'], r.get('msg'))); continue
        if not e['ok']: continue
        if sorted(map(tuple, e['storage'])) != sorted(map(tuple, r['storage'])): bad.append(tag + 'storage differs %s | %s' % ([x for x in sorted(map(tuple, e['storage'])) if list(x) not in r['storage']][:2], [x for x in sorted(map(tuple, r['storage'])) if list(x) not in e['storage']][:2]))
        if e['receipts'] != r['receipts']: bad.append(tag + 'receipts differ %s %s' % (json.dumps(e['receipts'])[:400], json.dumps(r['receipts'])[:400]))
        if e['balance'] != r['balance']: bad.append(tag + 'balance differs')
        if e['ret'] != r['ret'] and not same_unordered(e['ret'], r['ret']): bad.append(tag + 'return value differs %s %s' % (e['ret'], r['ret']))
    return bad

def same_unordered(a, b):
    """equal as JSON up to the order of arrays (the iteration order of a HashMap/HashSet is abstracted)"""
    def n(x):
        if isinstance(x, list): return sorted((n(y) for y in x), key=repr)
        if isinstance(x, dict): return sorted((k, repr(n(v))) for k, v in x.items())
        return x
    try: return n(json.loads(bytes.fromhex(a))) == n(json.loads(bytes.fromhex(b)))
    except (ValueError, TypeError): return False

def known_findings():
    try: return json.load(open(os.path.join(build.VERIF, 'known_findings.json')))
    except OSError: return []

def finish(run, bounds, assumptions, functions_note=''):
    """collate, confirm, report; returns the exit code"""
    pid = run.pid
    inconclusive = []; violations = []; obs = 0; proved = 0; paths = 0; calls = 0; nq = 0; tq = 0.0; fns = set(); kinds = {}
    labels = {}; samples = []; witnesses = []; hows = {}; known = {}
    for name, recs, dt in run.results:
        got = set(); dead = 0
        fn, expect = run.scn[name]
        cexs = []
        for r in recs:
            if r['t'] == 'ob':
                obs += 1
                if r['r'] == 'proved':
                    proved += 1; hows[r['how']] = hows.get(r['how'], 0) + 1
                elif r['r'] == 'cex': cexs.append(r)
                elif r['r'] == 'unknown': inconclusive.append('%s: obligation %s undecided (%s)' % (name, r['label'], r['how']))
            elif r['t'] == 'known':
                known.setdefault(r['id'], []).append((name, r))
            elif r['t'] == 'reach': got |= set(r['labels'])
            elif r['t'] == 'path':
                paths += 1; calls += r['calls']; nq += r['nq']; tq += r['tq']; fns |= set(r['fns'])
                kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
                if r['kind'] in ('unsupported', 'error'): inconclusive.append('%s: %s %s' % (name, r['kind'], r['msg']))
                if isinstance(r.get('wit'), dict): witnesses.append((name, {k: int(v) for k, v in r['wit'].items()}))
            elif r['t'] == 'err': inconclusive.append('%s: %s' % (name, r['msg']))
        for l in expect:
            if l not in got and not cexs: inconclusive.append('%s: vacuous, no path reached "%s"' % (name, l))
        seen = set()
        for r in cexs:
            if r['label'] in seen and len(seen) >= 1: continue
            if len(violations) >= 2: break
            c = run.concrete(name, {k: int(v) for k, v in r['model'].items()})
            if r['label'] not in c['failed']:
                inconclusive.append('%s: counterexample to %s did not reproduce in the concrete run (%s %s failed=%s)' % (name, r['label'], c['kind'], c['msg'][-600:], c['failed'])); continue
            try: bad = replay(c['calls'])
            except build.BuildError as e: bad = ['wasm build: ' + str(e)[-500:]]
            if bad: inconclusive.append('%s: counterexample to %s: real wasm disagrees with the encoding: %s' % (name, r['label'], '; '.join(bad)[:1500])); continue
            seen.add(r['label'])
            d = os.path.join(build.VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
            f = os.path.join(d, '%s-%s-%d.json' % (pid, re.sub(r'[^A-Za-z0-9]+', '_', name + '-' + r['label'])[:80], len(violations)))
            json.dump({'property': pid, 'scenario': name, 'label': r['label'], 'model': r['model'], 'calls': c['calls']}, open(f, 'w'), indent=1)
            violations.append((name, r['label'], f))
    # known findings: confirmed on the wasm, must be listed
    listed = {k['id']: k for k in known_findings() if k['property'] == pid and k.get('status') != 'fixed'}
    for kid, lst in known.items():
        name, r = lst[0]
        if kid in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, listed[kid]['what']))
        else:
            c = run.concrete(name, {k: int(v) for k, v in r['model'].items()})
            bad = replay(c['calls']) if ('known:' + kid) in c['failed'] else ['did not reproduce ' + c['msg']]
            if bad: inconclusive.append('%s: finding %s: %s' % (name, kid, '; '.join(bad)[:800]))
            else:
                d = os.path.join(build.VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
                f = os.path.join(d, '%s-%s.json' % (pid, kid))
                json.dump({'property': pid, 'scenario': name, 'label': kid, 'model': r['model'], 'calls': c['calls']}, open(f, 'w'), indent=1)
                violations.append((name, kid, f))
    # differential validation of the encoding on path witnesses
    validated = 0
    if not violations:
        import random
        rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        lim = 8 if run.tier == 'quick' else 200
        byname = {}
        for n, m in witnesses: byname.setdefault(n, []).append(m)
        pick = []
        for n in byname: rnd.shuffle(byname[n])
        while len(pick) < lim and any(byname.values()):
            for n in sorted(byname):
                if byname[n] and len(pick) < lim: pick.append((n, byname[n].pop()))
        allc = []; own = []
        for n, m in pick:
            c = run.concrete(n, m)
            if c['kind'] in ('error', 'unsupported'): inconclusive.append('%s: witness run failed: %s' % (n, c['msg'][-700:])); continue
            c['failed'] = [l for l in c['failed'] if not (l.startswith('known:') and l[6:] in listed)]
            if c['failed']: inconclusive.append('%s: witness of a proved path fails %s concretely' % (n, c['failed'])); continue
            allc += c['calls']; own += [n] * len(c['calls'])
            if len(samples) < 3 and c['calls']:
                x = c['calls'][0]
                samples.append({'scenario': n, 'model': {k: str(v) for k, v in m.items()}, 'call': x['contract'] + '.' + x['method'], 'input': bytes.fromhex(x['input']).decode('latin1')[:300], 'outcome': 'ok' if x['expect']['ok'] else x['expect']['msg'][:200]})
        if allc:
            try: bad = replay(allc)
            except build.BuildError as e: bad = ['wasm build: ' + str(e)[-800:]]
            if bad: inconclusive.append('encoding disagrees with the compiled wasm: ' + ' | '.join(bad)[:2000])
            validated = len(allc)
    for n, l, f in violations: print('VIOLATION property=%s replay=%s   (%s: %s)' % (pid, f, n, l))
    ev = {'property': pid, 'tier': run.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': paths, 'transitions': calls, 'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no witness sampled'}],
                       'obligations': obs, 'discharged': proved, 'discharged_by': hows, 'queries': nq, 'solver_time_s': round(tq, 2), 'path_ends': kinds,
                       'scenarios': [{'name': n, 'paths': sum(1 for r in recs if r['t'] == 'path'), 'obligations': sum(1 for r in recs if r['t'] == 'ob'), 'wall_s': round(dt, 2)} for n, recs, dt in run.results],
                       'functions_encoded': sorted(fns), 'bounds': bounds, 'inconclusive': inconclusive[:20],
                       'explanation': 'Symbolic execution of the MIR of the contract (rebuilt from /repo on this run) with symbolic inputs and pre-state; states = explored symbolic paths, transitions = contract entry points executed symbolically, every obligation is an SMT query over all values within the bounds.'},
          'assumptions': list(assumptions), 'wall_s': round(time.time() - run.t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(build.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    shutil.rmtree(run.dir, ignore_errors=True)
    print('%s: %d scenarios, %d paths, %d/%d obligations discharged, %d replayed, %.1fs' % (pid, len(run.results), paths, proved, obs, validated, time.time() - run.t0))
    if violations: return 1
    if inconclusive:
        for x in inconclusive[:8]: print('INCONCLUSIVE ' + x[:1500])
        return 2
    return 0

CRATES = build.CONTRACTS
def local(c, dp):
    cr = CRATES[c]
    return dp.startswith(cr + '::') or dp.startswith('<' + cr + '::') or ('<' + cr) in dp
def where():
    tb = sys.exc_info()[2]; names = []
    while tb:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith('mir:'): names.append(fn.split(':', 2)[2])
        tb = tb.tb_next
    return ' > '.join(names[-5:])
