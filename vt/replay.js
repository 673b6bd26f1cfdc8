// Runs contract wasm on concrete transcripts (JSON on argv[2]: {wasm:{contract:path}, calls:[...]}) and prints outcomes.
const fs = require('fs'), crypto = require('crypto');
const job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const mods = {};
class Trap extends Error {}
const U64MAX = (1n << 64n) - 1n;
const hex = b => Buffer.from(b).toString('hex');
function runCall(c) {
  if (!mods[c.contract]) mods[c.contract] = new WebAssembly.Module(fs.readFileSync(job.wasm[c.contract]));
  const storage = new Map(c.storage.map(([k, v]) => [k, Buffer.from(v, 'hex')]));
  const regs = new Map(); const X = c.ctx;
  let mem, ret = null, logs = [], retPromise = null;
  let balance = BigInt(X.balance) + BigInt(X.deposit);
  let usage = 100000n;
  const receipts = [], promises = [];
  const u8 = () => new Uint8Array(mem.buffer);
  const U = x => BigInt.asUintN(64, x);
  const rd = (len, ptr) => { const l = Number(U(len)), p = Number(U(ptr)); const m = u8(); if (p + l > m.length) throw new Trap('MemoryAccessViolation'); return Buffer.from(m.slice(p, p + l)); };
  const wr = (ptr, b) => { u8().set(b, Number(U(ptr))); };
  const getb = (len, ptr) => { if (U(len) === U64MAX) { const r = regs.get(U(ptr)); if (r === undefined) throw new Trap('InvalidRegisterId'); return r; } return rd(len, ptr); };
  const rd128 = p => { const b = rd(16n, p); return b.readBigUInt64LE(0) | (b.readBigUInt64LE(8) << 64n); };
  const wr128 = (p, v) => { const b = Buffer.alloc(16); b.writeBigUInt64LE(v & U64MAX, 0); b.writeBigUInt64LE(v >> 64n, 8); wr(p, b); };
  const setr = (r, b) => regs.set(U(r), Buffer.from(b));
  const hx = s => Buffer.from(s, 'hex');
  const noview = () => { if (X.view) throw new Trap('ProhibitedInView'); };
  const deps = i => { i = Number(U(i)); if (i >= promises.length) throw new Trap('InvalidPromiseIndex'); return promises[i].k === 'r' ? [promises[i].i] : promises[i].d.slice(); };
  const rec = i => { noview(); i = Number(U(i)); if (i >= promises.length) throw new Trap('InvalidPromiseIndex'); if (promises[i].k !== 'r') throw new Trap('CannotAppendActionToJointPromise'); return receipts[promises[i].i]; };
  const newrec = (to, d) => { noview(); receipts.push({ to: hex(to), deps: d, actions: [] }); promises.push({ k: 'r', i: receipts.length - 1 }); return BigInt(promises.length - 1); };
  const pay = a => { if (a > balance) throw new Trap('BalanceExceeded'); balance -= a; };
  const fcall = (i, m, args, amt, gas) => { const r = rec(i); if (m.length === 0) throw new Trap('EmptyMethodName'); pay(amt); r.actions.push({ k: 'call', method: hex(m), args: hex(args), amount: amt.toString(), gas: U(gas).toString() }); };
  const env = {
    read_register: (r, p) => { const b = regs.get(U(r)); if (b === undefined) throw new Trap('InvalidRegisterId'); wr(p, b); },
    register_len: r => { const b = regs.get(U(r)); return b === undefined ? U64MAX : BigInt(b.length); },
    write_register: (r, l, p) => setr(r, rd(l, p)),
    current_account_id: r => setr(r, hx(X.current)),
    signer_account_id: r => { noview(); setr(r, hx(X.signer)); }, signer_account_pk: r => { noview(); setr(r, hx(X.signer_pk)); },
    predecessor_account_id: r => { noview(); setr(r, hx(X.predecessor)); },
    input: r => setr(r, hx(c.input)), block_index: () => BigInt(X.block_index), block_timestamp: () => BigInt(X.timestamp),
    epoch_height: () => BigInt(X.epoch), storage_usage: () => usage,
    account_balance: p => wr128(p, balance), account_locked_balance: p => wr128(p, BigInt(X.locked)),
    attached_deposit: p => { noview(); wr128(p, BigInt(X.deposit)); },
    prepaid_gas: () => BigInt(X.prepaid), used_gas: () => 1000000000000n,
    random_seed: r => setr(r, Buffer.alloc(32, 7)),
    sha256: (l, p, r) => setr(r, crypto.createHash('sha256').update(rd(l, p)).digest()),
    keccak256: () => { throw new Trap('keccak'); }, keccak512: () => { throw new Trap('keccak'); },
    validator_stake: (l, p, q) => wr128(q, BigInt(c.validators[getb(l, p).toString('latin1')] || '0')),
    validator_total_stake: q => wr128(q, BigInt(c.validator_total || '0')),
    value_return: (l, p) => { ret = getb(l, p); }, panic: () => { throw new Trap('explicit guest panic'); },
    panic_utf8: (l, p) => { throw new Trap('panic: ' + getb(l, p).toString()); },
    log_utf8: (l, p) => { logs.push(getb(l, p).toString()); }, log_utf16: (l, p) => { logs.push('utf16'); },
    abort: () => { throw new Trap('abort'); },
    promise_batch_create: (l, p) => newrec(getb(l, p), []), promise_batch_then: (i, l, p) => newrec(getb(l, p), deps(i)),
    promise_create: (al, ap, ml, mp, gl, gp, amt, gas) => { const i = newrec(getb(al, ap), []); fcall(i, getb(ml, mp), getb(gl, gp), rd128(amt), gas); return i; },
    promise_then: (pi, al, ap, ml, mp, gl, gp, amt, gas) => { const i = newrec(getb(al, ap), deps(pi)); fcall(i, getb(ml, mp), getb(gl, gp), rd128(amt), gas); return i; },
    promise_and: (p, n) => { noview(); let d = []; const b = rd(U(n) * 8n, p); for (let j = 0; j < Number(U(n)); j++) d = d.concat(deps(b.readBigUInt64LE(8 * j))); promises.push({ k: 'and', d }); return BigInt(promises.length - 1); },
    promise_batch_action_create_account: i => { rec(i).actions.push({ k: 'create' }); },
    promise_batch_action_deploy_contract: (i, l, p) => { rec(i).actions.push({ k: 'deploy', code: hex(getb(l, p)) }); },
    promise_batch_action_function_call: (i, ml, mp, al, ap, amt, gas) => fcall(i, getb(ml, mp), getb(al, ap), rd128(amt), gas),
    promise_batch_action_transfer: (i, amt) => { const r = rec(i), a = rd128(amt); pay(a); r.actions.push({ k: 'transfer', amount: a.toString() }); },
    promise_batch_action_stake: (i, amt, l, p) => { rec(i).actions.push({ k: 'stake', amount: rd128(amt).toString(), key: hex(getb(l, p)) }); },
    promise_batch_action_add_key_with_full_access: (i, l, p, n) => { rec(i).actions.push({ k: 'addkey', key: hex(getb(l, p)), nonce: U(n).toString(), full: true }); },
    promise_batch_action_add_key_with_function_call: (i, l, p, n, al, rl, rp, ml, mp) => { rec(i).actions.push({ k: 'addkey', key: hex(getb(l, p)), nonce: U(n).toString(), full: false, allowance: rd128(al).toString(), receiver: hex(getb(rl, rp)), methods: hex(getb(ml, mp)) }); },
    promise_batch_action_delete_key: (i, l, p) => { rec(i).actions.push({ k: 'delkey', key: hex(getb(l, p)) }); },
    promise_batch_action_delete_account: (i, l, p) => { rec(i).actions.push({ k: 'delacct', beneficiary: hex(getb(l, p)) }); },
    promise_results_count: () => { noview(); return BigInt(c.presults.length); },
    promise_result: (i, r) => { noview(); i = Number(U(i)); if (i >= c.presults.length) throw new Trap('InvalidPromiseResultIndex'); const x = c.presults[i]; if (x[0] === 'ok') { setr(r, hx(x[1])); return 1n; } return x[0] === 'fail' ? 2n : 0n; },
    promise_return: i => { noview(); retPromise = deps(i); ret = null; },
    storage_write: (kl, kp, vl, vp, r) => { noview(); const k = hex(getb(kl, kp)), v = getb(vl, vp); const o = storage.get(k); storage.set(k, v);
      if (o === undefined) { usage += BigInt(k.length / 2 + v.length + 40); return 0n; } usage += BigInt(v.length - o.length); setr(r, o); return 1n; },
    storage_read: (kl, kp, r) => { const o = storage.get(hex(getb(kl, kp))); if (o === undefined) return 0n; setr(r, o); return 1n; },
    storage_remove: (kl, kp, r) => { noview(); const k = hex(getb(kl, kp)), o = storage.get(k); if (o === undefined) return 0n; storage.delete(k); usage -= BigInt(k.length / 2 + o.length + 40); setr(r, o); return 1n; },
    storage_has_key: (kl, kp) => storage.has(hex(getb(kl, kp))) ? 1n : 0n,
    storage_iter_prefix: () => { throw new Trap('deprecated'); }, storage_iter_range: () => { throw new Trap('deprecated'); }, storage_iter_next: () => { throw new Trap('deprecated'); },
    gas: () => {},
  };
  for (const imp of WebAssembly.Module.imports(mods[c.contract])) {
    if (imp.kind === 'function' && !(imp.name in env)) env[imp.name] = () => { throw new Trap('unknown import ' + imp.name); };
    if (imp.kind === 'memory') { mem = new WebAssembly.Memory({ initial: 1024, maximum: 2048 }); env[imp.name] = mem; }
  }
  const inst = new WebAssembly.Instance(mods[c.contract], { env });
  if (inst.exports.memory) mem = inst.exports.memory;
  try {
    if (!inst.exports[c.method]) throw new Trap('MethodNotFound ' + c.method);
    inst.exports[c.method]();
  } catch (e) {
    if (!(e instanceof Trap || e instanceof WebAssembly.RuntimeError)) throw e;
    return { ok: false, msg: String(e.message), logs };
  }
  return { ok: true, storage: [...storage].map(([k, v]) => [k, hex(v)]), receipts, balance: balance.toString(), ret: ret === null ? null : hex(ret), logs };
}
console.log(JSON.stringify(job.calls.map(runCall)));
