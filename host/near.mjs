// A small deterministic NEAR runtime that executes the contracts' real wasm.
//
// It implements the host interface that near-sdk 2.x/3.x/4.x contracts import, and the receipt
// semantics of the protocol (batched actions are atomic, a failed receipt refunds its deposits to
// its predecessor, callbacks get the result of what they wait for, `promise_return` forwards).
// What a node decides by itself (which receipt runs next, whether a remote call or a stake action
// succeeds, how epochs, rewards and time advance) is left to the caller, so that a driver can
// enumerate schedules and faults. Nothing here touches anything outside this process.
import fs from 'fs';
import crypto from 'crypto';

export const TGAS = 1_000_000_000_000n;
const CALL_BURN = 2n * TGAS; // flat price of running one function call
const U64MAX = 0xffffffffffffffffn;
const te = new TextEncoder(), td = new TextDecoder();
const L1 = { enc: (s) => Buffer.from(s, 'latin1'), dec: (b) => Buffer.from(b.buffer, b.byteOffset, b.length).toString('latin1') };

export class HostError extends Error {}
class Panic extends HostError {}

const ACCOUNT_RE = /^(([a-z\d]+[-_])*[a-z\d]+\.)*([a-z\d]+[-_])*[a-z\d]+$/;
export const validAccountId = (s) => s.length >= 2 && s.length <= 64 && ACCOUNT_RE.test(s);

// ---- compiled code, shared by every chain of this process -------------------------------------
const modules = new Map();
export function loadCode(bytes) {
  const hash = crypto.createHash('sha256').update(bytes).digest('hex');
  let m = modules.get(hash);
  if (!m) {
    let mod = null;
    try { mod = new WebAssembly.Module(withStackPointer(bytes)); } catch (e) { mod = null; }
    m = { hash, size: bytes.length, mod, exports: mod ? new Set(WebAssembly.Module.exports(mod).filter((e) => e.kind === 'function').map((e) => e.name)) : new Set() };
    modules.set(hash, m);
  }
  return m;
}
export const loadFile = (f) => loadCode(fs.readFileSync(f));

// The compiled module additionally exports its stack pointer (the first global), so that an instance whose
// call trapped can be rewound and used again.
function withStackPointer(b) {
  const leb = (i) => { let v = 0, s = 0, x; do { x = b[i++]; v |= (x & 127) << s; s += 7; } while (x & 128); return [v, i]; };
  const put = (v) => { const o = []; do { let x = v & 127; v >>>= 7; if (v) x |= 128; o.push(x); } while (v); return o; };
  let i = 8, globals = false;
  while (i < b.length) {
    const id = b[i]; const [n, body] = leb(i + 1);
    if (id === 6) { const [k, j] = leb(body); globals = k > 0 && b[j] === 0x7f && b[j + 1] === 1; }
    if (id === 7 && globals) {
      const [count, rest] = leb(body); const name = te.encode('__vt_sp');
      const sec = [...put(count + 1), ...b.subarray(rest, body + n), name.length, ...name, 3, 0];
      return Buffer.concat([b.subarray(0, i), Buffer.from([7, ...put(sec.length), ...sec]), b.subarray(body + n)]);
    }
    i = body + n;
  }
  return b;
}

class Account {
  constructor() { this.balance = 0n; this.locked = 0n; this.stake = null; this.code = null; this.storage = new Map(); this.keys = new Map(); this.stub = false; this.shared = false; }
  clone() { const a = new Account(); a.balance = this.balance; a.locked = this.locked; a.stake = this.stake; a.code = this.code; a.storage = this.storage; a.keys = this.keys; a.stub = this.stub; a.shared = true; this.shared = true; return a; }
  own() { if (this.shared) { this.storage = new Map(this.storage); this.keys = new Map(this.keys); this.shared = false; } }
  usage() { let u = 100 + (this.code ? this.code.size : 0); for (const [k, v] of this.storage) u += k.length + v.length + 40; for (const [k, p] of this.keys) u += 100; return u; }
}

export class Chain {
  constructor() {
    this.accounts = new Map(); this.epoch = 0n; this.time = 0n; this.block = 1n; this.validators = new Map();
    this.validatorTotal = null; // when set, the total stake; otherwise the sum of validators
    this.receipts = []; this.nextId = 1; this.seed = 7; this.forceStake = null; this.lastLogs = [];
  }
  snapshot() {
    const c = new Chain();
    for (const [k, a] of this.accounts) c.accounts.set(k, a.clone());
    c.epoch = this.epoch; c.time = this.time; c.block = this.block; c.validators = new Map(this.validators); c.validatorTotal = this.validatorTotal;
    c.receipts = this.receipts.map((r) => ({ ...r, inputs: r.inputs.map((i) => ({ ...i })), outputs: r.outputs.slice() }));
    c.nextId = this.nextId; c.seed = this.seed; c.forceStake = this.forceStake; c.stubHandler = this.stubHandler;
    return c;
  }
  account(id) { return this.accounts.get(id); }
  create(id, { balance = 0n, code = null, stub = false, locked = 0n } = {}) {
    const a = new Account(); a.balance = balance; a.code = code; a.stub = stub; a.locked = locked; this.accounts.set(id, a); return a;
  }

  // ---- receipts -------------------------------------------------------------------------------
  newReceipt(predecessor, receiver, extra = {}) {
    return { id: this.nextId++, predecessor, receiver, signer: predecessor, signerPk: new Uint8Array(33), actions: [], inputs: [], outputs: [], ...extra };
  }
  ready(r) { return r.inputs.every((i) => i.value !== undefined); }
  // Executes one pending receipt (by id). Returns { ok, value, logs, created:[receipt], error }.
  run(id, opts = {}) {
    const ix = this.receipts.findIndex((r) => r.id === id);
    if (ix < 0) throw new Error('no such receipt ' + id);
    const r = this.receipts[ix];
    if (!this.ready(r)) throw new Error('receipt not ready ' + id);
    this.receipts.splice(ix, 1);
    return this.apply(r, opts);
  }
  // Submit a transaction's actions as one receipt and run it right away.
  submit(signer, receiver, actions, opts = {}) {
    const r = this.newReceipt(opts.predecessor ?? signer, receiver, { signer, signerPk: opts.signerPk ?? new Uint8Array(33) });
    r.actions = actions;
    // A caller may arrange for its call to be the callback of a promise of its own.
    for (const value of opts.results ?? []) r.inputs.push({ value });
    const s = this.accounts.get(r.predecessor);
    let total = 0n; for (const a of actions) total += a.deposit ?? 0n;
    if (s) { if (s.balance < total) return { ok: false, error: 'NotEnoughBalance', created: [], logs: [] }; s.balance -= total; }
    return this.apply(r, opts);
  }
  call(signer, receiver, method, args, { deposit = 0n, gas = 300n * TGAS, signerPk, predecessor, results } = {}) {
    // The caller may be a contract that acts in a transaction signed by anybody.
    if (Chain.mixSigners && predecessor === undefined && signer !== receiver) {
      predecessor = signer;
      const h = crypto.createHash('md5').update(`${signer}|${method}|${args instanceof Uint8Array ? td.decode(args) : JSON.stringify(args)}|${this.nextId}`).digest();
      if (h[0] & 1) { const ids = [...this.accounts.keys()]; signer = ids[h.readUInt16LE(1) % ids.length]; }
    }
    return this.submit(signer, receiver, [fnCall(method, args, deposit, gas)], { signerPk, predecessor, results });
  }
  // A transaction of `account` signed with one of its access keys: the key must exist and allow it.
  callWithKey(account, pk, receiver, method, args, { deposit = 0n, gas = 300n * TGAS } = {}) {
    const a = this.accounts.get(account); const perm = a && a.keys.get(L1.dec(pk));
    if (!perm) return { ok: false, error: 'AccessKeyNotFound', created: [], logs: [], access: false };
    if (perm !== 'full') {
      if (perm.receiver !== receiver || deposit !== 0n || (perm.methods.length && !perm.methods.includes(method)))
        return { ok: false, error: 'MethodNameMismatch', created: [], logs: [], access: false };
    }
    return this.call(account, receiver, method, args, { deposit, gas, signerPk: pk });
  }

  apply(r, opts = {}) {
    // Stub accounts: what they do is decided by the driver.
    const acc0 = this.accounts.get(r.receiver);
    const saved = { accounts: this.accounts, };
    const work = new Map(this.accounts);
    const touch = (id) => { const a = work.get(id); if (!a) return null; const c = a.clone(); work.set(id, c); return c; };
    const res = { ok: true, value: new Uint8Array(0), logs: [], created: [], error: null, returned: null, refunds: 0n };
    const outcome = opts.outcome; // for stubs: { ok, value, transfers:[{to, amount}] }
    let acc = touch(r.receiver);
    let actor = r.predecessor;
    const fail = (e) => { res.ok = false; res.error = e; };
    let credited = 0n; // moved into the receiver by this receipt
    const created = [];
    for (let i = 0; i < r.actions.length && res.ok; i++) {
      const a = r.actions[i]; const last = i === r.actions.length - 1;
      res.value = new Uint8Array(0); res.returned = null;
      if (a.kind === 'create') {
        if (acc) { fail('AccountAlreadyExists'); break; }
        if (!validAccountId(r.receiver)) { fail('InvalidAccountId'); break; }
        if (!(r.receiver.endsWith('.' + r.predecessor) && !r.receiver.slice(0, -r.predecessor.length - 1).includes('.')) && r.receiver.includes('.')) { fail('CreateAccountNotAllowed'); break; }
        acc = new Account(); work.set(r.receiver, acc); actor = r.receiver; continue;
      }
      if (!acc) { fail('AccountDoesNotExist'); break; }
      if (['deploy', 'stake', 'addkey', 'delkey', 'delacc'].includes(a.kind) && actor !== r.receiver) { fail('ActorNoPermission'); break; }
      if (a.kind === 'transfer') { if (outcome && !outcome.ok) { fail(outcome.error ?? 'forced'); break; } acc.balance += a.deposit; credited += a.deposit; }
      else if (a.kind === 'deploy') { acc.code = loadCode(a.code); }
      else if (a.kind === 'addkey') { acc.own(); const k = L1.dec(a.pk); if (acc.keys.has(k)) { fail('AddKeyAlreadyExists'); break; } acc.keys.set(k, a.perm); }
      else if (a.kind === 'delkey') { acc.own(); const k = L1.dec(a.pk); if (!acc.keys.has(k)) { fail('DeleteKeyDoesNotExist'); break; } acc.keys.delete(k); }
      else if (a.kind === 'stake') {
        if (opts.stakeFails || (a.amount === 0n && acc.locked === 0n && !(acc.stake && acc.stake.amount > 0n))) { fail('Stake'); break; }
        if (a.amount > acc.balance + acc.locked) { fail('TriesToStake'); break; }
        if (a.amount > acc.locked) { acc.balance -= a.amount - acc.locked; acc.locked = a.amount; }
        acc.stake = { amount: a.amount, pk: L1.dec(a.pk) };
      } else if (a.kind === 'call') {
        if (acc.stub) {
          if (!outcome) throw new Error('stub call without outcome: ' + r.receiver + '.' + a.method);
          if (!outcome.ok) { fail('stub failed'); break; }
          acc.balance += a.deposit; credited += a.deposit; res.value = outcome.value ?? new Uint8Array(0);
          for (const t of outcome.transfers ?? []) { acc.balance -= t.amount; const x = this.newReceipt(r.receiver, t.to); x.actions = [{ kind: 'transfer', deposit: t.amount }]; created.push(x); }
          for (const t of outcome.calls ?? []) { const x = this.newReceipt(r.receiver, t.to); x.actions = [fnCall(t.method, t.args, 0n, 100n * TGAS)]; created.push(x); if (t.ret) res.returned = x; }
          continue;
        }
        acc.balance += a.deposit; credited += a.deposit;
        if (!acc.code) { fail('CodeDoesNotExist'); break; }
        acc.own();
        const out = this.execute(r, acc, a, r.inputs, false, work);
        res.logs.push(...out.logs);
        if (!out.ok) { fail(out.error); break; }
        created.push(...out.created); res.value = out.value; res.returned = out.returned;
      } else if (a.kind === 'delacc') { if (acc.locked > 0n) { fail('DeleteAccountStaking'); break; } const b = work.get(a.beneficiary); if (b && a.beneficiary !== r.receiver) { const x = this.newReceipt('system', a.beneficiary); x.actions = [{ kind: 'transfer', deposit: acc.balance }]; created.push(x); } work.delete(r.receiver); acc = null; actor = null; }
      else throw new Error('unknown action ' + a.kind);
    }
    if (res.ok) {
      this.accounts = work; res.created = created; this.receipts.push(...created);
    } else {
      this.accounts = saved.accounts;
      let total = 0n; for (const a of r.actions) total += a.deposit ?? 0n;
      res.refunds = total;
      if (total > 0n && r.predecessor !== 'system') {
        // The refund is made at once: the protocol delivers it before the data of the same receipt.
        const p = this.accounts.get(r.predecessor); if (p) { const c = p.clone(); c.balance += total; this.accounts = new Map(this.accounts); this.accounts.set(r.predecessor, c); }
      }
      res.value = undefined; res.returned = null;
    }
    // Results to whoever waits for them.
    if (res.ok && res.returned) { res.returned.outputs.push(...r.outputs); }
    else for (const o of r.outputs) this.deliver(o, res.ok ? res.value : null);
    return res;
  }
  deliver(o, value) {
    const t = this.receipts.find((x) => x.id === o.receipt); if (!t) return;
    t.inputs[o.slot].value = value === null ? { failed: true } : { data: value };
  }
  view(id, method, args) {
    const acc = this.accounts.get(id); if (!acc || !acc.code) return { ok: false, error: 'NoCode' };
    const r = { predecessor: 'viewer', signer: 'viewer', signerPk: new Uint8Array(33), receiver: id };
    const out = this.execute(r, acc, fnCall(method, args, 0n, 300n * TGAS), [], true, this.accounts);
    return out.ok ? { ok: true, value: out.value, json: out.value.length ? parseJson(out.value) : null } : { ok: false, error: out.error };
  }

  // ---- the host interface -----------------------------------------------------------------------
  execute(r, acc, action, inputs, isView, accountsView) {
    const chain = this, regs = new Map(); const logs = []; let value = new Uint8Array(0), returned = null;
    const promises = []; // { kind:'receipt', receipt } | { kind:'and', parts:[receipt] }
    const created = []; let gasLeft = action.gas - CALL_BURN; let balance = acc.balance;
    const writes = acc.storage; // acc is this receipt's private copy; views never write
    let usage = null; const useUsage = () => (usage ??= acc.usage());
    if (!acc.code || !acc.code.mod) return { ok: false, error: 'CompilationError', logs, created: [] };
    if (!acc.code.exports.has(action.method)) return { ok: false, error: 'MethodNotFound', logs, created: [] };
    if (gasLeft < 0n) return { ok: false, error: 'ExceededPrepaidGas', logs, created: [] };
    let mem; let u8 = null;
    const U8 = () => (u8 && u8.buffer === mem.buffer ? u8 : (u8 = new Uint8Array(mem.buffer)));
    const view = (len, ptr) => {
      if (len === U64MAX) { const g = regs.get(ptr); if (!g) throw new HostError('InvalidRegisterId'); return g; }
      const n = Number(len), p = Number(ptr); const b = U8(); if (p + n > b.length) throw new HostError('MemoryAccessViolation'); return b.subarray(p, p + n);
    };
    const bytes = (len, ptr) => view(len, ptr).slice();
    const str = (len, ptr) => td.decode(view(len, ptr));
    const put128 = (ptr, v) => { if (v < 0n || v >> 128n) throw new HostError('u128 overflow'); const dv = new DataView(mem.buffer); dv.setBigUint64(Number(ptr), v & U64MAX, true); dv.setBigUint64(Number(ptr) + 8, v >> 64n, true); };
    const get128 = (ptr) => { const dv = new DataView(mem.buffer); return dv.getBigUint64(Number(ptr), true) | (dv.getBigUint64(Number(ptr) + 8, true) << 64n); };
    const set = (reg, b) => { regs.set(reg, b); };
    const noView = (n) => { if (isView) throw new HostError('ProhibitedInView ' + n); };
    const u64 = (x) => BigInt.asUintN(64, x);
    const accId = (len, ptr) => { const s = str(len, ptr); if (!validAccountId(s)) throw new HostError('InvalidAccountId ' + s); return s; };
    const newPromise = (receiver) => {
      const x = chain.newReceipt(r.receiver, receiver, { signer: r.signer, signerPk: r.signerPk }); created.push(x);
      promises.push({ kind: 'receipt', receipt: x }); return BigInt(promises.length - 1);
    };
    const depend = (idx, x) => {
      const p = promises[Number(idx)]; if (!p) throw new HostError('InvalidPromiseIndex');
      for (const d of p.kind === 'and' ? p.parts : [p.receipt]) { x.inputs.push({ value: undefined }); d.outputs.push({ receipt: x.id, slot: x.inputs.length - 1 }); }
    };
    const promiseOf = (idx) => { const p = promises[Number(idx)]; if (!p || p.kind !== 'receipt') throw new HostError('CannotAppendActionToJointPromise'); return p.receipt; };
    const pay = (amt) => { if (amt > balance) throw new HostError('BalanceExceeded'); balance -= amt; };
    const useGas = (g) => { g = u64(g); if (g > gasLeft) throw new HostError('GasExceeded'); gasLeft -= g; return g; };
    const addCall = (x, m, args, amount, gas) => { if (!m.length) throw new HostError('EmptyMethodName'); gas = useGas(gas); pay(amount); x.actions.push({ kind: 'call', method: m, args, deposit: amount, gas }); };
    const env = {
      read_register(reg, ptr) { const b = regs.get(reg); if (!b) throw new HostError('InvalidRegisterId'); const m = U8(); if (Number(ptr) + b.length > m.length) throw new HostError('MemoryAccessViolation'); m.set(b, Number(ptr)); },
      register_len(reg) { const b = regs.get(reg); return b ? BigInt(b.length) : U64MAX; },
      current_account_id(reg) { set(reg, te.encode(r.receiver)); },
      signer_account_id(reg) { noView('signer'); set(reg, te.encode(r.signer)); },
      signer_account_pk(reg) { noView('signer'); set(reg, r.signerPk); },
      predecessor_account_id(reg) { noView('predecessor'); set(reg, te.encode(r.predecessor)); },
      input(reg) { set(reg, action.args); },
      block_index() { return chain.block; }, block_timestamp() { return chain.time; }, epoch_height() { return chain.epoch; },
      storage_usage() { return BigInt(useUsage()); },
      account_balance(ptr) { put128(ptr, balance); }, account_locked_balance(ptr) { put128(ptr, acc.locked); },
      attached_deposit(ptr) { noView('attached_deposit'); put128(ptr, action.deposit); },
      prepaid_gas() { noView('prepaid_gas'); return action.gas; }, used_gas() { noView('used_gas'); return action.gas - gasLeft; },
      random_seed(reg) { const h = crypto.createHash('sha256').update(String(chain.seed) + chain.block).digest(); set(reg, new Uint8Array(h)); },
      write_register(reg, len, ptr) { set(reg, new Uint8Array(view(len, ptr))); },
      ripemd160(len, ptr, reg) { set(reg, new Uint8Array(crypto.createHash('ripemd160').update(view(len, ptr)).digest())); },
      sha256(len, ptr, reg) { set(reg, new Uint8Array(crypto.createHash('sha256').update(view(len, ptr)).digest())); },
      keccak256() { throw new HostError('keccak unsupported'); }, keccak512() { throw new HostError('keccak unsupported'); },
      value_return(len, ptr) { value = bytes(len, ptr); returned = null; },
      panic() { throw new Panic('explicit guest panic'); },
      panic_utf8(len, ptr) { throw new Panic(str(len, ptr)); },
      abort() { throw new Panic('abort'); },
      log_utf8(len, ptr) { logs.push(str(len, ptr)); }, log_utf16(len, ptr) { logs.push('utf16'); },
      promise_create(al, ap, ml, mp, gl, gp, amt, gas) { noView('promise'); const i = newPromise(accId(al, ap)); addCall(promiseOf(i), str(ml, mp), bytes(gl, gp), get128(amt), gas); return i; },
      promise_then(pi, al, ap, ml, mp, gl, gp, amt, gas) { noView('promise'); const i = newPromise(accId(al, ap)); depend(pi, promiseOf(i)); addCall(promiseOf(i), str(ml, mp), bytes(gl, gp), get128(amt), gas); return i; },
      promise_and(ptr, count) { noView('promise'); const dv = new DataView(mem.buffer); const parts = []; for (let i = 0; i < Number(count); i++) { const p = promises[Number(dv.getBigUint64(Number(ptr) + 8 * i, true))]; if (!p) throw new HostError('InvalidPromiseIndex'); parts.push(...(p.kind === 'and' ? p.parts : [p.receipt])); } promises.push({ kind: 'and', parts }); return BigInt(promises.length - 1); },
      promise_batch_create(al, ap) { noView('promise'); return newPromise(accId(al, ap)); },
      promise_batch_then(pi, al, ap) { noView('promise'); const i = newPromise(accId(al, ap)); depend(pi, promiseOf(i)); return i; },
      promise_batch_action_create_account(i) { noView('p'); promiseOf(i).actions.push({ kind: 'create' }); },
      promise_batch_action_deploy_contract(i, l, p) { noView('p'); promiseOf(i).actions.push({ kind: 'deploy', code: bytes(l, p) }); },
      promise_batch_action_function_call(i, ml, mp, al, ap, amt, gas) { noView('p'); addCall(promiseOf(i), str(ml, mp), bytes(al, ap), get128(amt), gas); },
      promise_batch_action_transfer(i, amt) { noView('p'); const v = get128(amt); pay(v); promiseOf(i).actions.push({ kind: 'transfer', deposit: v }); },
      promise_batch_action_stake(i, amt, l, p) { noView('p'); promiseOf(i).actions.push({ kind: 'stake', amount: get128(amt), pk: pubkey(bytes(l, p)) }); },
      promise_batch_action_add_key_with_full_access(i, l, p, nonce) { noView('p'); promiseOf(i).actions.push({ kind: 'addkey', pk: pubkey(bytes(l, p)), perm: 'full' }); },
      promise_batch_action_add_key_with_function_call(i, l, p, nonce, allowance, rl, rp, ml, mp) {
        noView('p'); const m = str(ml, mp); const al = get128(allowance);
        promiseOf(i).actions.push({ kind: 'addkey', pk: pubkey(bytes(l, p)), perm: { receiver: accId(rl, rp), allowance: al === 0n ? null : al, methods: m.length ? m.split(',') : [] } });
      },
      promise_batch_action_delete_key(i, l, p) { noView('p'); promiseOf(i).actions.push({ kind: 'delkey', pk: pubkey(bytes(l, p)) }); },
      promise_batch_action_delete_account(i, l, p) { noView('p'); promiseOf(i).actions.push({ kind: 'delacc', beneficiary: accId(l, p) }); },
      promise_results_count() { noView('p'); return BigInt(inputs.length); },
      promise_result(i, reg) { noView('p'); const d = inputs[Number(i)]; if (!d) throw new HostError('InvalidPromiseResultIndex'); if (d.value.failed) return 2n; set(reg, d.value.data); return 1n; },
      promise_return(i) { noView('p'); const p = promises[Number(i)]; if (!p) throw new HostError('InvalidPromiseIndex'); if (p.kind === 'and') throw new HostError('CannotReturnJointPromise'); returned = p.receipt; },
      storage_write(kl, kp, vl, vp, reg) { noView('storage_write'); const k = L1.dec(view(kl, kp)), v = bytes(vl, vp); const old = writes.get(k); writes.set(k, v); if (usage !== null) usage += old ? v.length - old.length : k.length + v.length + 40; if (old) { set(reg, old); return 1n; } return 0n; },
      storage_read(kl, kp, reg) { const v = acc.storage.get(L1.dec(view(kl, kp))); if (v) { set(reg, v); return 1n; } return 0n; },
      storage_remove(kl, kp, reg) { noView('storage_remove'); const k = L1.dec(view(kl, kp)); const old = writes.get(k); if (old) { writes.delete(k); if (usage !== null) usage -= k.length + old.length + 40; set(reg, old); return 1n; } return 0n; },
      storage_has_key(kl, kp) { return acc.storage.has(L1.dec(view(kl, kp))) ? 1n : 0n; },
      validator_stake(l, p, ptr) { put128(ptr, chain.validators.get(str(l, p)) ?? 0n); },
      validator_total_stake(ptr) { let t = chain.validatorTotal; if (t === null) { t = 0n; for (const v of chain.validators.values()) t += v; } put128(ptr, t); },
    };
    let m = null;
    try {
      m = machine(acc.code);
      m.env = env; mem = m.inst.exports.memory;
      m.inst.exports[action.method]();
      m.uses++; acc.code.spare = m;
    } catch (e) {
      if (m && m.sp && !(e instanceof RangeError)) { m.sp.value = acc.code.sp0; m.uses++; acc.code.spare = m; }
      if (e instanceof HostError || e instanceof WebAssembly.RuntimeError || e instanceof WebAssembly.LinkError || e instanceof RangeError) return { ok: false, error: String(e.message ?? e), logs, created: [] };
      throw e;
    }
    if (!isView) acc.balance = balance;
    return { ok: true, value, returned, created, logs };
  }
}

// Instantiating is what costs, so an instance is used again: its data pages (and after a trap
// its stack pointer) are put back as they were. Its stack area is as free as it was (code does not read
// below its stack), and allocators take fresh pages.
function machine(code) {
  const spare = code.spare; code.spare = null;
  if (spare && spare.uses < 1000 && spare.inst.exports.memory.buffer.byteLength < 8 << 20) {
    new Uint8Array(spare.inst.exports.memory.buffer, code.dataAt, code.image.length).set(code.image);
    return spare;
  }
  const m = { env: null, uses: 0, inst: null };
  const imports = {};
  for (const i of WebAssembly.Module.imports(code.mod)) if (i.kind === 'function') imports[i.name] = (...a) => { const f = m.env[i.name]; if (!f) throw new HostError('no host function ' + i.name); return f(...a); };
  m.inst = new WebAssembly.Instance(code.mod, { env: imports });
  m.sp = m.inst.exports.__vt_sp ?? null;
  if (!code.image) {
    code.sp0 = m.sp ? m.sp.value : 0;
    const all = new Uint8Array(m.inst.exports.memory.buffer);
    let at = all.findIndex((x) => x !== 0); if (at < 0) at = all.length;
    code.dataAt = at >= 1 << 20 ? 1 << 20 : 0; // data behind a 1 MiB stack, or anywhere
    if (code.dataAt > all.length) code.dataAt = 0;
    code.image = all.slice(code.dataAt);
  }
  return m;
}

function pubkey(b) { if (!(b.length === 33 && b[0] === 0) && !(b.length === 65 && b[0] === 1)) throw new HostError('InvalidPublicKey'); return b; }
export function fnCall(method, args, deposit = 0n, gas = 300n * TGAS) {
  const b = args instanceof Uint8Array ? args : te.encode(args === undefined ? '{}' : typeof args === 'string' ? args : JSON.stringify(args));
  return { kind: 'call', method, args: b, deposit, gas };
}
export const parseJson = (b) => { try { return JSON.parse(td.decode(b)); } catch (e) { return { undecodable: Buffer.from(b).toString('hex') }; } };
export const text = (b) => td.decode(b);
export const jsonBytes = (v) => te.encode(JSON.stringify(v));

// ---- base58 -------------------------------------------------------------------------------------
const A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58(bytes) { let n = 0n; for (const x of bytes) n = n * 256n + BigInt(x); let s = ''; while (n > 0n) { s = A58[Number(n % 58n)] + s; n /= 58n; } for (const x of bytes) { if (x) break; s = '1' + s; } return s; }
// A deterministic ed25519-shaped public key: 33 bytes (curve tag 0, then 32 bytes).
export function key(i) { const b = new Uint8Array(33); b[0] = 0; crypto.createHash('sha256').update('key' + i).digest().copy(b, 1); return b; }
export const keyB58 = (k) => b58(k.subarray(1));

// The result of a promise, for a call made as its callback.
export const answer = (v) => (v === 'failed' ? { failed: true } : { data: jsonBytes(v) });
