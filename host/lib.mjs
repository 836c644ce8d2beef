// Shared by the component drivers: seeded randomness, normal forms, effects of a call.
import { text, keyB58, parseJson, loadCode } from './near.mjs';

export function rng(seed) { // xorshift128+ on BigInt-free 32-bit lanes (sfc32)
  let a = 0x9e3779b9 ^ seed, b = 0x243f6a88 ^ (seed * 7919), c = 0xb7e15162 ^ (seed * 104729), d = seed | 1;
  const next = () => { a |= 0; b |= 0; c |= 0; d |= 0; const t = (a + b | 0) + d | 0; d = d + 1 | 0; a = b ^ b >>> 9; b = c + (c << 3) | 0; c = c << 21 | c >>> 11; c = c + t | 0; return (t >>> 0) / 4294967296; };
  for (let i = 0; i < 20; i++) next();
  const R = {
    next, extra: [], int: (n) => R.special(n < 2 ** 53 ? BigInt(Math.floor(n)) : 0n) ?? Math.floor(next() * n), chance: (p) => next() < p,
    pick: (xs) => xs[Math.floor(next() * xs.length)],
    // weighted choice: [[weight, value], ...]
    weighted: (ws) => { let t = 0; for (const [w] of ws) t += w; let x = next() * t; for (const [w, v] of ws) { x -= w; if (x < 0) return v; } return ws[ws.length - 1][1]; },
    big: (n) => { if (n <= 0n) return 0n; const e = R.special(n); if (e !== null) return BigInt(e); let x = 0n; for (let i = 0; i < 6; i++) x = (x << 32n) | BigInt(Math.floor(next() * 4294967296)); return x % n; },
    // numbers around those that the code under test compares with (consts.mjs)
    special: (n) => { if (!R.extra.length || next() > 0.15) return null; const e = R.extra[Math.floor(next() * R.extra.length)] + BigInt(Math.floor(next() * 5)) - 2n; return e >= 0n && e < n ? (n <= 2n ** 53n ? Number(e) : e) : null; },
    shuffle: (xs) => { const y = xs.slice(); for (let i = y.length - 1; i > 0; i--) { const j = Math.floor(next() * (i + 1)); [y[i], y[j]] = [y[j], y[i]]; } return y; },
  };
  return R;
}
// An account id that resembles the given one and is another account: below it, above it, longer, shorter.
export function lookalike(R, id) {
  const dot = id.indexOf('.');
  return R.pick(['x.' + id, 'not' + id, id + '2', id + '.x', id.slice(1), id.slice(0, -1), dot > 0 ? id.slice(dot + 1) : 'a.' + id, dot > 0 ? id.slice(0, dot) : id + 'a', 'a-' + id, dot > 0 ? id.replace('.', '-') : id + '.near'].filter((x) => x.length >= 2 && x.length <= 64 && /^[a-z0-9]([a-z0-9]|[-_.](?=[a-z0-9]))*$/.test(x)));
}
// What is no account id, in every way there is (near.mjs validAccountId).
const NO_IDS = ['Bad!', 'x', '', 'bad..x', 'UPPER.near', 'Alice.near', 'alice.neaR', '.near', 'alice.', '-a', 'a-', '_a', 'a_', 'a__b', 'a--b', 'a-_b', 'a.-b', 'a._b', 'a_.b', 'a b', ' ab', 'ab ', 'ab\n', 'al@ce', 'a,b', 'a/b', 'ab\u0000', 'caf\u00e9', '\u0430lice', '\u212belvin.near', 'a\u200bb', 'ab$', '"ab"', 'a'.repeat(65), 'a'.repeat(40) + '.' + 'b'.repeat(40)];
export const badId = (R) => R.pick(NO_IDS);
// A valid name for a sub-account: letters and digits, single separators between them.
const WORDS = ['pool', 'staking', 'stake', 'near', 'validator', 'node', 'multisig', 'wallet', 'test', 'foundation', 'lockup', 'figment', 'chorus', 'dao', '01', '2', '42', 'z', 'v'];
export function goodName(R) {
  let s = ''; const n = 1 + R.int(4);
  for (let i = 0; i < n; i++) {
    if (s && R.chance(0.7)) s += R.pick(['-', '_']);
    if (R.chance(0.5)) s += R.pick(WORDS); else for (let k = 1 + R.int(6); k; k--) s += 'abcdefghijklmnopqrstuvwxyz0123456789'[R.int(36)];
  }
  return s;
}
export const NEAR = 10n ** 24n;

// Numbers become decimal strings, null becomes "none": the vocabulary of the specification.
export function norm(v) {
  if (v === null || v === undefined) return 'none';
  if (typeof v === 'number' || typeof v === 'bigint') return String(v);
  if (Array.isArray(v)) return v.map(norm);
  if (typeof v === 'object') { const o = {}; for (const k of Object.keys(v)) o[k] = norm(v[k]); return o; }
  return v;
}
// The same canonical text as java/vt/Num.java: sorted keys, every empty collection is [].
export function canon(v) {
  if (Array.isArray(v)) return '[' + v.map(canon).join(',') + ']';
  if (v && typeof v === 'object') { const ks = Object.keys(v).sort(); return ks.length ? '{' + ks.map((k) => JSON.stringify(k) + ':' + canon(v[k])).join(',') + '}' : '[]'; }
  return JSON.stringify(v);
}
export const retOf = (res) => (res.ok && res.value && res.value.length ? norm(parseJson(res.value)) : 'none');

// What a call makes happen outside its own books, in order. Calls to itself are its callbacks.
// With `whole`, what is sent to one receiver has to be sent as one: it happens as a whole or not at all.
export function effects(created, self, { selfCalls = false, keyName = keyB58, codeName = (c) => 'code', accName = (a) => a, gas = false, args = argsOf, whole = false } = {}) {
  const out = [];
  if (whole) { const seen = new Set(); for (const r of created) { if (!r.actions.length) continue; if (seen.has(r.receiver)) out.push({ kind: 'split', to: accName(r.receiver) }); seen.add(r.receiver); } }
  for (const r of created) for (const a of r.actions) {
    const to = accName(r.receiver);
    if (a.kind === 'call') { if (r.receiver === self && !selfCalls) continue; const e = { kind: 'call', to, method: a.method, args: args(a.args, a), deposit: String(a.deposit) }; if (gas) e.gas = String(a.gas); out.push(e); }
    else if (a.kind === 'transfer') out.push({ kind: 'transfer', to, amount: String(a.deposit) });
    else if (a.kind === 'stake') out.push({ kind: 'stake', amount: String(a.amount), key: keyName(a.pk) });
    else if (a.kind === 'create') out.push({ kind: 'create', to });
    else if (a.kind === 'deploy') out.push({ kind: 'deploy', to, code: codeName(a.code) });
    else if (a.kind === 'addkey') out.push(a.perm === 'full' ? { kind: 'add_full_key', to, key: keyName(a.pk) } : { kind: 'add_call_key', to, key: keyName(a.pk), receiver: a.perm.receiver, methods: a.perm.methods.slice().sort(), allowance: a.perm.allowance === null ? 'none' : String(a.perm.allowance) });
    else if (a.kind === 'delkey') out.push({ kind: 'delete_key', to, key: keyName(a.pk) });
    else if (a.kind === 'delacc') out.push({ kind: 'delete_account', to, beneficiary: a.beneficiary });
  }
  return out;
}
// The batch that creates, funds and initialises an account, as one effect: what it amounts to, in whatever order.
export function creations(effs, args = (x) => x) {
  const out = [], made = new Map();
  for (const e of effs) {
    if (e.kind === 'create') { const m = { kind: 'creation', to: e.to, amount: '0' }; made.set(e.to, m); out.push(m); continue; }
    const m = made.get(e.to); if (!m) { out.push(e); continue; }
    if (e.kind === 'deploy') m.code = e.code;
    else if (e.kind === 'transfer') m.amount = String(BigInt(m.amount) + BigInt(e.amount));
    else if (e.kind === 'call') { m.method = e.method; m.deposit = e.deposit; m.args = args(given(e.args)); }
    else (m.more ??= []).push(e);
  }
  return out;
}
export const codeNames = (code) => (bytes) => { const h = loadCode(bytes).hash; for (const k of Object.keys(code)) if (code[k].hash === h) return k; return 'unknown'; };
// Arguments that are null might as well not be there.
export function given(v) {
  if (Array.isArray(v)) return v.map(given);
  if (v && typeof v === 'object') { const o = {}; for (const k of Object.keys(v)) if (v[k] !== 'none' && v[k] !== null) o[k] = given(v[k]); return o; }
  return v;
}
// A pending receipt fails: its deposits come back and whoever waits for it hears so.
export function fail(c, r) {
  c.receipts.splice(c.receipts.indexOf(r), 1);
  const p = c.account(r.predecessor).clone(); for (const a of r.actions) p.balance += a.deposit ?? 0n; c.accounts.set(r.predecessor, p);
  for (const o of r.outputs) c.deliver(o, null);
  return { ok: false, created: [] };
}
export function argsOf(bytes) {
  if (!bytes.length) return {}; // no arguments
  try { return norm(JSON.parse(text(bytes))); } catch (e) { return { raw: Buffer.from(bytes).toString('hex') }; }
}
export const viewOr = (chain, id, m, args, f = (x) => x) => { const r = chain.view(id, m, args); return r.ok ? f(norm(r.json)) : 'panic'; };

// What can be observed of a contract is a function of its account and of the chain's clock: looked at once.
const looked = new Map();
export function memoByState(chain, ids, extra, f) {
  let k = `${chain.epoch}|${chain.time}|${chain.block}|${extra}`;
  for (const id of Array.isArray(ids) ? ids : [ids]) {
    const a = chain.account(id); if (!a) { k += '|-'; continue; }
    k += `|${a.balance}|${a.locked}|${a.code ? a.code.hash : ''}`;
    for (const [x, v] of a.storage) k += '\u0000' + x + '\u0001' + Buffer.from(v.buffer, v.byteOffset, v.length).toString('latin1');
    for (const [x, p] of a.keys) k += '\u0002' + x + (p === 'full' ? '*' : JSON.stringify(p, (_, y) => (typeof y === 'bigint' ? String(y) : y)));
  }
  let o = looked.get(k); if (!o) { if (looked.size > 50000) looked.clear(); o = f(); looked.set(k, o); }
  return o;
}
