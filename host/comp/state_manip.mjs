// Drives the real state-manipulation contract, in each of its builds, through spec/StateManip.tla.
import { Chain } from '../near.mjs';
export const spec = 'StateManip';
export const wasm = ['sm-all', 'sm-clean', 'sm-replace'];
const ID = 'acc.near';
const raw = (b64) => Buffer.from(b64, 'base64').toString('latin1');
export function setup(cfg, code) {
  const chain = new Chain(); const a = chain.create(ID, { balance: BigInt(cfg.balance), code: code[cfg.build] });
  for (const [k, v] of cfg.storage) a.storage.set(raw(k), new Uint8Array(Buffer.from(v, 'base64')));
  return { chain, cfg, obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot() });
export function exec(w, a, quiet) {
  const c = w.chain; if (!c.account(a.by)) c.create(a.by, { balance: 10n ** 30n });
  const text = a.raw !== 'none' ? a.raw : JSON.stringify(a.act === 'replace' ? { entries: a.entries } : { keys: a.keys });
  const res = c.call(a.by, ID, a.act, new TextEncoder().encode(text), { deposit: BigInt(a.dep) });
  return { ok: res.ok, ret: res.value && res.value.length ? 'value' : 'none', eff: res.created, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export function observe(w) {
  const a = w.chain.account(ID), storage = {};
  for (const [k, v] of a.storage) storage[Buffer.from(k, 'latin1').toString('base64')] = Buffer.from(v).toString('base64');
  return { bal: String(a.balance), storage };
}
const bytes = (R, n) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = R.int(256); return b.toString('base64'); };
const size = (R) => R.weighted([[1, () => 0], [6, () => 1 + R.int(8)], [2, () => R.int(80)], [0.3, () => R.int(5000)]])();
export const randomCfg = (R, i) => ({ build: ['sm-all', 'sm-all', 'sm-clean', 'sm-replace'][i % 4], balance: '5', storage: Array.from({ length: R.int(30) }, () => [bytes(R, size(R)), bytes(R, size(R))]) });
const BAD = ['!!!!', 'A', 'AB==', 'AA=A', '====', ' AA=='];
const RAW = ['', '{}', '[]', 'null', '{"entries":1}', '{"keys":"AA=="}', '{"keys":["AA=="]', '{"entries":[["AA=="]]}', '{"entries":[["AA==","AA=="]],"entries":[]}', '{"keys":[null]}'];
// A key that another one begins with, or the other way round.
const near = (R, k) => { const b = Buffer.from(k, 'base64'); return (R.chance(0.5) ? b.subarray(0, R.int(b.length + 1)) : Buffer.concat([b, Buffer.from([R.int(256)])])).toString('base64'); };
export function gen(R, w, obs) {
  const known = Object.keys(obs.storage), long = R.chance(0.05);
  const key = () => (R.chance(0.01) ? R.pick(BAD) : known.length && R.chance(0.55) ? R.pick(known) : known.length && R.chance(0.25) ? near(R, R.pick(known)) : bytes(R, size(R))), val = () => (R.chance(0.01) ? R.pick(BAD) : bytes(R, size(R)));
  const list = (f) => { const l = Array.from({ length: long ? 20 + R.int(60) : R.int(6) }, f); if (l.length && R.chance(0.2)) l.push(R.pick(l)); return l; };
  const a = { by: R.pick(['alice.near', ID]), dep: R.chance(0.05) ? '3' : '0', raw: R.chance(0.04) ? R.pick(RAW) : 'none' };
  const m = w.cfg.build === 'sm-all' || R.chance(0.05) ? R.pick(['clean', 'replace']) : w.cfg.build.slice(3);
  return m === 'clean' ? { act: 'clean', ...a, keys: list(key) } : { act: 'replace', ...a, entries: list(() => [key(), val()]) };
}
