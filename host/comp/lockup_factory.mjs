// Drives the real lockup factory, with the real lockups it deploys, through spec/LockupFactory.tla.
import crypto from 'crypto';
import { Chain, answer, text } from '../near.mjs';
import { effects, retOf, viewOr, memoByState, creations, codeNames, fail, norm, lookalike, badId } from '../lib.mjs';
import { look as lookLockup, hash, sched, unsched } from './lockup.mjs';
export const spec = 'LockupFactory';
export const wasm = ['lockup-factory', 'lockup'];
const USERS = ['alice.near', 'bob.near', 'mallory.near'];
export const idOf = (cfg, owner) => crypto.createHash('sha256').update(owner).digest('hex').slice(0, 40) + '.' + cfg.self;
export function setup(cfg, code) {
  const chain = new Chain(); chain.time = BigInt(cfg.time);
  chain.create(cfg.self, { balance: BigInt(cfg.balance), code: code['lockup-factory'] });
  for (const u of USERS) chain.create(u, { balance: 10n ** 36n });
  return { chain, cfg, code, init: false, ops: [], obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot(), ops: w.ops.slice() });
const opt = (x) => (x === 'none' ? null : x);
const none = (x) => (x === null || x === undefined ? 'none' : x);
function argsFor(w, a) {
  switch (a.act) {
    case 'new': return { whitelist_account_id: a.wl, foundation_account_id: a.found };
    case 'create': return { owner_account_id: a.owner, lockup_duration: a.dur, lockup_timestamp: opt(a.ts), release_duration: opt(a.rel), whitelist_account_id: opt(a.wl),
      vesting_schedule: a.vesting.kind === 'none' ? null : a.vesting.kind === 'hash' ? { VestingHash: hash(a.vesting.sched, a.vesting.salt) } : { VestingSchedule: sched(a.vesting.sched) } };
    case 'on_lockup_create': return { lockup_account_id: a.id, attached_deposit: a.amount, predecessor_account_id: a.who };
  }
}
// The terms a lockup was created with, in the specification's words.
const termsOf = (cfg) => (o) => {
  const v = o.vesting_schedule, t = o.transfers_information ?? {};
  const vesting = !v ? { kind: 'none' } : v.VestingSchedule ? { kind: 'schedule', sched: unsched(v.VestingSchedule) } : v.VestingHash === hash(cfg.sched, cfg.salt) ? { kind: 'hash', sched: cfg.sched, salt: cfg.salt } : v;
  return { owner: o.owner_account_id, wl: o.staking_pool_whitelist_account_id, found: none(o.foundation_account_id), dur: o.lockup_duration, rel: none(o.release_duration), ts: none(o.lockup_timestamp), xts: t.TransfersEnabled ? t.TransfersEnabled.transfers_timestamp : t, vesting };
};
export function exec(w, a, quiet) {
  const c = w.chain, F = w.cfg.self; let res = { ok: true, created: [] }, ret = 'none';
  if (a.act === 'env_exec') {
    const id = w.ops[Number(a.i) - 1]; const r = c.receipts.find((x) => x.id === id);
    if (!r) return { ok: false, ret: 'none', eff: [], obs: w.obs };
    w.ops.splice(Number(a.i) - 1, 1);
    const cb = c.receipts.find((x) => r.outputs.some((o) => o.receipt === x.id));
    const creation = r.actions[0].kind === 'create';
    res = creation && !a.good ? fail(c, r) : c.run(id);
    if (creation) res = { ...res, created: [] }; else if (r.receiver === F) ret = retOf(res);
    if (cb) w.ops.push(cb.id);
  } else if (a.act === 'env_time') c.time += BigInt(a.d);
  else {
    res = c.call(a.by, F, a.act, argsFor(w, a), { deposit: BigInt(a.dep), results: a.act.startsWith('on_') && a.by !== F ? [answer(a.res === 'failed' ? 'failed' : 'x')] : [] });
    if (!res.ok && w.obs) return { ok: false, ret, eff: [], obs: w.obs, error: res.error };
    if (a.act === 'new' && res.ok) w.init = true; else if (!res.returned) ret = retOf(res);
  }
  const eff = creations(effects(res.created, F, { whole: true, codeName: codeNames(w.code) }), termsOf(w.cfg));
  for (const r of res.created) if (!r.inputs.length) w.ops.push(r.id);
  return { ok: res.ok, ret, eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => { const ids = w.cfg.owners.map((o) => idOf(w.cfg, o)); return memoByState(w.chain, [w.cfg.self, ...ids], w.init + ids.join(), () => {
  const bal = String(w.chain.account(w.cfg.self).balance); if (!w.init) return { init: false, bal };
  const V = (m) => viewOr(w.chain, w.cfg.self, m, {}); const locks = {};
  for (const n of ids) if (w.chain.account(n)) locks[n] = lookLockup(w.chain, n, w.cfg, true);
  return { init: true, bal, min: V('get_min_attached_balance'), found: V('get_foundation_account_id'), master: V('get_lockup_master_account_id'), locks };
}); };

// ---- random histories ------------------------------------------------------------------------------
const OWNERS = ['ann.near', 'ben.near', 'cat.near', 'dan_1-x.near', 'o.lf.near', 'alice.near', 'z'.repeat(64), 'a'.repeat(63) + '0'];
const MIN = 35n * 10n ** 23n, YEAR = 31536000000000000n, GEN = 1602614338293769340n;
export function randomCfg(R) {
  const t0 = GEN - YEAR + R.big(2n * YEAR), start = t0 - R.big(YEAR), cliff = start + R.big(YEAR), end = cliff + R.big(3n * YEAR) + 1n;
  return { self: R.weighted([[6, 'lf.near'], [1, 'l2345678901234567.near1'], [0.4, 'l2345678901234567.near12']]), balance: String(R.big(10n ** 26n)), time: String(t0), sched: { start: String(start), cliff: String(cliff), end: String(end) }, salt: R.pick(['c2FsdA==', '', 'AAEC']), owners: OWNERS };
}
export function gen(R, w, obs) {
  const who = () => R.pick(USERS), bad = () => badId(R);
  if (!obs.init && R.chance(0.9)) return { act: 'new', by: who(), dep: R.chance(0.03) ? '1' : '0', wl: R.chance(0.95) ? 'wl.near' : bad(), found: R.chance(0.95) ? R.pick(['found.near', 'fd']) : bad() };
  const k = R.weighted([[3.5, 'create'], [w.ops.length ? 6 : 0.05, 'exec'], [1.2, 'time'], [0.25, 'cb'], [0.1, 'new']]);
  if (k === 'exec') return { act: 'env_exec', i: String(1 + R.int(Math.max(1, w.ops.length))), good: R.chance(0.8) };
  if (k === 'time') return { act: 'env_time', d: String(R.big(YEAR)) };
  if (k === 'cb') return { act: 'on_lockup_create', by: R.pick([...USERS, w.cfg.self, lookalike(R, w.cfg.self)]), dep: '0', id: 'x.' + w.cfg.self, amount: String(R.big(MIN)), who: who(), res: R.chance(0.5) ? 'failed' : 'fine' };
  if (k === 'new') return { act: 'new', by: who(), dep: '0', wl: 'wl.near', found: 'found.near' };
  const now = w.chain.time, kind = R.pick(['none', 'schedule', 'hash']), c = w.cfg.sched;
  const other = { start: String(now - R.big(YEAR)), cliff: String(now), end: String(now + R.big(YEAR) + 1n) };
  const sc = R.weighted([[4, c], [2, other], [0.5, { ...c, start: c.end, end: c.start }], [0.5, { ...c, cliff: String(BigInt(c.end) + 1n) }], [0.3, { start: c.end, cliff: c.end, end: c.end }]]);
  const big = () => R.weighted([[8, () => String(R.big(3n * YEAR))], [0.5, () => String(2n ** 64n - 1n)], [0.2, () => String(2n ** 64n)], [0.5, () => '0']])();
  return { act: 'create', by: who(), dep: String(R.weighted([[2, () => MIN], [4, () => MIN + R.big(10n ** BigInt(1 + R.int(28)))], [0.4, () => MIN - 1n], [0.2, () => R.big(MIN)]])()),
    owner: R.chance(0.95) ? R.pick(OWNERS) : bad(), dur: big(), ts: R.chance(0.5) ? 'none' : String(now - YEAR + R.big(3n * YEAR)), rel: R.chance(0.4) ? 'none' : big(), wl: R.weighted([[5, 'none'], [4, 'wl2.near'], [0.3, bad()]]),
    vesting: kind === 'none' ? { kind } : kind === 'hash' ? { kind, sched: c, salt: w.cfg.salt } : { kind, sched: sc } };
}
