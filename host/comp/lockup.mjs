// Drives the real lockup contract through the actions of spec/Lockup.tla. The staking pool, the whitelist,
// the transfer poll and all receivers are stubs: the action says how each remote call ends.
import crypto from 'crypto';
import { Chain, key, keyB58, jsonBytes, text, answer, validAccountId } from '../near.mjs';
import { norm, effects, retOf, viewOr, NEAR, memoByState, lookalike, badId } from '../lib.mjs';

export const spec = 'Lockup';
export const wasm = ['lockup'];
const LOCKUP = 'lockup.near', RESERVE = 35n * 10n ** 23n;
const KEYS = { k1: key(1), k2: key(2) };
const keyName = (b) => { const t = typeof b === 'string' ? b : keyB58(b); for (const k of Object.keys(KEYS)) if (keyB58(KEYS[k]) === t) return k; return t; };
const STUBS = ['pool.near', 'pool2.near', 'wl.near', 'poll.near', 'bob.near', 'carol.near', 'treasury.near', 'owner.near', 'found.near'];

export function setup(cfg, code) {
  const chain = new Chain(); chain.time = BigInt(cfg.time);
  chain.create(LOCKUP, { balance: BigInt(cfg.balance), code: code.lockup });
  for (const u of STUBS) chain.create(u, { balance: 10n ** 36n, stub: true });
  for (const u of ['creator.near', 'mallory.near']) chain.create(u, { balance: 10n ** 36n });
  return { chain, cfg, init: false, ops: [], transit: 0n, obs: null, hashes: {}, terms: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot(), ops: w.ops.slice() });

export const sched = (c) => ({ start_timestamp: c.start, cliff_timestamp: c.cliff, end_timestamp: c.end });
export const unsched = (c) => ({ start: c.start_timestamp, cliff: c.cliff_timestamp, end: c.end_timestamp });
export function hash(c, salt) {
  const s = Buffer.from(salt, 'base64'), b = Buffer.alloc(28 + s.length);
  b.writeBigUInt64LE(BigInt(c.start), 0); b.writeBigUInt64LE(BigInt(c.cliff), 8); b.writeBigUInt64LE(BigInt(c.end), 16); b.writeUInt32LE(s.length, 24); s.copy(b, 28);
  return crypto.createHash('sha256').update(b).digest('base64');
}
const opt = (x) => (x === 'none' ? null : x);
export function argsFor(a) {
  switch (a.act) {
    case 'new': return {
      owner_account_id: a.owner, lockup_duration: a.dur, lockup_timestamp: opt(a.ts), release_duration: opt(a.rel),
      transfers_information: a.on ? { TransfersEnabled: { transfers_timestamp: a.xts } } : { TransfersDisabled: { transfer_poll_account_id: a.poll } },
      vesting_schedule: a.vesting.kind === 'none' ? null : a.vesting.kind === 'hash' ? { VestingHash: hash(a.vesting.sched, a.vesting.salt) } : { VestingSchedule: sched(a.vesting.sched) },
      staking_pool_whitelist_account_id: a.wl, foundation_account_id: opt(a.found) };
    case 'select_staking_pool': return { staking_pool_account_id: a.pool };
    case 'transfer': return { amount: a.amount, receiver_id: a.receiver };
    case 'add_full_access_key': return { new_public_key: a.keyValid ? keyB58(KEYS[a.key]) : 'nokey' };
    case 'terminate_vesting': return { vesting_schedule_with_salt: a.reveal ? { vesting_schedule: sched(a.sched), salt: a.salt } : null };
    case 'termination_withdraw': return { receiver_id: a.receiver };
    case 'callback': return { amount: '100', receiver_id: 'mallory.near', staking_pool_account_id: 'pool2.near' };
    default: return a.amount === undefined ? {} : { amount: a.amount };
  }
}
const VALUES = { true: true, false: false, none: null };
const valueOf = (op, v) => (['select', 'poll'].includes(op.kind) && v in VALUES ? jsonBytes(VALUES[v]) : v === 'garbage' ? jsonBytes({ x: 1 }) : v === 'none' ? new Uint8Array(0) : jsonBytes(v));
const KINDS = { is_whitelisted: 'select', get_result: 'poll', get_account_total_balance: 'refresh' };

export function exec(w, a, quiet) {
  const c = w.chain; let res = { ok: true, created: [] };
  const op = a.i ? w.ops[Number(a.i) - 1] : null;
  switch (a.act) {
    case 'env_resolve': {
      const r = op && c.receipts.find((x) => x.id === op.call);
      if (!r) { res = { ok: false, created: [] }; break; }
      res = c.run(r.id, { outcome: { ok: a.good, value: valueOf(op, a.val) } }); res.created = []; res.value = null;
      if (op.cb !== null) w.ops[Number(a.i) - 1] = { ...op, val: a.val }; if (res.ok && r.actions[0].method === 'withdraw') w.transit += BigInt(JSON.parse(text(r.actions[0].args)).amount);
      if (op.cb === null) w.ops.splice(Number(a.i) - 1, 1);
      break;
    }
    case 'env_cb': {
      const r = op && c.receipts.find((x) => x.id === op.cb && c.ready(x));
      if (!r) { res = { ok: false, created: [] }; break; }
      res = c.run(r.id); w.ops.splice(Number(a.i) - 1, 1);
      if (res.ok && op.method === 'get_result' && /^\d+$/.test(op.val)) w.terms = { ...w.terms, xts: op.val };
      break;
    }
    case 'env_time': c.time += BigInt(a.d); break;
    case 'env_arrive': { const p = c.account(LOCKUP).clone(); p.balance += w.transit; w.transit = 0n; c.accounts.set(LOCKUP, p); break; }
    case 'env_donate': { const p = c.account(LOCKUP).clone(); p.balance += BigInt(a.amount); c.accounts.set(LOCKUP, p); break; }
    case 'env_reward': break;
    case 'ask': { const r = viewOr(c, LOCKUP, { unvested: 'get_unvested_amount', lockedVested: 'get_locked_vested_amount' }[a.m], { vesting_schedule: sched(a.sched) });
      return { ok: r !== 'panic', ret: r === 'panic' ? 'none' : r, eff: [], obs: (w.obs = quiet ? null : w.obs ?? observe(w)) }; }
    case 'callback': // made to look like the answer to a promise
      res = c.call(a.by, LOCKUP, a.method, argsFor(a), { deposit: BigInt(a.dep), results: a.by === LOCKUP ? [] : [answer(a.res === 'failed' ? 'failed' : a.method.includes('is_whitelisted') ? true : '100')] }); break;
    default: res = c.call(a.by, LOCKUP, a.act, argsFor(a), { deposit: BigInt(a.dep) });
  }
  if (!res.ok && !a.act.startsWith('env_') && w.obs) return { ok: false, ret: 'none', eff: [], obs: w.obs, error: res.error };
  if (a.act === 'new' && res.ok) { w.init = true; w.terms = { found: a.found, dur: a.dur, ts: a.ts, rel: a.rel, xts: a.on ? a.xts : 'none' }; }
  const eff = effects(res.created, LOCKUP, { keyName });
  for (const r of res.created) {
    if (r.receiver === LOCKUP) { if (r.actions.some((x) => x.kind === 'addkey')) c.run(r.id); continue; } // its own key takes effect at once
    const cb = c.receipts.find((x) => x.receiver === LOCKUP && r.outputs.some((o) => o.receipt === x.id));
    w.ops.push({ call: r.id, cb: cb ? cb.id : null, kind: KINDS[r.actions[0].method] ?? 'other', method: r.actions[0].method ?? 'transfer', ready: false });
  }
  w.ops = w.ops.map((o) => { const r = o.cb !== null && c.receipts.find((x) => x.id === o.cb); return { ...o, ready: !!(r && c.ready(r)) }; });
  return { ok: res.ok, ret: retOf(res), eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => memoByState(w.chain, LOCKUP, w.init + Object.values(w.cfg.sched).join() + w.cfg.salt, () => look(w.chain, LOCKUP, w.cfg, w.init));
export function look(c, id, cfg, init) {
  const bal = String(c.account(id).balance);
  if (!init) return { init: false, bal };
  const V = (m, args = {}, f) => viewOr(c, id, m, args, f);
  const keys = []; for (const [k, p] of c.account(id).keys) keys.push(p === 'full' ? keyName(Buffer.from(k, 'latin1')) : 'limited');
  const vesting = V('get_vesting_information', {}, (v) => {
    if (v === 'None') return { kind: 'none' };
    if (v.VestingHash) { const salts = [cfg.salt ?? 'c2FsdA==']; const x = salts.find((y) => hash(cfg.sched, y) === v.VestingHash); return x !== undefined ? { kind: 'hash', sched: cfg.sched, salt: x } : { kind: 'hash', value: v.VestingHash }; }
    if (v.VestingSchedule) return { kind: 'schedule', sched: unsched(v.VestingSchedule) };
    if (v.Terminating) return { kind: 'term', amt: v.Terminating.unvested_amount, st: v.Terminating.status };
    return v;
  });
  return {
    init: true, bal, owner: V('get_owner_account_id'), pool: V('get_staking_pool_account_id'), dep: V('get_known_deposited_balance'),
    status: V('get_termination_status'), term: V('get_terminated_unvested_balance'), deficit: V('get_terminated_unvested_balance_deficit'),
    locked: V('get_locked_amount'), unvested: V('get_unvested_amount', { vesting_schedule: sched(cfg.sched) }),
    lockedVested: V('get_locked_vested_amount', { vesting_schedule: sched(cfg.sched) }), vesting,
    owners: V('get_owners_balance'), total: V('get_balance'), liquid: V('get_liquid_owners_balance'), on: V('are_transfers_enabled'), keys: keys.sort(),
  };
}

// ---- random histories ------------------------------------------------------------------------------
const YEAR = 31536000000000000n, GEN = 1602614338293769340n;
export function randomCfg(R) {
  const small = R.chance(0.4);
  const t0 = small ? BigInt(5 + R.int(20)) : GEN - BigInt(R.int(3)) * YEAR + R.big(YEAR);
  const unit = small ? 10n : YEAR;
  const start = t0 - (R.chance(0.7) ? R.big(unit < t0 ? unit : t0) : -R.big(unit)), cliff = start + R.weighted([[3, () => unit], [1, () => 0n], [2, () => R.big(unit)]])(), end = R.weighted([[4, () => cliff + 3n * unit], [1, () => cliff + R.big(unit) + 1n], [0.5, () => (cliff > start ? cliff : cliff + 1n)]])();
  const aim = R.weighted([[5, 'any'], [3, 'collect'], [1, 'release'], [0.6, 'whole']]);
  return { balance: String(RESERVE + R.weighted([[3, () => BigInt(R.int(2000))], [3, () => R.big(10n ** BigInt(4 + R.int(28)))], [1, () => 1000n * NEAR], [0.3, () => -R.big(RESERVE)]])()), time: String(t0), sched: { start: String(start), cliff: String(cliff), end: String(end) }, salt: R.pick(['c2FsdA==', '', 'AAEC']), unit: String(unit), aim };
}
// when something changes in the lockup: the lockup ends, the release ends
function moments(t) {
  if (!t || t.xts === 'none') return [];
  const by = BigInt(t.xts) + BigInt(t.dur), at = t.ts === 'none' ? 0n : BigInt(t.ts), start = by > at ? by : at;
  return [by, at, start, t.rel === 'none' ? start : start + BigInt(t.rel)];
}
const CALLBACKS = ['on_whitelist_is_whitelisted', 'on_staking_pool_deposit', 'on_staking_pool_deposit_and_stake', 'on_staking_pool_withdraw', 'on_staking_pool_stake', 'on_staking_pool_unstake', 'on_staking_pool_unstake_all', 'on_get_result_from_transfer_poll', 'on_get_account_total_balance', 'on_get_account_unstaked_balance_to_withdraw_by_owner', 'on_withdraw_unvested_amount', 'on_get_account_staked_balance_to_unstake', 'on_staking_pool_unstake_for_termination', 'on_get_account_unstaked_balance_to_withdraw', 'on_staking_pool_withdraw_for_termination'];
export function gen(R, w, obs) {
  const cfg = w.cfg, unit = BigInt(cfg.unit), now = w.chain.time, aim = cfg.aim, whole = aim === 'whole', collect = aim === 'collect' || whole; // whole: the foundation takes everything back
  const somewhen = () => { const x = now - unit + R.big(4n * unit); return x < 0n ? 0n : x; };
  if (!obs.init) {
    const kind = R.weighted([[collect ? 0 : 1, 'none'], [aim === 'release' ? 0.5 : 2, 'schedule'], [aim === 'release' ? 0.5 : 1.5, 'hash']]);
    let c = cfg.sched; if (R.chance(collect ? 0.01 : 0.06)) c = R.pick([{ ...c, start: c.end, end: c.start }, { ...c, cliff: String(BigInt(c.end) + 1n) }, { ...c, start: String(BigInt(c.cliff) + 1n) }, { ...c, start: c.end, cliff: c.end }]);
    if (kind === 'hash') c = cfg.sched;
    const bad = R.chance(collect ? 0.01 : 0.06) ? R.pick(['owner', 'wl', 'poll', 'found']) : '';
    const on = R.chance(whole ? 0.3 : collect ? 0.85 : 0.6);
    return { act: 'new', by: 'creator.near', dep: R.chance(0.03) ? '1' : '0', owner: bad === 'owner' ? badId(R) : 'owner.near', wl: bad === 'wl' ? badId(R) : 'wl.near', found: (kind === 'none') !== R.chance(collect ? 0.01 : 0.06) ? 'none' : bad === 'found' ? badId(R) : R.chance(0.04) ? 'owner.near' : 'found.near',
      dur: R.weighted([[3, () => '0'], [1, () => String(R.big(unit))], [0.2, () => String(2n ** 64n - 1n)]])(), rel: R.weighted([[2, () => 'none'], [3, () => String(R.big(3n * unit) + 1n)], [0.2, () => '0'], [0.3, () => String(2n ** 64n - 1n)]])(), ts: R.weighted([[2, () => 'none'], [2, () => String(somewhen())]])(),
      on, xts: String(R.chance(0.8) ? (now > unit ? now - R.big(unit) : now) : somewhen()), poll: bad === 'poll' ? badId(R) : 'poll.near', vesting: kind === 'none' ? { kind } : kind === 'hash' ? { kind, sched: c, salt: cfg.salt } : { kind, sched: c } };
  }
  const N = (x) => (x === 'panic' || x === undefined ? 0n : BigInt(x));
  const bal = N(obs.bal), spend = bal > RESERVE ? bal - RESERVE : 0n, liquid = N(obs.liquid), dep = N(obs.dep), term = obs.status !== 'none';
  const around = (x) => String(R.weighted([[3, () => x], [1, () => x + 1n], [1, () => (x > 0n ? x - 1n : 0n)], [2, () => R.big(x + 1n)], [1, () => x / 2n], [0.4, () => BigInt(R.int(3))]])());
  const who = R.weighted([[0.9, 'right'], [0.04, 'owner.near'], [0.04, 'found.near'], [0.02, 'mallory.near'], [0.02, 'like'], [0.01, 'lockup2.near']]);
  const O = who === 'right' ? 'owner.near' : who === 'like' ? lookalike(R, 'owner.near') : who, F = who === 'right' ? (w.terms && w.terms.found === 'owner.near' ? 'owner.near' : 'found.near') : who === 'like' ? lookalike(R, 'found.near') : who, d = () => (R.chance(0.02) ? '1' : '0');
  const sel = obs.pool !== 'none', busy = w.ops.some((o) => !['transfer', 'is_whitelisted', 'get_result'].includes(o.method)), pool = sel && !busy && !term, pick = (c, x, y) => (c ? x : y);
  const left = N(obs.unvested), short = (x) => (x > spend ? x - spend : 0n), edge = left > 0n && left < spend; // edge: a deposit could leave just what is not vested
  const rich = collect && !term && dep > 0n && left + 2n > spend, up = (c, x, y) => (c ? x : y); // the foundation is to collect from a pool that holds the funds
  const free = obs.locked === '0' && !obs.on && !term; // nothing is locked, but transfers are not enabled
  const kind = R.weighted([
    [w.ops.filter((o) => !o.ready).length * 3, 'env_resolve'], [w.ops.some((o) => o.ready) ? 5 : 0.05, 'env_cb'],
    [pick(!sel && !term, up(collect, 8, 2.5), 0.3), 'select_staking_pool'], [pick(pool, 0.5, 0.1), 'unselect_staking_pool'], [pick(pool, 2, 0.25), 'deposit_to_staking_pool'], [pick(pool, up(collect && !rich, 6, 2), 0.25), 'deposit_and_stake'], [pick(pool, 1.2, 0.15), 'withdraw_from_staking_pool'], [pick(pool, 1, 0.15), 'withdraw_all_from_staking_pool'],
    [pick(pool, 1, 0.15), 'refresh_staking_pool_balance'], [pick(pool, 0.6, 0.1), 'stake'], [pick(pool, 0.8, 0.1), 'unstake'], [pick(pool, 0.6, 0.1), 'unstake_all'], [pick(!obs.on && !term, 1.5, 0.2), 'check_transfers_vote'], [pick(obs.on && !term && !busy, up(collect, 0.5, 2.5), free ? 1.5 : 0.4), 'transfer'], [pick(obs.on && !term && !busy, up(collect, 0.2, 0.8), free ? 1.5 : 0.15), 'add_full_access_key'],
    [pick(['schedule', 'hash'].includes(obs.vesting.kind), up(collect, rich ? 5 : 0.05, dep ? 1.2 : 0.3), 0.05), 'terminate_vesting'], [pick(term && !busy && sel && obs.status !== 'ReadyToWithdraw', up(collect, 8, 4), 0.2), 'termination_prepare_to_withdraw'], [pick(obs.status === 'ReadyToWithdraw', 3, 0.2), 'termination_withdraw'], [0.25, 'callback'], [0.05, 'new'],
    [up(collect && !term, 1, 2.2), 'env_time'], [w.transit ? 3 : 0, 'env_arrive'], [whole && short(left) && (term || R.chance(0.3)) ? 2 : 0.3, 'env_donate'], [0.8, 'ask']]);
  switch (kind) {
    case 'env_resolve': {
      const open = w.ops.map((o, i) => i).filter((i) => !w.ops[i].ready || R.chance(0.05)); if (!open.length) return null; const i = R.pick(open), o = w.ops[i], good = R.chance(collect ? 0.88 : 0.75);
      const val = o.method === 'is_whitelisted' ? R.weighted([[5, 'true'], [1, 'false'], [0.3, 'garbage']]) : o.method === 'get_result' ? R.weighted([[2, 'none'], [0.35, '0'], [2, String(R.chance(0.5) ? now : somewhen())], [0.2, 'garbage']])
        : o.method.startsWith('get_account') ? (R.chance(0.03) ? 'garbage' : around(R.weighted([[3, dep], [1, 0n], [1, dep + dep / 10n]]))) : 'none';
      return { act: kind, i: String(i + 1), good: o.method.startsWith('get_account') ? R.chance(0.95) : good, val };
    }
    case 'env_cb': { const rs = w.ops.map((o, i) => [o, i]).filter(([o]) => o.ready || R.chance(0.02)); if (!rs.length) return { act: kind, i: '1' }; return { act: kind, i: String(R.pick(rs)[1] + 1) }; }
    case 'select_staking_pool': { const p = R.weighted([[4, 'pool.near'], [2, 'pool2.near'], [0.2, badId(R)]]); return { act: kind, by: O, dep: d(), pool: p, poolValid: validAccountId(p) }; }
    case 'deposit_to_staking_pool': case 'deposit_and_stake': return { act: kind, by: O, dep: d(), amount: collect && edge && R.chance(0.4) ? String(spend - left + BigInt(R.int(5)) - (spend - left > 2n ? 2n : 0n)) : collect && !rich && R.chance(0.5) ? String(spend) : around(spend) };
    case 'withdraw_from_staking_pool': case 'stake': case 'unstake': return { act: kind, by: O, dep: d(), amount: around(dep) };
    case 'unselect_staking_pool': case 'withdraw_all_from_staking_pool': case 'refresh_staking_pool_balance': case 'unstake_all': case 'check_transfers_vote': return { act: kind, by: O, dep: d() };
    case 'transfer': { const r = R.weighted([[5, 'bob.near'], [2, 'carol.near'], [1, 'owner.near'], [0.3, badId(R)]]); return { act: kind, by: O, dep: d(), amount: around(R.chance(0.8) ? liquid : spend), receiver: r, receiverValid: validAccountId(r) }; }
    case 'add_full_access_key': return { act: kind, by: O, dep: d(), key: R.pick(['k1', 'k1', 'k2']), keyValid: R.chance(0.95) };
    case 'terminate_vesting': {
      const reveal = R.chance(0.08) ? R.chance(0.5) : obs.vesting.kind === 'hash'; let c = cfg.sched, salt = cfg.salt;
      if (R.chance(0.12)) salt = R.pick(['c2FsdB==', 'c2FsdAA=', '', 'AAECAw==']); if (R.chance(0.1)) c = { ...c, [R.pick(['start', 'cliff', 'end'])]: String(BigInt(c.end) + 1n) };
      if (BigInt(c.cliff) > BigInt(c.end) || BigInt(c.start) > BigInt(c.cliff)) c = cfg.sched;
      if (Buffer.from(salt, 'base64').equals(Buffer.from(cfg.salt, 'base64'))) salt = cfg.salt;
      return { act: kind, by: F, dep: d(), reveal, sched: c, salt: reveal ? salt : 'none' };
    }
    case 'termination_prepare_to_withdraw': return { act: kind, by: F, dep: d() };
    case 'termination_withdraw': { const r = R.weighted([[5, 'treasury.near'], [1, 'found.near'], [0.3, badId(R)]]); return { act: kind, by: F, dep: d(), receiver: r, receiverValid: validAccountId(r) }; }
    case 'callback': return { act: kind, by: R.pick(['owner.near', 'found.near', 'pool.near', 'mallory.near', lookalike(R, LOCKUP)]), dep: '0', method: R.pick(CALLBACKS), res: R.chance(0.7) ? 'fine' : 'failed' };
    case 'new': return { act: 'new', by: 'owner.near', dep: '0', owner: 'owner.near', wl: 'wl.near', found: 'none', dur: '0', rel: 'none', ts: 'none', on: true, xts: '0', poll: 'poll.near', vesting: { kind: 'none' } };
    case 'env_time': { const marks = [cfg.sched.start, cfg.sched.cliff, cfg.sched.end].map(BigInt).concat(moments(w.terms)).filter((x) => x > now && x < 2n ** 63n); const m = marks.length ? R.pick(marks) - now : 1n;
      return { act: kind, d: String(R.weighted([[3, () => R.big(unit)], [1, () => m], [0.7, () => (m > 0n ? m - 1n : 1n)], [1, () => BigInt(R.int(3))], [0.6, () => R.big(3n * unit)]])()) }; }
    case 'ask': { const start = now > unit ? now - R.big(unit) : now, cliff = start + R.big(2n * unit), end = cliff + 1n + R.big(2n * unit);
      return { act: kind, m: R.pick(['lockedVested', 'unvested', 'unvested']), sched: R.chance(0.3) ? cfg.sched : { start: String(start), cliff: String(cliff), end: String(end) } }; }
    case 'env_arrive': return { act: kind };
    case 'env_donate': return { act: kind, amount: whole && short(left) ? String(short(left)) : short(left) > 1n && R.chance(0.3) ? String(short(left) - BigInt(R.int(2))) : String(R.big(10n ** BigInt(1 + R.int(27)))) };
  }
}
const valid = validAccountId;
export const finish = (a) => (a.act === 'new' ? { ...a, valid: valid(a.owner) && valid(a.wl) && (a.on || valid(a.poll)) && (a.found === 'none' || valid(a.found)) } : a);
