// Drives the real staking-pool contract through the actions of spec/StakingPool.tla.
import { Chain, key, keyB58, answer, validAccountId } from '../near.mjs';
import { norm, effects, retOf, viewOr, NEAR, memoByState, lookalike, badId } from '../lib.mjs';

export const spec = 'StakingPool';
export const wasm = ['staking-pool'];
const POOL = 'pool.near';
export const KEYS = { k1: key(1), k2: key(2), k3: key(3), bad: null };
export const keyArg = (k) => (k === 'bad' ? 'notakey!' : keyB58(KEYS[k]));
export const keyName = (b) => { const t = keyB58(b); for (const k of Object.keys(KEYS)) if (KEYS[k] && keyB58(KEYS[k]) === t) return k; return t; };
export const keyOfText = (t) => { if (typeof t !== 'string') return t; t = t.replace(/^ed25519:/, ''); for (const k of Object.keys(KEYS)) if (KEYS[k] && keyB58(KEYS[k]) === t) return k; return t; };

export function setup(cfg, code) {
  const chain = new Chain(); chain.epoch = BigInt(cfg.epoch);
  chain.create(POOL, { balance: BigInt(cfg.balance), locked: BigInt(cfg.locked ?? '0'), code: code['staking-pool'] });
  for (const u of cfg.users) chain.create(u, { balance: 10n ** 37n });
  return { chain, users: cfg.users, tiny: cfg.aim === 'tiny', init: false, obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot() });

const num = (x) => Number(x);
export function argsFor(a) {
  switch (a.act) {
    case 'new': return { owner_id: a.owner, stake_public_key: keyArg(a.key), reward_fee_fraction: { numerator: num(a.fee.n), denominator: num(a.fee.d) } };
    case 'withdraw': case 'stake': case 'unstake': return { amount: a.amount };
    case 'update_staking_key': return { stake_public_key: keyArg(a.key) };
    case 'update_reward_fee_fraction': return { reward_fee_fraction: { numerator: num(a.fee.n), denominator: num(a.fee.d) } };
    case 'vote': return { voting_account_id: a.target, is_vote: a.vote };
    default: return {};
  }
}
const isStake = (r) => r.receiver === POOL && r.actions[0].kind === 'stake';
const isCb = (r) => r.receiver === POOL && r.actions[0].kind === 'call';
const isXfer = (r) => r.receiver !== POOL && r.actions[0].kind === 'transfer';

export function exec(w, a, quiet) {
  const c = w.chain, pool = () => c.account(POOL);
  let res = { ok: true, created: [], value: null };
  switch (a.act) {
    case 'env_stake': { const r = c.receipts.find((x) => isStake(x)); res = r ? c.run(r.id, { stakeFails: a.refuse }) : { ok: false, created: [] }; break; }
    case 'env_cb': { const r = c.receipts.find((x) => isCb(x) && c.ready(x)); res = r ? c.run(r.id) : { ok: false, created: [] }; break; }
    case 'env_xfer': { const r = c.receipts.find(isXfer); res = r ? c.run(r.id, { outcome: { ok: !a.refuse } }) : { ok: false, created: [] }; break; }
    case 'env_epoch': { c.epoch += BigInt(a.n); const p = pool().clone(); p.locked += BigInt(a.reward) - BigInt(a.unlock); p.balance += BigInt(a.unlock); c.accounts.set(POOL, p); break; }
    case 'env_donate': { const p = pool().clone(); p.balance += BigInt(a.amount); c.accounts.set(POOL, p); break; }
    case 'env_slash': { const p = pool().clone(); p.locked -= BigInt(a.amount); c.accounts.set(POOL, p); break; }
    case 'ask': { const r = ask(c, a); return { ok: r !== 'panic', ret: r === 'panic' ? 'none' : r, eff: [], obs: (w.obs = quiet ? null : w.obs ?? observe(w)) }; }
    case 'on_stake_action': // made to look like the answer to a promise
      res = c.call(a.by, POOL, a.act, {}, { results: a.by === POOL ? [] : [answer(a.res === 'fine' ? 'x' : 'failed')] }); break;
    default: res = c.call(a.by, POOL, a.act, argsFor(a), { deposit: BigInt(a.dep ?? '0') });
  }
  // A failed call leaves everything as it was.
  if (!res.ok && !a.act.startsWith('env_') && w.obs) return { ok: false, ret: 'none', eff: [], obs: w.obs, error: res.error };
  // A vote goes to a voting contract; nothing comes back to the pool.
  c.receipts = c.receipts.filter((r) => !(r.receiver !== POOL && r.actions[0].kind === 'call'));
  if (a.act === 'new' && res.ok) w.init = true;
  const eff = effects(res.created ?? [], POOL, { keyName });
  return { ok: res.ok, ret: a.act.startsWith('env_') || a.act === 'vote' ? 'none' : retOf(res), eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
function ask(c, a) {
  if (a.m === 'pages') {
    const size = Number(a.size), sizes = [], all = {};
    for (let from = 0; ; from += size) {
      const l = viewOr(c, POOL, 'get_accounts', { from_index: from, limit: size }); if (l === 'panic') return l;
      sizes.push(String(l.length)); for (const x of l) all[x.account_id] = x.account_id in all ? 'twice' : accObs(x);
      if (l.length < size || from > 1000) return { sizes, all };
    }
  }
  return viewOr(c, POOL, { unstaked: 'get_account_unstaked_balance', staked: 'get_account_staked_balance', total: 'get_account_total_balance', available: 'is_account_unstaked_balance_available' }[a.m], { account_id: a.who });
}
const accObs = (j) => ({ un: j.unstaked_balance, st: j.staked_balance, can: j.can_withdraw });
export const observe = (w) => memoByState(w.chain, POOL, w.init + w.users.join(), () => look(w.chain, POOL, w.users, w.init));
export function look(c, id, users, init) {
  const p = c.account(id), base = { init, bal: String(p.balance), locked: String(p.locked) };
  if (!init) return base;
  const V = (m, args, f) => viewOr(c, id, m, args, f);
  const total = V('get_total_staked_balance');
  const acc = {};
  for (const u of users) acc[u] = V('get_account', { account_id: u }, accObs);
  if (acc[users[0]] === 'panic' && total === '0') return base;
  const list = V('get_accounts', { from_index: 0, limit: 100 }, (l) => { const o = {}; for (const x of l) o[x.account_id] = accObs(x); return o; });
  return { ...base, owner: V('get_owner_id'), key: keyOfText(V('get_staking_key')), fee: V('get_reward_fee_fraction'), paused: V('is_staking_paused'), total, n: V('get_number_of_accounts'), acc, list };
}

// ---- random histories ------------------------------------------------------------------------------
const USERS = ['owner.near', 'alice', 'bob', 'carol', 'mallory'];
export function randomCfg(R) {
  const tiny = R.chance(0.3), balance = tiny ? 10n ** 12n + BigInt(1 + R.int(20)) : R.weighted([[3, 30n * NEAR], [1, 10n ** 12n + 1n], [2, 10n ** 12n + 1000n], [1, 10n ** 12n + 7n], [1, 5n * NEAR + 123456789n], [0.3, 10n ** 12n - 1n], [1, 10n ** 12n + 10n ** 9n]]);
  const crowd = R.chance(0.15) ? Array.from({ length: 4 + R.int(12) }, (_, i) => 'user' + i + '.near') : [];
  return { ...(tiny ? { aim: 'tiny' } : {}), users: [...USERS, ...crowd], balance: String(balance), epoch: String(R.pick([0, 1, 5, 100, 2 ** 32 - 2, 2 ** 32 + 7])), ...(R.chance(0.04) ? { locked: String(1 + R.int(10)) } : {}) };
}
const fees = (R) => R.weighted([[3, ['10', '100']], [1, ['0', '1']], [1, ['1', '1']], [1, ['1', '3']], [1, ['1', '4294967295']], [1, ['4294967294', '4294967295']], [0.7, ['5', '4']], [0.5, ['0', '0']], [0.5, ['1', '0']], [1, ['7', '13']]]);
const fee = (R) => { const [n, d] = fees(R); return { n, d }; };
function amount(R, around) { // mostly near something meaningful
  const a = BigInt(around);
  const near = () => { const x = a + BigInt(R.int(5)) - 2n; return x < 0n ? 0n : x; };
  return String(R.weighted([[3, () => a], [2, near], [2, () => R.big(a + 1n)], [1, () => a / 2n], [1, () => a / 3n], [1, () => BigInt(R.int(4))], [0.5, () => a * 2n + 1n], [0.3, () => 2n ** 128n - 1n], [1, () => R.big(10n ** BigInt(1 + R.int(26)))]])());
}
export function gen(R, w, obs) {
  const crowd = w.users.length > USERS.length, by = crowd && R.chance(0.7) ? R.pick(w.users) : R.weighted([[2, 'owner.near'], [3, 'alice'], [3, 'bob'], [1.5, 'carol'], [1, 'mallory']]);
  if (!obs.init) return R.chance(0.8)
    ? { act: 'new', by: 'owner.near', dep: '0', owner: R.chance(0.93) ? 'owner.near' : badId(R), ownerValid: true, key: R.chance(0.95) ? 'k1' : 'bad', fee: fee(R), keyValid: true }
    : { act: R.pick(['ping', 'deposit', 'withdraw_all', 'stake_all', 'pause_staking']), by, dep: '0' };
  const total = BigInt(obs.total ?? 0), mine = (obs.acc && obs.acc[by] !== 'panic' && obs.acc[by]) || { un: '0', st: '0' };
  const stakes = w.chain.receipts.filter(isStake).length, cbs = w.chain.receipts.filter((r) => isCb(r) && w.chain.ready(r)).length, xf = w.chain.receipts.filter(isXfer).length;
  const p = w.chain.account(POOL), prop = p.stake ? p.stake.amount : 0n;
  const deps = () => String(w.tiny && R.chance(0.97) ? BigInt(1 + R.int(12)) : R.weighted([[2, () => (total < 10n ** 35n ? total : 10n ** 35n)], [2, () => R.big(total < 10n ** 34n ? total * 3n + 10n : total)], [2, () => BigInt(1 + R.int(5))], [2, () => R.big(10n ** BigInt(1 + R.int(28)))], [0.25, () => R.big(10n ** 33n)], [0.3, () => 0n]])());
  const dep = () => (R.chance(0.05) ? '1' : '0');
  const kind = R.weighted([
    [crowd ? 12 : 4, 'deposit'], [crowd ? 15 : 5, 'deposit_and_stake'], [4, 'withdraw'], [3, 'withdraw_all'], [5, 'stake'], [2.5, 'stake_all'], [6, 'unstake'], [3, 'unstake_all'], [2, 'ping'],
    [1, 'update_staking_key'], [1.2, 'update_reward_fee_fraction'], [0.6, 'vote'], [0.9, 'pause_staking'], [1.6, 'resume_staking'], [0.3, 'on_stake_action'], [0.3, 'new'],
    [stakes ? 3 + 3 * stakes : 0.1, 'env_stake'], [cbs ? 3 + 3 * cbs : 0.1, 'env_cb'], [xf ? 4 : 0.1, 'env_xfer'], [7, 'env_epoch'], [0.8, 'env_donate'], [0.06, 'env_slash'], [1.5, 'ask']]);
  const owner = R.chance(0.7) ? 'owner.near' : R.chance(0.3) ? lookalike(R, R.pick([obs.owner, obs.owner, POOL])) : by;
  switch (kind) {
    case 'deposit': case 'deposit_and_stake': return { act: kind, by, dep: deps() };
    case 'withdraw': return { act: kind, by, dep: dep(), amount: amount(R, mine.un) };
    case 'stake': return { act: kind, by, dep: dep(), amount: amount(R, mine.un) };
    case 'unstake': return { act: kind, by, dep: dep(), amount: amount(R, mine.st) };
    case 'withdraw_all': case 'stake_all': case 'unstake_all': case 'ping': return { act: kind, by, dep: dep() };
    case 'update_staking_key': { const k = R.pick(['k1', 'k2', 'k3', 'k2', 'k3', 'bad']); return { act: kind, by: owner, dep: dep(), key: k, keyValid: k !== 'bad' }; }
    case 'update_reward_fee_fraction': return { act: kind, by: owner, dep: dep(), fee: fee(R) };
    case 'vote': { const t = R.chance(0.5) ? 'voting.near' : badId(R); return { act: kind, by: owner, dep: dep(), target: t, targetValid: validAccountId(t), vote: R.chance(0.5) }; }
    case 'pause_staking': case 'resume_staking': return { act: kind, by: owner, dep: dep() };
    case 'on_stake_action': return { act: kind, by: R.pick([by, 'owner.near', lookalike(R, POOL)]), dep: '0', res: R.chance(0.3) ? 'fine' : 'failed' };
    case 'new': return { act: 'new', by, dep: '0', owner: by, ownerValid: true, key: 'k2', keyValid: true, fee: { n: '0', d: '1' } };
    case 'env_stake': { const r = w.chain.receipts.find(isStake); return { act: kind, refuse: (!r || r.actions[0].amount > 0n) && R.chance(0.2) }; } // nothing prevents unstaking
    case 'env_xfer': return { act: kind, refuse: R.chance(0.2) };
    case 'env_cb': return { act: kind };
    case 'env_epoch': {
      const reward = p.locked === 0n ? 0n : w.tiny ? BigInt(R.int(8)) : R.weighted([[2, () => 0n], [3, () => R.big(p.locked / 100n + 5n)], [1, () => BigInt(1 + R.int(9))], [1, () => R.big(p.locked + 1n)]])();
      const free = p.locked + reward > prop ? p.locked + reward - prop : 0n;
      return { act: kind, n: String(R.weighted([[5, 1], [2, 2], [2, 3], [3, 4], [1, 5], [0.4, 6 + R.int(10 ** (1 + R.int(4)))]])), reward: String(reward), unlock: String(R.weighted([[4, () => free], [1, () => 0n], [1, () => R.big(free + 1n)]])()) };
    }
    case 'env_donate': return { act: kind, amount: String(w.tiny ? BigInt(1 + R.int(5)) : R.big(10n ** BigInt(1 + R.int(25)))) };
    case 'ask': return R.chance(0.4) ? { act: kind, m: 'pages', size: String(1 + R.int(w.users.length)) } : { act: kind, m: R.pick(['unstaked', 'staked', 'total', 'available']), who: R.pick(w.users) };
    case 'env_slash': return { act: kind, amount: String(R.big(p.locked / 10n + 1n)) };
  }
}
// Fill in what the specification wants to know about the arguments.
export function finish(a) {
  if (a.act === 'new') return { ...a, ownerValid: validAccountId(a.owner), keyValid: a.key !== 'bad' };
  return a;
}
