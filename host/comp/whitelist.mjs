// Drives the real whitelist contract through the actions of spec/Whitelist.tla.
import { Chain } from '../near.mjs';
import { effects, retOf, viewOr, memoByState, lookalike, badId } from '../lib.mjs';
export const spec = 'Whitelist';
export const wasm = ['whitelist'];
const ID = 'wl.near';
export function setup(cfg, code) {
  const chain = new Chain(); chain.create(ID, { balance: 10n ** 25n, code: code.whitelist });
  return { chain, cfg, init: false, obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot() });
const ARG = { new: 'foundation_account_id', add_staking_pool: 'staking_pool_account_id', remove_staking_pool: 'staking_pool_account_id', add_factory: 'factory_account_id', remove_factory: 'factory_account_id' };
export function exec(w, a, quiet) {
  const c = w.chain; if (!c.account(a.by)) c.create(a.by, { balance: 10n ** 30n });
  const res = c.call(a.by, ID, a.act, { [ARG[a.act]]: a.id }, { deposit: BigInt(a.dep) }); if (a.act === 'new' && res.ok) w.init = true;
  return { ok: res.ok, ret: retOf(res), eff: effects(res.created, ID), obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => memoByState(w.chain, ID, w.init + w.cfg.univ.join(), () => {
  if (!w.init) return { init: false };
  const has = (m, k) => w.cfg.univ.filter((x) => viewOr(w.chain, ID, m, { [k]: x }) !== false).sort();
  return { init: true, pools: has('is_whitelisted', 'staking_pool_account_id'), factories: has('is_factory_whitelisted', 'factory_account_id') };
});
const U = ['found.near', 'fa.near', 'fb.near', 'fc.near', 'p.near', 'pa.near', 'pb.fa.near', 'wl.near'];
const MORE = [...U, 'pool.near', 'a.pool.near', 'pp', 'pa.near2', 'found.near2', 'f'.repeat(64), '0'.repeat(63) + '1', '1'.repeat(64), 'a-b_c.near', 'ab.c', 'a.bc', 'wl', 'near', 'x1', 'x2'];
export const randomCfg = (R) => ({ univ: R.chance(0.25) ? MORE : U });
export function gen(R, w, obs) {
  const id = () => (R.chance(0.04) ? badId(R) : R.pick(w.cfg.univ)), dep = R.chance(0.02) ? '1' : '0';
  if (!obs.init) return { act: R.chance(0.7) ? 'new' : R.pick(['add_staking_pool', 'add_factory']), by: R.pick(U), dep, id: R.chance(0.8) ? 'found.near' : id() };
  const by = R.weighted([[5, 'found.near'], [3, () => (obs.factories.length ? R.pick(obs.factories) : 'fa.near')], [2, () => R.pick(w.cfg.univ)], [0.5, 'mallory.near'], [0.8, () => lookalike(R, R.pick(['found.near', ...obs.factories]))]]);
  return { act: R.weighted([[5, 'add_staking_pool'], [2.5, 'remove_staking_pool'], [3, 'add_factory'], [1.5, 'remove_factory'], [0.1, 'new']]), by: typeof by === 'function' ? by() : by, dep, id: id() };
}
