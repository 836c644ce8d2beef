// Drives the real voting contract through the actions of spec/Voting.tla.
import { Chain } from '../near.mjs';
import { effects, retOf, viewOr, memoByState } from '../lib.mjs';
export const spec = 'Voting';
export const wasm = ['voting'];
const ID = 'voting.near';
const setStakes = (c, st) => { c.validators = new Map(Object.entries(st).map(([k, v]) => [k, BigInt(v)])); };
export function setup(cfg, code) {
  const chain = new Chain(); chain.time = BigInt(cfg.time); chain.epoch = BigInt(cfg.epoch); setStakes(chain, cfg.stakes);
  chain.create(ID, { balance: 10n ** 25n, code: code.voting });
  return { chain, cfg, init: false, obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot() });
export function exec(w, a, quiet) {
  const c = w.chain; let res = { ok: true, created: [] };
  if (a.act === 'env_time') c.time += BigInt(a.d);
  else if (a.act === 'env_epoch') { c.epoch += BigInt(a.n); setStakes(c, a.stakes); }
  else { if (!c.account(a.by)) c.create(a.by, { balance: 10n ** 30n }); res = c.call(a.by, ID, a.act, a.act === 'vote' ? { is_vote: a.yes } : {}, { deposit: BigInt(a.dep) }); if (a.act === 'new' && res.ok) w.init = true; }
  return { ok: res.ok, ret: retOf(res), eff: effects(res.created, ID), obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => memoByState(w.chain, ID, w.init + [...w.chain.validators].join(), () => {
  if (!w.init) return { init: false };
  return { init: true, ...look(w.chain, ID) };
});
export const look = (chain, id) => { const V = (m) => viewOr(chain, id, m, {}); return { result: V('get_result'), voted: V('get_total_voted_stake'), votes: V('get_votes') }; };
const NAMES = ['va.near', 'vb.near', 'vc.near', 'vd.near', 've.near', 'pool-1.near'];
const MANY = [...NAMES, ...Array.from({ length: 14 }, (_, i) => 'v' + i + '.near')];
const CROWD = Array.from({ length: 130 }, (_, i) => 'w' + i + '.near');
const crowd = (R) => { const o = {}; let t = 0n; for (const v of CROWD) if (R.chance(0.97)) { const x = BigInt(R.int(9)); o[v] = String(x); t += x; } o['va.near'] = String(t); return o; }; // va.near decides
const spread = (R, many) => { // often around the boundary
  const all = many ? MANY : NAMES, o = {}, n = 1 + R.int(all.length), who = R.shuffle(all).slice(0, n); const unit = R.weighted([[3, () => 1n], [2, () => 10n ** 24n], [1, () => R.big(10n ** 33n) + 1n]])();
  for (const v of who) o[v] = String(unit * BigInt(R.int(4)) + R.weighted([[4, () => 0n], [2, () => BigInt(R.int(3))]])());
  if (R.chance(0.3)) { const t = who.slice(1).reduce((x, v) => x + BigInt(o[v]), 0n); if (t > 0n) o[who[0]] = String(R.pick([2n * t, 2n * t + 1n, 2n * t - 1n, t / 2n, t / 2n + 1n])); }
  return o;
};
export const randomCfg = (R) => ({ time: String(R.big(10n ** 19n)), epoch: String(R.weighted([[3, () => 0], [6, () => R.int(1000)], [1, () => 2 ** 32 - 2]])()), ...((many) => ({ many, stakes: spread(R, many) }))(R.chance(0.15)), ...(R.chance(0.03) ? { crowd: true, epoch: '7', stakes: crowd(R), steps: 190, probes: 0 } : {}) });
export const over = (obs) => obs.init && obs.result !== 'none';
export function gen(R, w, obs) {
  const who = () => (R.chance(0.1) ? 'nobody.near' : R.pick(w.cfg.many ? MANY : NAMES)), dep = R.chance(0.02) ? '1' : '0';
  if (!obs.init) return R.chance(0.8) ? { act: 'new', by: who(), dep } : { act: R.pick(['vote', 'ping']), by: who(), dep, yes: true };
  if (w.cfg.crowd) { // as many voters as the network has validators
    const full = obs.votes !== 'panic' && Object.keys(obs.votes).length > 110, rest = Object.keys(w.cfg.stakes).filter((x) => x !== 'va.near' && !obs.votes[x]);
    if (R.chance(full ? 0.7 : 0.97) && rest.length) return { act: 'vote', by: R.pick(rest), dep: '0', yes: true };
    if (full && R.chance(0.6)) return { act: 'env_epoch', n: '1', stakes: crowd(R) };
    return full && R.chance(0.2) ? { act: 'vote', by: 'va.near', dep: '0', yes: true } : { act: R.pick(['ping', 'vote']), by: R.pick(CROWD), dep: '0', yes: R.chance(0.5) };
  }
  const k = R.weighted([[obs.result === 'none' ? 7 : 1.5, 'vote'], [1, 'ping'], [obs.result === 'none' ? 1.2 : 0.5, 'env_epoch'], [0.5, 'env_time'], [0.05, 'new']]);
  if (k === 'vote') { const staked = [...w.chain.validators].filter(([, v]) => v > 0n).map(([x]) => x); return { act: k, by: staked.length && R.chance(0.7) ? R.pick(staked) : who(), dep, yes: R.chance(0.75) }; }
  if (k === 'env_epoch') { const cur = Object.fromEntries([...w.chain.validators].map(([x, v]) => [x, String(v)])); return { act: k, n: String(R.weighted([[5, 1], [1, 2], [1, 7], [0.3, 8 + R.int(10 ** (1 + R.int(4)))]])), stakes: R.chance(0.4) ? spread(R, w.cfg.many) : R.chance(0.5) ? { ...cur, [R.pick(NAMES)]: String(R.int(5)) } : cur }; }
  if (k === 'env_time') return { act: k, d: String(R.big(10n ** 12n)) };
  return { act: k, by: who(), dep };
}
