// Drives the real staking pool factory, with a real whitelist and the real pools it deploys, through spec/PoolFactory.tla.
import { Chain, answer } from '../near.mjs';
import { effects, retOf, viewOr, memoByState, creations, codeNames, fail, lookalike, badId, goodName } from '../lib.mjs';
import { look as lookPool, keyArg, keyName, keyOfText } from './staking_pool.mjs';
export const spec = 'PoolFactory';
export const wasm = ['staking-pool-factory', 'staking-pool', 'whitelist'];
const F = 'f.near', WL = 'wl.near', USERS = ['alice.near', 'bob.near', 'mallory.near', 'found.near'];
export function setup(cfg, code) {
  const chain = new Chain(); chain.epoch = BigInt(cfg.epoch);
  chain.create(F, { balance: BigInt(cfg.balance), code: code['staking-pool-factory'] });
  chain.create(WL, { balance: 10n ** 25n, code: code.whitelist });
  for (const u of USERS) chain.create(u, { balance: 10n ** 36n });
  chain.call('found.near', WL, 'new', { foundation_account_id: 'found.near' });
  return { chain, cfg, code, init: false, ops: [], owners: {}, obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot(), ops: w.ops.slice(), owners: { ...w.owners } });
const WARG = { add_staking_pool: 'staking_pool_account_id', remove_staking_pool: 'staking_pool_account_id', add_factory: 'factory_account_id', remove_factory: 'factory_account_id' };
const num = (x) => Number(x);
function argsFor(a) {
  switch (a.act) {
    case 'new': return { staking_pool_whitelist_account_id: a.wl };
    case 'create_staking_pool': return { staking_pool_id: a.id, owner_id: a.owner, stake_public_key: keyArg(a.key), reward_fee_fraction: { numerator: num(a.fee.n), denominator: num(a.fee.d) } };
    case 'on_staking_pool_create': return { staking_pool_account_id: a.id, attached_deposit: a.amount, predecessor_account_id: a.who };
  }
}
export function exec(w, a, quiet) {
  const c = w.chain; let res = { ok: true, created: [] }, ret = 'none';
  if (a.act === 'env_exec') {
    const id = w.ops[Number(a.i) - 1]; const r = c.receipts.find((x) => x.id === id);
    if (!r) return { ok: false, ret: 'none', eff: [], obs: w.obs };
    w.ops.splice(Number(a.i) - 1, 1);
    const creation = r.actions[0].kind === 'create';
    const cb = c.receipts.find((x) => r.outputs.some((o) => o.receipt === x.id));
    res = creation && !a.good ? fail(c, r) : c.run(id);
    if (creation && res.ok) { // the pool's own first stake goes through
      for (let n = 0; n < 4; n++) { const q = c.receipts.find((x) => x.predecessor === r.receiver && c.ready(x)); if (q) c.run(q.id); }
      res = { ...res, created: [] };
      w.owners[r.receiver] = JSON.parse(Buffer.from(r.actions.find((x) => x.kind === 'call').args)).owner_id;
    } else if (r.receiver === F || r.receiver === WL) ret = res.returned ? 'none' : retOf(res);
    if (cb) w.ops.push(cb.id);
  } else if (a.act === 'whitelist') { res = c.call(a.by, WL, a.m, { [WARG[a.m]]: a.id }, { deposit: BigInt(a.dep) }); ret = retOf(res); }
  else {
    res = c.call(a.by, F, a.act, argsFor(a), { deposit: BigInt(a.dep), results: a.act.startsWith('on_') && a.by !== F ? [answer(a.res === 'failed' ? 'failed' : 'x')] : [] });
    if (!res.ok && w.obs) return { ok: false, ret, eff: [], obs: w.obs, error: res.error };
    if (a.act === 'new' && res.ok) w.init = true; else if (!res.returned) ret = retOf(res);
  }
  const eff = creations(effects(res.created, F, { whole: true, codeName: codeNames(w.code) }), (o) => ({ ...o, stake_public_key: keyOfText(o.stake_public_key) }));
  for (const r of res.created) if (!r.inputs.length) w.ops.push(r.id);
  return { ok: res.ok, ret, eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => memoByState(w.chain, [F, WL, ...w.cfg.names], w.init + w.cfg.names.join() + Object.values(w.owners).join(), () => {
  const bal = String(w.chain.account(F).balance); if (!w.init) return { init: false, bal };
  const V = (m, args = {}) => viewOr(w.chain, F, m, args); const pools = {};
  for (const n of w.cfg.names) if (w.chain.account(n)) pools[n] = lookPool(w.chain, n, [w.owners[n]], true);
  return { init: true, bal, min: V('get_min_attached_balance'), n: V('get_number_of_staking_pools_created'), pools, white: w.cfg.names.filter((x) => viewOr(w.chain, WL, 'is_whitelisted', { staking_pool_account_id: x }) !== false).sort() };
});

// ---- random histories ------------------------------------------------------------------------------
const NAMES = ['p1', 'p2', 'p3', 'p4', 'p5', 'p6', 'p7', 'p8', 'a_b-c', 'x', '0', 'p'.repeat(57), 'ab'], BADS = ['', 'a.b', 'a.', 'Bad!', '-a', 'a-', 'a__b', 'q'.repeat(58)];
const MIN = 30n * 10n ** 24n;
export const randomCfg = (R) => ({ balance: String(R.big(10n ** 26n)), epoch: String(R.int(100)), names: [...new Set([...NAMES, ...Array.from({ length: 6 }, () => goodName(R))])].map((n) => n + '.' + F) });
export function gen(R, w, obs) {
  const who = () => R.pick(USERS.slice(0, 3));
  if (!obs.init && R.chance(0.9)) return { act: 'new', by: who(), dep: R.chance(0.03) ? '1' : '0', wl: R.weighted([[8, WL], [1, 'gone.near'], [0.8, badId(R)]]) };
  const k = R.weighted([[3.5, 'create'], [w.ops.length ? 7 : 0.05, 'exec'], [1, 'white'], [0.25, 'cb'], [0.1, 'new']]);
  if (k === 'exec') return { act: 'env_exec', i: String(1 + R.int(Math.max(1, w.ops.length))), good: R.chance(0.7) };
  if (k === 'white') return { act: 'whitelist', m: R.weighted([[4, 'add_factory'], [1.5, 'remove_factory'], [1, 'add_staking_pool'], [1, 'remove_staking_pool']]), by: R.chance(0.8) ? 'found.near' : who(), dep: '0', id: R.chance(0.6) ? F : R.pick(w.cfg.names) };
  if (k === 'cb') return { act: 'on_staking_pool_create', by: R.chance(0.2) ? lookalike(R, F) : R.pick([...USERS, F, w.cfg.names[0]].filter((u) => w.chain.account(u))), dep: '0', id: R.pick(w.cfg.names), amount: String(R.big(MIN)), who: who(), res: R.chance(0.5) ? 'failed' : 'fine' };
  if (k === 'new') return { act: 'new', by: who(), dep: '0', wl: WL };
  const d = (1 + R.int(2 ** 31)), fee = R.weighted([[5, { n: String(R.int(d + 1)), d: String(d) }], [1, { n: '0', d: '1' }], [1, { n: '1', d: '1' }], [0.4, { n: String(d + 1), d: String(d) }], [0.3, { n: '0', d: '0' }], [1, { n: '4294967295', d: '4294967295' }]]);
  return { act: 'create_staking_pool', by: who(), dep: String(R.weighted([[3, () => MIN], [3, () => MIN + R.big(10n ** 27n)], [0.4, () => MIN - 1n], [0.2, () => R.big(MIN)]])()),
    id: R.chance(0.92) ? R.pick(R.chance(0.4) ? w.cfg.names.slice(0, 4) : w.cfg.names).slice(0, -F.length - 1) : R.chance(0.5) ? R.pick(BADS) : badId(R), owner: R.weighted([[5, 'owner.near'], [2, () => 'alice.near'], [0.7, badId(R)], [1, F], [0.4, 'o'.repeat(64)], [0.3, 'o'.repeat(65)]].map(([p, v]) => [p, typeof v === 'function' ? v() : v])), key: R.chance(0.96) ? R.pick(['k1', 'k2', 'k3']) : 'bad', fee };
}
