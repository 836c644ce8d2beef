// Drives the real wNEAR contract through the actions of spec/WNear.tla. Users and receivers are stubs:
// payments reach them at once, and the action says what a receiver answers.
import { Chain, TGAS, answer, jsonBytes } from '../near.mjs';
import { effects, retOf, viewOr, memoByState, lookalike, badId } from '../lib.mjs';
export const spec = 'WNear';
export const wasm = ['w-near'];
const W = 'w.near', USERS = ['alice.near', 'bob.near', 'app.near', 'carol.near', 'a'.repeat(64)];
export function setup(cfg, code) {
  const chain = new Chain(); chain.create(W, { balance: BigInt(cfg.balance), code: code['w-near'] });
  for (const u of USERS) chain.create(u, { balance: 10n ** 36n, stub: true });
  return { chain, cfg, init: false, ops: [], obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot(), ops: w.ops.slice() });
const opt = (x) => (x === 'none' ? null : x === 'true' ? true : x === 'false' ? false : x);
function argsFor(a) {
  switch (a.act) {
    case 'near_withdraw': return { amount: a.amount };
    case 'ft_transfer': return { receiver_id: a.to, amount: a.amount, memo: opt(a.memo) };
    case 'ft_transfer_call': return { receiver_id: a.to, amount: a.amount, memo: opt(a.memo), msg: a.msg };
    case 'ft_resolve_transfer': return { sender_id: a.from, receiver_id: a.to, amount: a.amount };
    case 'storage_deposit': return { account_id: opt(a.who), registration_only: opt(a.only) };
    case 'storage_withdraw': return { amount: opt(a.amount) };
    case 'storage_unregister': return { force: opt(a.force) };
    default: return {};
  }
}
export function exec(w, a, quiet) {
  const c = w.chain; let res, ret = 'none';
  const op = a.i ? w.ops[Number(a.i) - 1] : null;
  if (a.act === 'env_answer') {
    const r = op && c.receipts.find((x) => x.id === op.call); if (!r) return { ok: false, ret, eff: [], obs: w.obs };
    res = c.run(r.id, { outcome: { ok: a.good, value: a.val === 'none' ? new Uint8Array(0) : jsonBytes(a.val === 'garbage' ? { x: 1 } : a.val) } }); res.created = [];
  } else if (a.act === 'env_cb') {
    const r = op && c.receipts.find((x) => x.id === op.cb && c.ready(x)); if (!r) return { ok: false, ret, eff: [], obs: w.obs };
    res = c.run(r.id); ret = retOf(res); w.ops.splice(Number(a.i) - 1, 1);
  } else if (a.act === 'env_donate') { const p = c.account(W).clone(); p.balance += BigInt(a.amount); c.accounts.set(W, p); res = { ok: true, created: [] }; }
  else {
    const results = a.act === 'ft_resolve_transfer' && a.by !== W ? [answer(a.res)] : [];
    res = c.call(a.by, W, a.act, argsFor(a), { deposit: BigInt(a.dep), results, gas: BigInt(a.gas ?? 300) * TGAS });
    if (!res.ok && w.obs) return { ok: false, ret, eff: [], obs: w.obs, error: res.error };
    if (a.act === 'new' && res.ok) w.init = true;
    if (!res.returned) ret = retOf(res);
  }
  const eff = effects(res.created, W);
  for (const r of res.created) {
    if (r.actions.every((x) => x.kind === 'transfer')) { c.run(r.id); continue; }
    if (r.receiver === W) continue;
    const cb = c.receipts.find((x) => x.receiver === W && r.outputs.some((o) => o.receipt === x.id));
    w.ops.push({ call: r.id, cb: cb ? cb.id : null });
  }
  return { ok: res.ok, ret, eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => memoByState(w.chain, W, w.init + w.cfg.univ.join(), () => {
  const bal = String(w.chain.account(W).balance); if (!w.init) return { init: false, bal };
  const V = (m, args = {}) => viewOr(w.chain, W, m, args); const held = {}, storage = {};
  for (const u of w.cfg.univ) { held[u] = V('ft_balance_of', { account_id: u }); const b = V('storage_balance_of', { account_id: u }); if (b !== 'none') storage[u] = b; }
  return { init: true, bal, supply: V('ft_total_supply'), held, storage, bounds: V('storage_balance_bounds'), legacyMin: V('storage_minimum_balance'), meta: V('ft_metadata') };
});
// ---- random histories ------------------------------------------------------------------------------
const MIN = 1250000000000000000000n, U128 = 2n ** 128n;
export const randomCfg = (R) => ({ balance: String(R.big(10n ** 24n)), univ: [...USERS, 'nobody.near'] });
export function gen(R, w, obs) {
  const who = () => R.pick(USERS), yocto = () => R.weighted([[30, '1'], [1, '0'], [1, '2']]);
  if (!obs.init) return R.chance(0.8) ? { act: 'new', by: who(), dep: R.chance(0.1) ? '1' : '0' } : R.pick([{ act: 'near_deposit', by: who(), dep: String(MIN) }, { act: 'storage_unregister', by: who(), dep: '1', force: 'none' }]);
  const someone = () => (R.chance(0.03) ? R.pick([badId(R), badId(R), 'nobody.near']) : who());
  const rich = USERS.filter((u) => BigInt(obs.held[u]) > 0n);
  const amt = (u) => { const h = BigInt(obs.held[u] ?? 0); return String(R.weighted([[4, () => 1n + R.big(h || 1n)], [2, () => h], [0.5, () => h + 1n], [0.4, () => 0n], [0.5, () => 1n], [0.15, () => U128 - 1n], [0.1, () => U128]])()); };
  const ready = w.ops.map((o, i) => [o, i]).filter(([o]) => w.chain.receipts.some((x) => x.id === o.cb && w.chain.ready(x))).map(([, i]) => i);
  const waiting = w.ops.map((_, i) => i).filter((i) => !ready.includes(i));
  const by = rich.length && R.chance(0.85) ? R.pick(rich) : who();
  switch (R.weighted([[4, 'in'], [2, 'out'], [3, 'move'], [4, 'call'], [waiting.length ? 3.5 : 0.05, 'answer'], [ready.length ? 3.5 : 0.05, 'cb'], [2, 'reg'], [0.4, 'take'], [1, 'leave'], [0.3, 'fake'], [0.15, 'donate'], [0.1, 'new']])) {
    case 'in': return { act: 'near_deposit', by: who(), dep: String(R.weighted([[5, () => MIN + R.big(10n ** BigInt(R.int(28)))], [2, () => R.big(10n ** BigInt(R.int(28)))], [0.4, () => MIN], [0.4, () => MIN - 1n], [0.3, () => 0n], [0.2, () => 1n]])()) };
    case 'out': return { act: 'near_withdraw', by, dep: yocto(), amount: amt(by) };
    case 'move': return { act: 'ft_transfer', by, dep: yocto(), to: someone(), amount: amt(by), memo: R.chance(0.5) ? 'none' : 'thanks' };
    case 'call': return { act: 'ft_transfer_call', by, dep: yocto(), to: someone(), amount: amt(by), memo: R.chance(0.7) ? 'none' : 'm', msg: R.pick(['', 'hi', '{"a":1}']), gas: R.chance(0.03) ? '20' : '300' };
    case 'answer': return { act: 'env_answer', i: String(1 + (waiting.length ? R.pick(waiting) : 0)), good: R.chance(0.85), val: R.weighted([[3, '0'], [5, () => String(R.big(10n ** BigInt(R.int(28))))], [1, 'garbage'], [1, 'none'], [0.7, () => String(U128 - 1n)], [0.5, () => String(U128)]].map(([p, v]) => [p, typeof v === 'function' ? v() : v])) };
    case 'cb': return { act: 'env_cb', i: String(1 + (ready.length ? R.pick(ready) : R.int(3))) };
    case 'reg': return { act: 'storage_deposit', by: who(), dep: String(R.weighted([[4, () => MIN], [3, () => MIN + R.big(10n ** 24n)], [0.6, () => MIN - 1n], [0.5, () => 0n], [0.5, () => R.big(MIN)]])()), who: R.chance(0.4) ? 'none' : someone(), only: R.pick(['none', 'true', 'false']) };
    case 'take': return { act: 'storage_withdraw', by: who(), dep: yocto(), amount: R.pick(['none', '0', '1', String(MIN)]) };
    case 'leave': return { act: 'storage_unregister', by: who(), dep: yocto(), force: R.pick(['none', 'true', 'false']) };
    case 'fake': return { act: 'ft_resolve_transfer', by: R.weighted([[0.7, who()], [0.1, lookalike(R, W)], [0.2, W]]), dep: '0', from: who(), to: who(), amount: amt(by), res: R.chance(0.5) ? 'failed' : String(R.big(100n)) };
    case 'donate': return { act: 'env_donate', amount: String(R.big(10n ** 26n)) };
    case 'new': return { act: 'new', by: who(), dep: '0' };
  }
}
