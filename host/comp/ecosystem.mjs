// The real lockup, staking pool, whitelist and voting contracts together, through spec/Ecosystem.tla.
import { Chain, text } from '../near.mjs';
import { effects, retOf, memoByState, viewOr } from '../lib.mjs';
import * as Lockup from './lockup.mjs';
import * as Pool from './staking_pool.mjs';
import * as Poll from './voting.mjs';
export const spec = 'Ecosystem';
export const eager = true;
export const wasm = ['lockup', 'staking-pool', 'whitelist', 'voting'];
const L = 'lockup.near', P = 'pool.near', W = 'wl.near', V = 'poll.near', PEOPLE = ['owner.near', 'found.near', 'creator.near', 'operator.near', 'alice.near', 'carol.near', 'other.near', 'nobody.near', 'mallory.near'];

export function setup(cfg, code) {
  const chain = new Chain(), c = chain; c.time = BigInt(cfg.lockup.time); c.epoch = BigInt(cfg.pool.epoch);
  c.validators = new Map(Object.entries(cfg.stakes).map(([k, v]) => [k, BigInt(v)]));
  c.create(L, { balance: BigInt(cfg.lockup.balance), code: code.lockup });
  c.create(P, { balance: BigInt(cfg.pool.balance), code: code['staking-pool'] });
  c.create(W, { balance: 10n ** 25n, code: code.whitelist }); c.create(V, { balance: 10n ** 25n, code: code.voting });
  for (const u of PEOPLE) c.create(u, { balance: 10n ** 36n });
  for (const u of ['bob.near', 'treasury.near']) c.create(u, { balance: 10n ** 36n, stub: true });
  const must = (r) => { if (!r.ok) throw new Error('setup: ' + r.error); };
  must(c.call('operator.near', P, 'new', Pool.argsFor(cfg.make)));
  while (c.receipts.length) c.run(c.receipts.find((r) => c.ready(r)).id);
  must(c.call('found.near', W, 'new', { foundation_account_id: 'found.near' })); must(c.call('found.near', W, 'add_staking_pool', { staking_pool_account_id: P }));
  must(c.call('found.near', V, 'new', {}));
  must(c.call('creator.near', L, 'new', Lockup.argsFor(cfg.terms)));
  return { chain, cfg, ops: [], obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot(), ops: w.ops.slice() });
const from = (who, f) => (r) => r.predecessor === who && f(r.actions[0]);
const isStake = from(P, (x) => x.kind === 'stake'), isCb = (r) => from(P, (x) => x.kind === 'call')(r) && r.receiver === P, isPayout = from(P, (x) => x.kind === 'transfer'), isVote = (r) => from(P, (x) => x.kind === 'call')(r) && r.receiver === V;
const WARG = { add_staking_pool: 'staking_pool_account_id', remove_staking_pool: 'staking_pool_account_id' };
const none = (w) => ({ ok: false, ret: 'none', eff: [], obs: w.obs });

export function exec(w, a, quiet) {
  const c = w.chain; let res = { ok: true, created: [] }, ret = 'none', self = L;
  const first = (f, o) => { const r = c.receipts.find((x) => f(x) && c.ready(x)); return r ? c.run(r.id, o) : { ok: false, created: [] }; };
  switch (a.act) {
    case 'lockup': res = c.call(a.a.by, L, a.a.act, Lockup.argsFor(a.a), { deposit: BigInt(a.a.dep) }); ret = res.returned ? 'none' : retOf(res); break;
    case 'pool': self = P; res = c.call(a.a.by, P, a.a.act, Pool.argsFor(a.a), { deposit: BigInt(a.a.dep) }); ret = a.a.act === 'vote' ? 'none' : retOf(res); break;
    case 'whitelist': self = W; res = c.call(a.a.by, W, a.a.act, { [WARG[a.a.act]]: a.a.id }, { deposit: BigInt(a.a.dep) }); ret = retOf(res); break;
    case 'poll': self = V; res = c.call(a.a.by, V, a.a.act, a.a.act === 'vote' ? { is_vote: a.a.yes } : {}, { deposit: BigInt(a.a.dep) }); ret = retOf(res); break;
    case 'env_remote': {
      const op = w.ops[Number(a.i) - 1], r = op && c.receipts.find((x) => x.id === op.call); if (!r) return none(w);
      self = r.receiver; const stub = c.account(self) && c.account(self).stub;
      res = c.run(r.id, stub ? { outcome: { ok: a.good } } : {}); if (stub) res.created = [];
      if (op.cb === null) w.ops.splice(Number(a.i) - 1, 1);
      break;
    }
    case 'env_cb': {
      const op = w.ops[Number(a.i) - 1], r = op && c.receipts.find((x) => x.id === op.cb && c.ready(x)); if (!r) return none(w);
      res = c.run(r.id); w.ops.splice(Number(a.i) - 1, 1); ret = res.returned ? 'none' : retOf(res); break;
    }
    case 'env_stake': self = P; res = first(isStake, { stakeFails: a.refuse }); break;
    case 'env_pool_cb': self = P; res = first(isCb); break;
    case 'env_xfer': { self = P; const r = c.receipts.find(isPayout); if (!r) return none(w);
      res = r.receiver === L ? c.run(r.id) : c.account(r.receiver).stub ? c.run(r.id, { outcome: { ok: !a.refuse } }) : a.refuse ? bounce(c, r) : c.run(r.id); res.created = []; break; }
    case 'env_vote': self = V; res = first(isVote); break;
    case 'env_epoch': { c.epoch += BigInt(a.n); const p = c.account(P).clone(); p.locked += BigInt(a.reward) - BigInt(a.unlock); p.balance += BigInt(a.unlock); c.accounts.set(P, p); c.validators = new Map([...c.validators, [P, p.locked]]); break; }
    case 'env_time': c.time += BigInt(a.d); break;
  }
  if (!res.ok && !a.act.startsWith('env_') && w.obs) return { ...none(w), error: res.error };
  const eff = effects(res.created, self, { keyName: Pool.keyName });
  for (const r of res.created) if (r.predecessor === L && r.receiver !== L) {
    const cb = c.receipts.find((x) => x.receiver === L && r.outputs.some((o) => o.receipt === x.id));
    w.ops.push({ call: r.id, cb: cb ? cb.id : null });
  }
  return { ok: res.ok, ret, eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
function bounce(c, r) { c.receipts.splice(c.receipts.indexOf(r), 1); const p = c.account(P).clone(); p.balance += r.actions[0].deposit; c.accounts.set(P, p); return { ok: false, created: [] }; }
export const observe = (w) => memoByState(w.chain, [L, P, W, V], [...w.chain.validators].join() + w.cfg.pool.users.join() + Object.values(w.cfg.lockup.sched).join(), () => ({
  lockup: Lockup.look(w.chain, L, w.cfg.lockup, true), pool: Pool.look(w.chain, P, w.cfg.pool.users, true),
  white: [P, 'pool2.near'].filter((x) => viewOr(w.chain, W, 'is_whitelisted', { staking_pool_account_id: x }) !== false), ...(({ result, voted, votes }) => ({ result, voted, votes }))(Poll.look(w.chain, V)) }));

// ---- random histories ------------------------------------------------------------------------------
const YEAR = 31536000000000000n, GEN = 1602614338293769340n, NEAR = 10n ** 24n;
export function randomCfg(R) {
  const t0 = GEN + R.big(YEAR), start = t0 - R.big(2n * YEAR), cliff = start + R.big(YEAR), end = cliff + R.big(3n * YEAR) + 1n;
  const aim = R.weighted([[4, 'any'], [3, 'collect'], [3, 'tiny']]), tiny = aim === 'tiny', collect = aim === 'collect'; // tiny: every division rounds
  const vesting = R.chance(collect ? 1 : 0.6), on = R.chance(collect ? 0.9 : 0.7), d = 1 + R.int(1000);
  return { aim,
    lockup: { balance: String(35n * 10n ** 23n + R.weighted([[tiny ? 20 : 2, () => R.big(10n ** BigInt(3 + R.int(tiny ? 2 : 28)))], [2, () => BigInt(100 + R.int(100000)) * NEAR]])()), time: String(t0), sched: { start: String(start), cliff: String(cliff), end: String(end) }, poll: !on },
    terms: { act: 'new', by: 'creator.near', dep: '0', valid: true, owner: 'owner.near', wl: W, found: vesting ? 'found.near' : 'none', dur: R.chance(0.6) ? '0' : String(R.big(YEAR)), rel: R.chance(collect ? 0.3 : 0.5) ? 'none' : String(R.big(3n * YEAR) + 1n), ts: 'none', on, xts: String(GEN), poll: V,
      vesting: vesting ? { kind: 'schedule', sched: { start: String(start), cliff: String(cliff), end: String(end) } } : { kind: 'none' } },
    pool: { users: ['operator.near', 'alice.near', 'carol.near', L], balance: String(R.weighted([[tiny ? 0 : 3, 30n * NEAR], [2, 10n ** 12n + 100n], [1, 10n ** 12n + 7n], [1, 10n ** 12n + 10n ** 9n]])), epoch: String(R.int(50)) },
    make: { act: 'new', by: 'operator.near', dep: '0', owner: 'operator.near', ownerValid: true, key: 'k1', keyValid: true, fee: { n: String(R.int(d + 1)), d: String(d) } },
    stakes: { 'pool.near': String(10 + R.int(30)), 'other.near': String(R.chance(0.7) ? R.int(20) : R.big(10n ** BigInt(6 + R.int(26)))), 'nobody.near': '0' },
  };
}
export function gen(R, w, obs) {
  const tiny = w.cfg.aim === 'tiny', collect = w.cfg.aim === 'collect', c = w.chain, o = obs.lockup, N = (x) => (x === 'panic' || x === undefined ? 0n : BigInt(x)), now = c.time;
  const wait = { stake: c.receipts.filter(isStake).length, cb: c.receipts.filter((r) => isCb(r) && c.ready(r)).length, pay: c.receipts.filter(isPayout).length, vote: c.receipts.filter(isVote).length };
  const calls = w.ops.filter((x) => c.receipts.some((r) => r.id === x.call)).length, cbs = w.ops.length - calls;
  const term = o.status !== 'none', sel = o.pool !== 'none', pick = (x, p, q) => (x ? p : q);
  const around = (x) => String(R.weighted([[3, () => x], [1, () => x + 1n], [1, () => (x > 0n ? x - 1n : 0n)], [2, () => R.big(x + 1n)], [1, () => x / 2n], [0.4, () => BigInt(R.int(3))]])());
  const lk = (x) => ({ act: 'lockup', a: { by: 'owner.near', dep: '0', ...x } }), fd = (x) => lk({ by: 'found.near', ...x }), pl = (x) => ({ act: 'pool', a: { dep: '0', ...x } });
  const up = (x, p, q) => (x ? p : q), eager = collect && !term; // to collect: most of it at the pool, then a termination before much is vested
  const spend = N(o.bal) > 35n * 10n ** 23n ? N(o.bal) - 35n * 10n ** 23n : 0n, mine = obs.pool.acc && obs.pool.acc !== 'panic' ? obs.pool.acc[L] : { un: '0', st: '0' }, rich = N(mine.un) + N(mine.st) > spend && N(o.unvested) > spend;
  const listed = obs.white.includes(P);
  const kind = R.weighted([
    [calls * 4, 'env_remote'], [cbs * 4, 'env_cb'], [wait.stake * 3, 'env_stake'], [wait.cb * 3, 'env_pool_cb'], [wait.pay * 3, 'env_xfer'], [wait.vote * 2, 'env_vote'], [N(mine.un) ? 2 : 0.8, 'env_epoch'], [up(collect, term ? 0.15 : 0.1, 0.8), 'env_time'],
    [pick(sel || term, 0.1, up(eager, 8, 3)), 'select'], [pick(sel, 0.5, 0.05), 'unselect'], [pick(sel && !term, up(eager && !rich, 8, 3), 0.2), 'dep'], [pick(sel && !term, 1, 0.1), 'wd'], [pick(sel && !term, 1, 0.1), 'wdall'], [pick(sel && !term, 0.7, 0.1), 'refresh'],
    [pick(sel && !term, 0.8, 0.1), 'stake'], [pick(sel && !term, 1, 0.1), 'unstake'], [pick(sel && !term, 0.7, 0.1), 'unstake_all'], [pick(o.on, 1, 0.1), 'send'], [pick(!o.on, 1, 0.1), 'check'], [pick(!o.on, 1.5, 0.05), 'vote'], [0.2, 'key'],
    [pick(['schedule'].includes(o.vesting.kind), collect ? (rich ? 5 : 0.05) : N(mine.st) ? 0.6 : 0.1, 0.02), 'term'], [pick(term && o.status !== 'ReadyToWithdraw', up(collect, 8, 4), 0.1), 'prepare'], [pick(o.status === 'ReadyToWithdraw', 6, 0.1), 'pay'],
    [up(collect, 0.8, 2.5), 'other'], [0.2, 'operator'], [listed ? 0.15 : 1.5, 'white']]);
  switch (kind) {
    case 'env_remote': { const is = w.ops.map((x, i) => i).filter((i) => c.receipts.some((r) => r.id === w.ops[i].call)); return { act: kind, i: String(R.pick(is) + 1), good: R.chance(0.8) }; }
    case 'env_cb': { const is = w.ops.map((x, i) => i).filter((i) => !c.receipts.some((r) => r.id === w.ops[i].call)); return { act: kind, i: String(R.pick(is) + 1) }; }
    case 'env_stake': { const r = c.receipts.find(isStake); return { act: kind, refuse: r.actions[0].amount > 0n && R.chance(0.15) }; }
    case 'env_pool_cb': case 'env_vote': return { act: kind };
    case 'env_xfer': return { act: kind, refuse: R.chance(0.15) };
    case 'env_epoch': { const p = c.account(P), prop = p.stake ? p.stake.amount : 0n, reward = p.locked === 0n ? 0n : tiny ? BigInt(R.int(40)) : R.weighted([[1, () => 0n], [3, () => R.big(p.locked / 100n + 5n)], [1, () => R.big(p.locked + 1n)]])(), free = p.locked + reward > prop ? p.locked + reward - prop : 0n;
      return { act: kind, n: String(R.weighted([[4, 1], [1, 2], [4, 4], [0.3, 5 + R.int(10 ** (1 + R.int(4)))]])), reward: String(reward), unlock: String(R.chance(0.8) ? free : R.big(free + 1n)) }; }
    case 'env_time': return { act: kind, d: String(R.big(YEAR / 2n)) };
    case 'select': return lk({ act: 'select_staking_pool', pool: R.chance(0.85) ? P : 'pool2.near', poolValid: true });
    case 'unselect': return lk({ act: 'unselect_staking_pool' });
    case 'dep': return lk({ act: R.chance(0.7) ? 'deposit_and_stake' : 'deposit_to_staking_pool', amount: eager && !rich && R.chance(0.6) ? String(spend - (spend > 400n ? BigInt(R.int(400)) : 0n)) : around(spend) });
    case 'wd': return lk({ act: 'withdraw_from_staking_pool', amount: around(N(mine.un)) });
    case 'wdall': return lk({ act: 'withdraw_all_from_staking_pool' });
    case 'refresh': return lk({ act: 'refresh_staking_pool_balance' });
    case 'stake': return lk({ act: 'stake', amount: around(N(mine.un)) });
    case 'unstake': return lk({ act: 'unstake', amount: around(N(mine.st)) });
    case 'unstake_all': return lk({ act: 'unstake_all' });
    case 'send': return lk({ act: 'transfer', amount: around(N(o.liquid)), receiver: 'bob.near', receiverValid: true });
    case 'check': return lk({ act: 'check_transfers_vote' });
    case 'vote': if (R.chance(0.5)) return pl({ act: 'vote', by: R.chance(0.9) ? 'operator.near' : 'owner.near', target: V, targetValid: true, vote: R.chance(0.8) });
      return { act: 'poll', a: { act: 'vote', by: R.pick(['pool.near', 'pool.near', 'other.near', 'nobody.near']), dep: '0', yes: R.chance(0.8) } };
    case 'key': return lk({ act: 'add_full_access_key', key: 'k1', keyValid: false });
    case 'term': return fd({ act: 'terminate_vesting', reveal: false, sched: w.cfg.lockup.sched, salt: 'none' });
    case 'prepare': return fd({ act: 'termination_prepare_to_withdraw' });
    case 'pay': return fd({ act: 'termination_withdraw', receiver: 'treasury.near', receiverValid: true });
    case 'other': { const by = R.pick(['alice.near', 'carol.near']), m = (obs.pool.acc && obs.pool.acc !== 'panic' && obs.pool.acc[by]) || { un: '0', st: '0' }, k = R.pick(['deposit_and_stake', 'deposit', 'stake', 'unstake', 'unstake_all', 'withdraw', 'withdraw_all', 'ping']);
      return pl({ act: k, by, ...(k.startsWith('deposit') ? { dep: String(R.big(10n ** BigInt(1 + R.int(tiny ? 2 : 27))) + 1n) } : {}), ...(k === 'stake' || k === 'withdraw' ? { amount: around(N(m.un)) } : k === 'unstake' ? { amount: around(N(m.st)) } : {}) }); }
    case 'operator': return pl({ act: R.pick(['pause_staking', 'resume_staking', 'resume_staking', 'unstake_all', 'withdraw_all']), by: 'operator.near' });
    case 'white': return { act: 'whitelist', a: { act: R.chance(listed ? 0.7 : 0.1) ? 'remove_staking_pool' : 'add_staking_pool', by: R.chance(0.8) ? 'found.near' : 'owner.near', dep: '0', id: P } }; // there is no second pool
  }
}
