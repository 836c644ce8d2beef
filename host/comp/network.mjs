// The real factories, whitelist, pools, lockups and wallet together, through spec/Network.tla. The drivers of the
// factories and of the multisig are used as they are, on one chain.
import { Chain, text } from '../near.mjs';
import { effects, retOf, memoByState } from '../lib.mjs';
import * as Lockup from './lockup.mjs';
import * as Pool from './staking_pool.mjs';
import * as F from './pool_factory.mjs';
import * as K from './lockup_factory.mjs';
import * as M from './multisig.mjs';
export const spec = 'Network', eager = true;
export const wasm = ['staking-pool-factory', 'staking-pool', 'whitelist', 'lockup-factory', 'lockup', 'multisig2'];
const FA = 'f.near', LF = 'lf.near', WALLET = 'msig.near', WL = 'wl.near', FOUND = 'found.near';
const lid = (w) => w.lid;

export function setup(cfg, code) {
  // One chain for all: each driver sets its part up on a chain of its own, and the accounts are brought together.
  const kc = { self: LF, balance: cfg.balance, time: cfg.time, sched: cfg.sched, salt: cfg.salt, owners: cfg.owners };
  const f = F.setup({ balance: cfg.balance, epoch: cfg.epoch, names: cfg.names }, code), k = K.setup(kc, code), m = M.setup(cfg.wallet, code), chain = new Chain();
  chain.time = BigInt(cfg.time); chain.epoch = BigInt(cfg.epoch);
  for (const x of [m, k, f]) for (const [id, a] of x.chain.accounts) chain.accounts.set(id, a);
  for (const u of ['oper.near', 'alice.near', 'bob.near', 'carol.near', FOUND]) chain.create(u, { balance: 10n ** 36n });
  for (const u of ['out.near', 'treasury.near']) chain.create(u, { balance: 10n ** 36n, stub: true });
  for (const x of [f, k, m]) x.chain = chain;
  const must = (r) => { if (!r.ok) throw new Error('setup: ' + r.error); };
  must(F.exec(f, { act: 'new', by: FOUND, dep: '0', wl: WL }, true)); must(K.exec(k, { act: 'new', by: FOUND, dep: '0', wl: WL, found: FOUND }, true)); must(M.exec(m, cfg.make, true));
  if (m.ops.length) must(M.exec(m, { act: 'env_exec', i: '1', good: true }, true));
  const w = { chain, cfg, code, kc, f, k, m, lid: K.idOf(kc, WALLET), ops: [], obs: null };
  for (const a of cfg.pre) { const r = exec(w, a, true); if (r.error && !r.ok) throw new Error('setup: ' + JSON.stringify(a) + r.error); }
  w.obs = null; return w;
}
export const clone = (w) => { const chain = w.chain.snapshot(); return { ...w, chain, f: { ...F.clone(w.f), chain }, k: { ...K.clone(w.k), chain }, m: { ...M.clone(w.m), chain }, ops: w.ops.slice() }; };
const isStake = (p) => (r) => r.predecessor === p && r.actions[0]?.kind === 'stake', isCb = (p) => (r) => r.predecessor === p && r.receiver === p && r.actions[0]?.kind === 'call', isPayout = (p) => (r) => r.predecessor === p && r.actions[0]?.kind === 'transfer';

export function exec(w, a, quiet) {
  const c = w.chain, L = w.lid; let res = { ok: true, created: [] }, ret = 'none', eff = [], self = null;
  const sub = (D, x, act) => { const r = D.exec(x, act, true); res = r; ret = r.ret; eff = r.eff; };
  const first = (f, o) => { const r = c.receipts.find((x) => f(x) && c.ready(x)); return r ? c.run(r.id, o) : { ok: false, created: [] }; };
  switch (a.act) {
    case 'create_pool': sub(F, w.f, { ...a, act: 'create_staking_pool' }); break;
    case 'create_lockup': sub(K, w.k, { ...a, act: 'create' }); break;
    case 'whitelist': sub(F, w.f, a); break;
    case 'env_factory': sub(F, w.f, { ...a, act: 'env_exec' }); break;
    case 'env_lockups': sub(K, w.k, { ...a, act: 'env_exec' }); break;
    case 'wallet': sub(M, w.m, a.a); break;
    case 'env_wallet': {
      const id = w.m.ops[Number(a.i) - 1], r = id && c.receipts.find((x) => x.id === id[0]);
      if (r && r.receiver === L) { self = L; w.m.ops.splice(Number(a.i) - 1, 1); res = c.run(r.id); } else sub(M, w.m, { ...a, act: 'env_exec' });
      break;
    }
    case 'lockup': self = L; res = c.account(L) ? c.call(a.a.by, L, a.a.act, Lockup.argsFor(a.a), { deposit: BigInt(a.a.dep) }) : { ok: false, created: [] }; ret = res.returned ? 'none' : retOf(res); break;
    case 'pool': self = a.p; res = c.account(a.p) ? c.call(a.a.by, a.p, a.a.act, Pool.argsFor(a.a), { deposit: BigInt(a.a.dep) }) : { ok: false, created: [] }; ret = retOf(res); break;
    case 'env_remote': {
      const op = w.ops[Number(a.i) - 1], r = op && c.receipts.find((x) => x.id === op.call); if (!r) { res = { ok: false, created: [] }; break; }
      self = r.receiver; const to = c.account(self), stub = to && to.stub;
      res = c.run(r.id, stub ? { outcome: { ok: a.good } } : {}); if (stub || self === WALLET) res.created = [];
      if (op.cb === null) w.ops.splice(Number(a.i) - 1, 1);
      break;
    }
    case 'env_cb': {
      const op = w.ops[Number(a.i) - 1], r = op && c.receipts.find((x) => x.id === op.cb && c.ready(x)); if (!r) { res = { ok: false, created: [] }; break; }
      self = L; res = c.run(r.id); w.ops.splice(Number(a.i) - 1, 1); ret = res.returned ? 'none' : retOf(res); break;
    }
    case 'env_stake': self = a.p; res = first(isStake(a.p), { stakeFails: a.refuse }); break;
    case 'env_pool_cb': self = a.p; res = first(isCb(a.p)); break;
    case 'env_xfer': {
      const r = c.receipts.find(isPayout(a.p)); if (!r) { res = { ok: false, created: [] }; break; }
      if (a.refuse && r.receiver !== L) { c.receipts.splice(c.receipts.indexOf(r), 1); const p = c.account(a.p).clone(); p.balance += r.actions[0].deposit; c.accounts.set(a.p, p); res = { ok: false, created: [] }; } else { res = c.run(r.id); res.created = []; }
      break;
    }
    case 'env_epoch':
      c.epoch += BigInt(a.n);
      for (const p of w.cfg.names) if (a.earned[p] && c.account(p)) { const x = c.account(p).clone(); x.locked += BigInt(a.earned[p].reward) - BigInt(a.earned[p].unlock); x.balance += BigInt(a.earned[p].unlock); c.accounts.set(p, x); }
      break;
    case 'env_time': c.time += BigInt(a.d); break;
  }
  if (!res.ok && !a.act.startsWith('env_') && w.obs) return { ok: false, ret: 'none', eff: [], obs: w.obs, error: res.error };
  if (self) {
    const back = (x) => JSON.parse(JSON.stringify(x).split(L).join('lockup.near'));
    eff = effects(res.created, self, { keyName: Pool.keyName }); if (self === L) eff = back(eff);
    for (const r of res.created) if (r.predecessor === L && r.receiver !== L) {
      const cb = c.receipts.find((x) => x.receiver === L && r.outputs.some((o) => o.receipt === x.id));
      w.ops.push({ call: r.id, cb: cb ? cb.id : null });
    }
  }
  return { ok: res.ok, ret, eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => ({ pools: F.observe(w.f), lockups: K.observe(w.k), wallet: M.observe(w.m) });

// ---- random histories ------------------------------------------------------------------------------
const YEAR = 31536000000000000n, GEN = 1602614338293769340n, NEAR = 10n ** 24n, RESERVE = 35n * 10n ** 23n;
const NAMES = ['p1', 'p2', 'p3'].map((x) => x + '.' + FA), MEMBERS = [{ kind: 'account', account: 'alice.near' }, { kind: 'account', account: 'bob.near' }, { kind: 'key', key: 'k1' }, { kind: 'key', key: 'k2' }];
export function randomCfg(R) {
  const t0 = GEN + R.big(YEAR), start = t0 - R.big(2n * YEAR), cliff = start + R.big(YEAR), end = cliff + R.big(3n * YEAR) + 1n, n = 1 + R.int(4), ms = R.shuffle(MEMBERS).slice(0, n);
  return { balance: String(R.big(10n ** 26n)), epoch: String(R.int(50)), time: String(t0), sched: { start: String(start), cliff: String(cliff), end: String(end) }, salt: R.pick(['c2FsdA==', '']), names: NAMES, owners: [WALLET, 'alice.near'],
    wallet: { v: '2', balance: String(R.big(10n ** 27n)), time: String(t0), keys: [{ key: 'k0', full: true }], univ: ['k:k1', 'k:k2', 'a:alice.near', 'a:bob.near', 'a:carol.near'] },
    make: { act: 'new', by: 'creator.near', pk: 'km', dep: '0', K: String(1 + R.int(n < 3 ? n : 2)), members: ms }, pre: [] };
}
const METHODS = ['select_staking_pool', 'unselect_staking_pool', 'deposit_to_staking_pool', 'deposit_and_stake', 'withdraw_from_staking_pool', 'withdraw_all_from_staking_pool', 'stake', 'unstake', 'unstake_all', 'refresh_staking_pool_balance', 'transfer'];
export function gen(R, w, obs) {
  const c = w.chain, L = w.lid, o = obs.lockups.locks[L], pools = Object.keys(obs.pools.pools), N = (x) => (x === 'panic' || x === undefined ? 0n : BigInt(x));
  const around = (x) => String(R.weighted([[3, () => x], [1, () => x + 1n], [1, () => (x > 0n ? x - 1n : 0n)], [2, () => R.big(x + 1n)], [1, () => x / 2n], [0.4, () => BigInt(R.int(3))]])());
  const calls = w.ops.map((_, i) => i).filter((i) => c.receipts.some((r) => r.id === w.ops[i].call)), cbs = w.ops.map((_, i) => i).filter((i) => !calls.includes(i));
  const busyPools = (f) => pools.filter((p) => c.receipts.some((r) => f(p)(r) && c.ready(r))), st = busyPools(isStake), pc = busyPools(isCb), po = busyPools(isPayout);
  const term = o && o.status !== 'none', reqs = Object.keys(obs.wallet.reqs), sel = o && o.pool !== 'none', open = sel ? obs.pools.white.includes(o.pool) : false;
  const spend = o && N(o.bal) > RESERVE ? N(o.bal) - RESERVE : 0n, mine = sel && obs.pools.pools[o.pool] && obs.pools.pools[o.pool].list && obs.pools.pools[o.pool].list[L] || { un: '0', st: '0' };
  const member = () => { const ms = obs.wallet.members; const m = R.chance(0.95) && ms.length ? R.pick(ms) : 'a:carol.near'; return m.startsWith('a:') ? [m.slice(2), R.pick(['ka', 'kb'])] : [WALLET, m.slice(2)]; };
  const wallet = (x) => { const [by, pk] = member(); return { act: 'wallet', a: { by, pk, dep: '0', ...x } }; };
  const person = () => R.pick(['alice.near', 'bob.near', 'oper.near']);
  const fn = () => {
    const m = R.weighted([[sel ? 0.2 : 4, 'select_staking_pool'], [sel ? 0.5 : 0.1, 'unselect_staking_pool'], [1, 'deposit_to_staking_pool'], [2, 'deposit_and_stake'], [0.8, 'withdraw_from_staking_pool'], [0.8, 'withdraw_all_from_staking_pool'], [0.5, 'stake'], [0.7, 'unstake'], [0.7, 'unstake_all'], [0.5, 'refresh_staking_pool_balance'], [2, 'transfer'], [0.1, 'nothing']].map(([p, k]) => [sel || k === 'select_staking_pool' || k === 'transfer' ? p : p / 8, k]));
    const args = m === 'select_staking_pool' ? { staking_pool_account_id: R.chance(0.85) && obs.pools.white.length ? R.pick(obs.pools.white) : R.pick(NAMES) } : m === 'transfer' ? { amount: around(o ? N(o.liquid) : 5n), receiver_id: R.pick(['out.near', WALLET]) }
      : m.startsWith('deposit') ? { amount: around(spend) } : m === 'withdraw_from_staking_pool' || m === 'stake' ? { amount: around(N(mine.un)) } : m === 'unstake' ? { amount: around(N(mine.st)) } : {};
    return { type: 'FunctionCall', method_name: m, args, deposit: R.chance(0.02) ? '1' : '0', gas: m === 'withdraw_all_from_staking_pool' ? '185000000000000' : '130000000000000' };
  };
  const fns = () => { const a = fn(), b = fn(), big = (x) => x.gas[1] === '8'; return R.chance(0.12) && !big(a) && !big(b) ? [a, b] : [a]; }; // within 300 Tgas
  const request = () => R.chance(0.8) ? { receiver_id: L, actions: [...(R.chance(0.1) ? [{ type: 'Transfer', amount: String(R.big(N(obs.wallet.bal) / 2n + 1n)) }] : []), ...fns()] }
    : R.chance(0.5) ? { receiver_id: R.pick(['out.near', WALLET]), actions: [{ type: 'Transfer', amount: around(N(obs.wallet.bal)) }] }
      : { receiver_id: WALLET, actions: [R.pick([{ type: 'SetNumConfirmations', num_confirmations: String(1 + R.int(3)) }, { type: 'AddMember', member: R.pick(MEMBERS) }, { type: 'DeleteMember', member: R.pick(MEMBERS) }])] };
  const kind = R.weighted([
    [w.f.ops.length * 3, 'env_factory'], [w.k.ops.length * 4, 'env_lockups'], [w.m.ops.length * 4, 'env_wallet'], [calls.length * 4, 'env_remote'], [cbs.length * 4, 'env_cb'], [st.length * 3, 'env_stake'], [pc.length * 3, 'env_pool_cb'], [po.length * 3, 'env_xfer'],
    [pools.length < 3 ? 1.2 : 0.1, 'create_pool'], [o ? 0.15 : w.k.ops.length ? 0.5 : 4, 'create_lockup'], [obs.pools.white.length ? 0.4 : 1.5, 'whitelist'], [reqs.length > 4 ? 0.3 : o ? 3.5 : 1, 'add'], [reqs.length ? 6 : 0.05, 'confirm'], [reqs.length ? 0.3 : 0, 'delete'],
    [sel ? 2 : 0.3, 'env_epoch'], [0.7, 'env_time'], [o && o.vesting.kind === 'schedule' ? 0.3 : 0.02, 'term'], [term && o.status !== 'ReadyToWithdraw' ? 4 : 0.02, 'prepare'], [term && o.status === 'ReadyToWithdraw' ? 3 : 0.02, 'pay'], [0.15, 'stranger'], [pools.length ? 1.5 : 0, 'other'], [pools.length ? 0.15 : 0, 'operator']]);
  const some = (q) => String(1 + R.int(Math.max(1, q.length))), lk = (x) => ({ act: 'lockup', a: { by: FOUND, dep: '0', ...x } });
  switch (kind) {
    case 'env_factory': return { act: kind, i: some(w.f.ops), good: R.chance(0.75) };
    case 'env_lockups': return { act: kind, i: some(w.k.ops), good: R.chance(0.85) };
    case 'env_wallet': return { act: kind, i: some(w.m.ops), good: R.chance(0.8) };
    case 'env_remote': return { act: kind, i: String(R.pick(calls) + 1), good: R.chance(0.8) };
    case 'env_cb': return { act: kind, i: String(R.pick(cbs) + 1) };
    case 'env_stake': { const p = R.pick(st), r = c.receipts.find(isStake(p)); return { act: kind, p, refuse: r.actions[0].amount > 0n && R.chance(0.15) }; }
    case 'env_pool_cb': return { act: kind, p: R.pick(pc) };
    case 'env_xfer': return { act: kind, p: R.pick(po), refuse: R.chance(0.15) };
    case 'create_pool': { const d = 1 + R.int(1000); return { act: kind, by: person(), dep: String(30n * NEAR + R.weighted([[1, () => 0n], [2, () => R.big(10n ** 27n)], [0.2, () => -1n]])()), id: R.pick(['p1', 'p2', 'p3']), owner: 'oper.near', key: R.pick(['k1', 'k2']), fee: { n: String(R.int(d + 1)), d: String(d) } }; }
    case 'create_lockup': { const v = R.chance(0.5);
      return { act: kind, by: person(), dep: String(RESERVE + R.weighted([[1, () => R.big(10n ** 20n)], [3, () => R.big(10n ** 29n)], [0.2, () => -1n]])()), owner: R.chance(0.85) ? WALLET : 'alice.near', wl: R.chance(0.9) ? 'none' : WL, dur: R.chance(0.7) ? '0' : String(R.big(YEAR)), rel: R.chance(0.5) ? 'none' : String(R.big(3n * YEAR) + 1n), ts: 'none', vesting: v ? { kind: 'schedule', sched: w.cfg.sched } : { kind: 'none' } }; }
    case 'whitelist': return { act: kind, m: R.weighted([[obs.pools.white.length ? 0.3 : 4, 'add_factory'], [0.3, 'remove_factory'], [0.6, 'add_staking_pool'], [0.5, 'remove_staking_pool']]), by: R.chance(0.9) ? FOUND : person(), dep: '0', id: FA, ...(R.chance(0.5) ? {} : { id: R.pick([FA, ...NAMES]) }) };
    case 'add': return wallet({ act: R.chance(0.75) ? 'add_request_and_confirm' : 'add_request', request: request() });
    case 'confirm': return wallet({ act: 'confirm', id: R.pick(reqs.length ? reqs : ['0']) });
    case 'delete': return wallet({ act: 'delete_request', id: R.pick(reqs) });
    case 'env_epoch': { const earned = {};
      for (const p of pools) { const x = c.account(p), prop = x.stake ? x.stake.amount : 0n, reward = x.locked === 0n ? 0n : R.chance(0.3) ? 0n : R.big(x.locked / 100n + 5n), free = x.locked + reward > prop ? x.locked + reward - prop : 0n; earned[p] = { reward: String(reward), unlock: String(R.chance(0.85) ? free : R.big(free + 1n)) }; }
      return { act: kind, n: String(R.weighted([[2, 1], [1, 2], [2, 4], [0.2, 5 + R.int(10 ** (1 + R.int(4)))]])), earned }; }
    case 'env_time': return { act: kind, d: String(R.weighted([[2, () => R.big(YEAR / 2n)], [1, () => 900000000001n]])()) };
    case 'term': return lk({ act: 'terminate_vesting', reveal: false, sched: w.cfg.sched, salt: 'none' });
    case 'prepare': return lk({ act: 'termination_prepare_to_withdraw' });
    case 'pay': return lk({ act: 'termination_withdraw', receiver: R.pick(['treasury.near', WALLET]), receiverValid: true });
    case 'stranger': return lk({ by: R.pick(['alice.near', LF, FA, FOUND]), act: R.pick(['unstake_all', 'withdraw_all_from_staking_pool', 'unselect_staking_pool', 'refresh_staking_pool_balance']) });
    case 'other': { const p = R.pick(pools), by = R.pick(['alice.near', 'carol.near']), l = obs.pools.pools[p].list, m = (l && l !== 'panic' && l[by]) || { un: '0', st: '0' }, k = R.pick(['deposit_and_stake', 'deposit_and_stake', 'deposit', 'stake', 'unstake', 'unstake_all', 'withdraw', 'withdraw_all', 'ping']);
      return { act: 'pool', p, a: { act: k, by, dep: k.startsWith('deposit') ? String(R.big(10n ** BigInt(1 + R.int(27))) + 1n) : '0', ...(k === 'stake' || k === 'withdraw' ? { amount: around(N(m.un)) } : k === 'unstake' ? { amount: around(N(m.st)) } : {}) } }; }
    case 'operator': return { act: 'pool', p: R.pick(pools), a: { act: R.pick(['pause_staking', 'resume_staking', 'resume_staking', 'unstake_all']), by: 'oper.near', dep: '0' } };
  }
}
