// Drives the real multisig contracts (cfg.v "1": multisig, "2": multisig2) through the actions of spec/Multisig.tla.
import { Chain, key, keyB58, text, TGAS } from '../near.mjs';
import { norm, effects, argsOf, viewOr, memoByState, lookalike, badId } from '../lib.mjs';

export const spec = 'Multisig';
export const wasm = ['multisig'];
export const effOrdered = true;
const SELF = 'msig.near', METHODS = ['add_request', 'delete_request', 'confirm', 'add_request_and_confirm'];
export const NAMES = ['k0', 'k1', 'k2', 'k3', 'k4', 'k5', 'ka', 'kb', 'km', 'k6', 'k7', 'k8', 'k9'];
const FEW = NAMES.slice(0, 6), MANY = NAMES.filter((n) => /\d/.test(n));
export const KEYS = {}; NAMES.forEach((n, i) => (KEYS[n] = key(100 + i)));
const byKey = new Map(NAMES.map((n) => [keyB58(KEYS[n]), n]));
const keyName = (x) => { const t = typeof x === 'string' ? x.replace(/^ed25519:/, '') : keyB58(x); return t === 'nokey' ? 'bad' : byKey.get(t) ?? t; };
const keyText = (v, n) => (n === 'bad' ? 'nokey' : 'ed25519:' + keyB58(KEYS[n]));
const PEOPLE = ['alice.near', 'bob.near', 'carol.near', 'mallory.near', 'creator.near'];

export function setup(cfg, code) {
  const chain = new Chain(); chain.time = BigInt(cfg.time);
  const a = chain.create(SELF, { balance: BigInt(cfg.balance), code: cfg.v === '1' ? code.multisig : code.multisig2 });
  for (const k of cfg.keys) a.keys.set(Buffer.from(KEYS[k.key]).toString('latin1'), k.full ? 'full' : { receiver: SELF, allowance: null, methods: METHODS });
  for (const u of PEOPLE) chain.create(u, { balance: 10n ** 36n });
  return { chain, cfg, init: false, ops: [], obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot(), ops: w.ops.slice() });

export const memberJson = (v, m) => (m.kind === 'key' ? { public_key: keyText(v, m.key) } : { account_id: m.account });
const memberId = (j) => (j.public_key !== undefined ? 'k:' + keyName(j.public_key) : 'a:' + j.account_id);
export const memberOf = (j) => (j.public_key !== undefined ? { kind: 'key', key: keyName(j.public_key) } : { kind: 'account', account: j.account_id });
const idJson = (v, id) => (id.startsWith('k:') ? memberJson(v, { kind: 'key', key: id.slice(2) }) : { account_id: id.slice(2) });
const b64 = (s) => Buffer.from(s).toString('base64');
function callArgs(v, args) { // arguments of a function call request
  if (args.raw !== undefined) return Buffer.from(args.raw, 'hex');
  const o = { ...args };
  if (o.request_id !== undefined) o.request_id = Number(o.request_id);
  if (o.request && o.request.receiver_id !== undefined) o.request = requestJson(v, o.request);
  return Object.keys(o).length ? JSON.stringify(o) : '';
}
function argsBack(bytes) {
  const o = argsOf(bytes);
  if (o.request && o.request.actions) o.request = requestOf(o.request);
  return o;
}
export function requestJson(v, q) {
  return { receiver_id: q.receiver_id, actions: q.actions.map((x) => {
    const o = { ...x };
    if (x.public_key !== undefined) o.public_key = keyText(v, x.public_key);
    if (x.permission) { if (x.permission.kind === 'full') delete o.permission; else o.permission = { allowance: x.permission.allowance === 'none' ? null : x.permission.allowance, receiver_id: x.permission.receiver_id, method_names: x.permission.method_names }; }
    if (x.member) o.member = memberJson(v, x.member);
    if (x.code !== undefined) o.code = b64(x.code);
    if (x.args !== undefined) o.args = b64(callArgs(v, x.args));
    for (const n of ['num_confirmations', 'active_requests_limit']) if (x[n] !== undefined) o[n] = Number(x[n]);
    return o;
  }) };
}
function requestOf(j) { // a request as the contract shows it
  if (!j || !Array.isArray(j.actions)) return j;
  return { receiver_id: j.receiver_id, actions: j.actions.map((x) => {
    const o = { ...norm(x) };
    if (x.public_key !== undefined) o.public_key = keyName(x.public_key);
    if (x.type === 'AddKey') o.permission = x.permission && x.permission !== 'none' ? { kind: 'call', allowance: norm(x.permission.allowance ?? null), receiver_id: x.permission.receiver_id, method_names: x.permission.method_names } : { kind: 'full' };
    if (x.member) o.member = memberOf(x.member);
    if (x.code !== undefined) o.code = Buffer.from(x.code, 'base64').toString();
    if (x.args !== undefined) o.args = argsBack(Buffer.from(x.args, 'base64'));
    return o;
  }) };
}

export function exec(w, a, quiet) {
  const c = w.chain, v = w.cfg.v; let res;
  const top = a.act === 'env_exec' || a.act === 'env_time';
  if (a.act === 'env_time') { c.time += BigInt(a.d); res = { ok: true, created: [] }; }
  else if (a.act === 'env_exec') {
    const id = w.ops[Number(a.i) - 1];
    if (id === undefined) res = { ok: false, created: [] };
    else {
      w.ops.splice(Number(a.i) - 1, 1);
      const r = c.receipts.find((x) => x.id === id[0]);
      if (r.receiver === SELF) for (const i of id) { const x = c.run(i); res = res ? { ...x, ok: res.ok && x.ok, created: [...res.created, ...x.created] } : x; }
      else { // elsewhere: it happens, or it fails and the money comes back
        c.receipts.splice(c.receipts.indexOf(r), 1); res = { ok: a.good, created: [] };
        if (!a.good) { const p = c.account(SELF).clone(); for (const x of r.actions) p.balance += x.deposit ?? 0n; c.accounts.set(SELF, p); }
      }
    }
  } else {
    const args = a.act === 'new' ? (v === '1' ? { num_confirmations: Number(a.K) } : { members: a.members.map((m) => memberJson(v, m)), num_confirmations: Number(a.K) })
      : a.request ? { request: requestJson(v, a.request) } : { request_id: Number(a.id) };
    const pk = KEYS[a.pk], deposit = BigInt(a.dep);
    res = a.by === SELF ? c.callWithKey(SELF, pk, SELF, a.act, args, { deposit }) : c.call(a.by, SELF, a.act, args, { deposit, signerPk: pk });
    if (a.act === 'new' && res.ok) w.init = true;
  }
  if (!res.ok && !top && w.obs) return { ok: false, ret: 'none', eff: [], obs: w.obs, error: res.error };
  const eff = effects(res.created, SELF, { keyName, selfCalls: true, gas: true, whole: a.act !== 'new', args: argsBack, codeName: (x) => Buffer.from(x).toString() });
  // The keys of the first members may be added in one go or one by one.
  if (a.act === 'new') { const l = res.created.filter((r) => r.actions.length).map((r) => r.id); if (l.length) w.ops.push(l); }
  for (const r of res.created) { if (r.actions.length) { if (a.act !== 'new') w.ops.push([r.id]); } else c.receipts.splice(c.receipts.findIndex((x) => x.id === r.id), 1); }
  let ret = 'none';
  if (res.ok && res.value && res.value.length) { let j; try { j = JSON.parse(text(res.value)); } catch (e) { j = 'undecodable'; } ret = j && j.actions ? requestOf(j) : norm(j); }
  return { ok: res.ok, ret, eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
export const observe = (w) => memoByState(w.chain, SELF, w.init + w.cfg.univ.join(), () => look(w.chain, SELF, w.cfg, w.init));
export function look(c, id, cfg, init) {
  const v = cfg.v, me = c.account(id), keys = {};
  for (const [k, p] of me.keys) keys[keyName(Buffer.from(k, 'latin1'))] = p === 'full' ? { kind: 'full' } : { kind: 'call', receiver: p.receiver === id ? SELF : p.receiver, allowance: p.allowance === null ? 'none' : String(p.allowance), methods: [...new Set(p.methods)].sort() };
  const bal = String(me.balance);
  if (!init) return { init: false, bal, keys };
  const V = (m, args = {}, f) => viewOr(c, id, m, args, f);
  const ids = V('list_request_ids'), cnt = {}, reqs = {};
  for (const m of cfg.univ) cnt[m] = v === '1' ? V('get_num_requests_pk', { public_key: keyB58(KEYS[m.slice(2)]) }) : V('get_num_requests_per_member', { member: idJson(v, m) });
  if (Array.isArray(ids)) for (const i of ids) reqs[i] = {
    request: V('get_request', { request_id: Number(i) }, requestOf),
    conf: V('get_confirmations', { request_id: Number(i) }, (x) => x.map((m) => (v === '1' ? 'k:' + keyName(m) : memberId(JSON.parse(m)))).sort()) };
  const nonce = V('get_request_nonce'), left = []; // confirmations kept of requests that are gone
  if (Array.isArray(ids)) for (let i = Number(nonce) - 1; i >= 0 && i > Number(nonce) - 7; i--) if (!(i in reqs) && V('get_confirmations', { request_id: i }) !== 'panic') left.push(String(i));
  return { init: true, bal, keys, left, K: V('get_num_confirmations'), nonce, members: v === '1' ? [] : V('get_members', {}, (x) => x.map(memberId).sort()), cnt, ids: Array.isArray(ids) ? ids.sort() : ids, reqs };
}

// ---- random histories ------------------------------------------------------------------------------
export const version = '1';
export function configFor(R, v) {
  const aim = R.weighted([[10, 'any'], [1.5, 'many'], [0.7, 'mill']]), names = aim === 'many' ? MANY : FEW, univ = names.map((k) => 'k:' + k); if (v === '2') univ.push('a:alice.near', 'a:bob.near', 'a:carol.near');
  const keys = v === '1' ? R.shuffle(names.filter((k) => k !== 'k5')).slice(0, 1 + R.int(names.length - 1)).concat(aim === 'mill' ? ['k5', 'k0', 'k1'] : []).filter((k, i, l) => l.indexOf(k) === i).map((k) => ({ key: k, full: R.chance(0.1) })) : [{ key: 'k0', full: true }];
  return { v, balance: String(R.weighted([[3, () => BigInt(R.int(200))], [2, () => R.big(10n ** 27n)]])()), time: String(R.big(10n ** BigInt(1 + R.int(19)))), keys, univ, aim, ...(aim === 'mill' ? { steps: 600, probes: 0 } : {}) };
}
export const randomCfg = (R) => configFor(R, '1');
export function gen(R, w, obs) {
  const v = w.cfg.v, keys = Object.keys(obs.keys), members = obs.members ?? [], many = w.cfg.aim === 'many', mill = w.cfg.aim === 'mill', names = many ? MANY : FEW;
  const bal = BigInt(obs.bal), small = () => String(R.weighted([[3, () => R.big(bal + 1n)], [3, () => BigInt(R.int(5))], [0.4, () => bal + 1n], [0.4, () => bal]])());
  const anyMember = () => { const id = R.pick(members.length && R.chance(0.6) ? members : w.cfg.univ); return id.startsWith('k:') ? { kind: 'key', key: R.chance(0.02) ? 'bad' : id.slice(2) } : { kind: 'account', account: R.chance(0.03) ? badId(R) : id.slice(2) }; };
  const anyKey = () => (R.chance(0.03) ? 'bad' : R.chance(0.5) && keys.length ? R.pick(keys) : R.pick(names));
  const who = () => { // [predecessor, signing key]
    if (R.chance(0.06)) return [R.pick(['mallory.near', 'carol.near', 'alice.near', lookalike(R, SELF), lookalike(R, R.pick(['alice.near', 'bob.near']))]), R.pick(keys.length ? keys : ['km'])];
    if (v === '2') { const acc = members.filter((m) => m.startsWith('a:')), ks = members.filter((m) => m.startsWith('k:'));
      if (acc.length && (R.chance(0.5) || !ks.length)) { const u = R.pick(acc).slice(2); return [u, R.pick(['ka', 'kb', 'km', 'k1'])]; }
      if (ks.length && R.chance(0.93)) return [SELF, R.pick(ks).slice(2)]; }
    return [SELF, R.chance(0.93) && keys.length ? R.pick(keys) : R.pick(NAMES)];
  };
  if (!obs.init) {
    if (R.chance(0.15)) { const [by, pk] = who(); return { act: R.pick(['confirm', 'delete_request']), by, pk, dep: '0', id: '0' }; }
    const n = R.int(many ? 12 : mill ? 3 : 5) + (mill ? 1 : 0); const ms = []; for (let i = 0; i < n; i++) ms.push(R.chance(0.12) && ms.length ? R.pick(ms) : anyMember());
    const K = v === '1' ? String(R.weighted([[1, 0], [3, 1], [5, 2], [3, 3], [1, 7], [many ? 4 : 0, 4 + R.int(4)]].map(([p, k]) => [mill && k > 1 ? p / 5 : p, k]))) : String(R.weighted([[0.5, 0], [2, 1], [4, Math.min(2, n)], [2, n], [0.4, n + 1]].map(([p, k]) => [mill && k > 1 ? p / 5 : p, k])));
    return { act: 'new', by: 'creator.near', pk: 'km', dep: R.chance(0.02) ? '1' : '0', K, members: v === '1' ? [] : ms };
  }
  const inner = (q) => { const m = R.pick(['confirm', 'add_request', 'delete_request', 'add_request_and_confirm', 'get_request_nonce', 'nothing']); return { m, args: m.startsWith('add') ? { request: request(true) } : ['confirm', 'delete_request'].includes(m) ? { request_id: String(R.int(Number(obs.nonce) + 3)) } : {} }; };
  const fn = (self, deep) => {
    if (self && !deep) { const x = inner(); if (!x.m.startsWith('get') && x.m !== 'nothing') return { type: 'FunctionCall', method_name: x.m, args: x.args, deposit: R.chance(0.05) ? '1' : '0', gas: R.chance(0.08) ? '1000000000000' : '60000000000000' }; }
    return { type: 'FunctionCall', method_name: self ? 'nothing' : R.weighted([[5, 'ping'], [3, 'ft_transfer'], [0.2, '']]), args: R.pick([{}, { x: '1' }, { to: 'alice.near', n: '7' }, { raw: 'ff00fe7b' }, { memo: 'm'.repeat(300) }]), deposit: small(), gas: R.weighted([[5, () => '5000000000000'], [2, () => String(R.big(10n ** 13n))], [0.2, () => '300000000000000'], [0.2, () => '0']])() };
  };
  const action = (self, deep) => {
    const t = R.weighted([[3, 'Transfer'], [self ? 0.1 : 0.6, 'CreateAccount'], [self ? 0 : 0.6, 'DeployContract'], [self ? 2 : 0.15, 'AddKey'], [self && deep ? 0.2 : 2, 'FunctionCall'], [self ? 2 : 0.1, 'SetNumConfirmations'], [self ? 1.5 : 0.1, 'SetActiveRequestsLimit'],
      [v === '1' ? (self ? 2.5 : 0.15) : 0.03, 'DeleteKey'], [v === '2' ? (self ? 2.5 : 0.15) : 0.03, 'AddMember'], [v === '2' ? (self ? 2 : 0.15) : 0.03, 'DeleteMember']]);
    switch (t) {
      case 'Transfer': return { type: t, amount: small() };
      case 'DeployContract': return { type: t, code: R.pick(['xyz', '', 'AAAAAAAAAAAA']) };
      case 'AddKey': return { type: t, public_key: anyKey(), permission: R.chance(0.35) ? { kind: 'full' } : { kind: 'call', allowance: R.weighted([[2, 'none'], [1, '0'], [1, String(1 + R.int(1000))]]), receiver_id: R.weighted([[4, SELF], [1, 'bob.near'], [0.05, badId(R)]]), method_names: R.weighted([[4, METHODS], [2, ['confirm']], [1, []], [1, ['add_request', 'confirm']]]) } };
      case 'FunctionCall': return fn(self, deep);
      case 'SetNumConfirmations': return { type: t, num_confirmations: String(R.weighted([[0.3, 0], [2, 1], [3, 2], [2, 3], [0.3, 9], [many ? 4 : 0, 4 + R.int(5)]].map(([p, k]) => [mill && k > 1 ? p / 5 : p, k]))) };
      case 'SetActiveRequestsLimit': return { type: t, active_requests_limit: String(R.weighted([[0.5, 0], [1, 1], [2, 2], [2, 5], [1, 12], [1, 40], [mill ? 8 : 0.2, 300]])) };
      case 'DeleteKey': return { type: t, public_key: anyKey() };
      case 'AddMember': case 'DeleteMember': return { type: t, member: anyMember() };
      default: return { type: t };
    }
  };
  const request = (deep) => {
    if (mill && R.chance(0.7)) return R.chance(0.12) ? { receiver_id: SELF, actions: [{ type: 'SetActiveRequestsLimit', active_requests_limit: '300' }] } : { receiver_id: 'bob.near', actions: [{ type: 'Transfer', amount: String(R.int(2)) }] };
    const self = R.chance(0.55), to = self ? SELF : R.weighted([[4, 'bob.near'], [2, 'carol.near'], [2, 'new.msig.near'], [0.2, badId(R)]]);
    const n = R.weighted([[0.3, 0], [6, 1], [2, 2], [1, 3], [0.3, 4 + R.int(9)]]), acts = []; for (let i = 0; i < n; i++) acts.push(action(self, deep));
    return { receiver_id: to, actions: acts };
  };
  const ids = Array.isArray(obs.ids) ? obs.ids : [];
  const kind = R.weighted([[w.ops.length ? 4 : 0.03, 'env_exec'], [1.2, 'env_time'], [ids.length > 6 ? 0.4 : 2.5, 'add_request'], [mill ? 10 : ids.length > 6 ? 0.4 : 2, 'add_request_and_confirm'], [ids.length ? 6 : 0.3, 'confirm'], [ids.length ? 1 : 0.1, 'delete_request'], [0.05, 'new']]);
  if (kind === 'env_exec') return { act: kind, i: String(1 + R.int(Math.max(1, w.ops.length))), good: R.chance(0.8) };
  if (kind === 'env_time') return { act: kind, d: String(R.weighted([[2, 900000000000n], [1, 900000000001n], [1, 899999999999n], [1, 1n], [1, R.big(2n * 900000000000n)], [0.5, R.big(10n ** BigInt(14 + R.int(4)))]])) };
  const [by, pk] = who(), dep = R.chance(mill ? 0.005 : 0.02) ? '1' : '0';
  if (kind === 'new') return { act: kind, by, pk, dep, K: '1', members: [] };
  if (kind.startsWith('add')) return { act: kind, by, pk, dep, request: request(false) };
  return { act: kind, by, pk, dep, id: ids.length && R.chance(0.95) ? R.pick(ids) : String(R.int(Number(obs.nonce) + 2)) };
}
