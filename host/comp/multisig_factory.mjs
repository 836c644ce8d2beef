// Drives the real multisig factory, with the real multisigs it deploys, through spec/MultisigFactory.tla.
import { Chain, TGAS, parseJson } from '../near.mjs';
import { effects, memoByState, creations, codeNames, fail, badId, goodName } from '../lib.mjs';
import { look as lookWallet, memberJson, memberOf, NAMES as KEYNAMES, KEYS } from './multisig.mjs';
export const spec = 'MultisigFactory';
export const wasm = ['multisig-factory', 'multisig2'];
const F = 'mf.near', USERS = ['alice.near', 'bob.near', 'mallory.near'];
export function setup(cfg, code) {
  const chain = new Chain(); chain.time = BigInt(cfg.time);
  chain.create(F, { balance: BigInt(cfg.balance), code: code['multisig-factory'] });
  for (const u of USERS) chain.create(u, { balance: 10n ** 36n });
  return { chain, cfg, code, ops: [], obs: null };
}
export const clone = (w) => ({ ...w, chain: w.chain.snapshot(), ops: w.ops.slice() });
const termsOf = (o) => ({ members: o.members.map((m) => { const x = memberOf(m); if (x.kind === 'key') x.key = x.key.replace(/^ed25519:/, ''); return x; }), num_confirmations: o.num_confirmations });
export function exec(w, a, quiet) {
  const c = w.chain; let res = { ok: true, created: [] };
  if (a.act === 'env_exec') {
    const r = c.receipts.find((x) => x.id === w.ops[Number(a.i) - 1]);
    if (!r) return { ok: false, ret: 'none', eff: [], obs: w.obs };
    w.ops.splice(Number(a.i) - 1, 1);
    res = a.good ? c.run(r.id) : fail(c, r);
    for (const x of res.created) c.run(x.id); // the wallet adds its keys
    res = { ...res, created: [] };
  } else {
    // JSON numbers beyond 2^53 are written out
    const json = JSON.stringify({ name: a.name, members: a.members.map((m) => memberJson('2', m)) }).replace(/}$/, `,"num_confirmations":${a.K}}`);
    res = c.call(a.by, F, 'create', new TextEncoder().encode(json), { deposit: BigInt(a.dep), gas: BigInt(a.gas) * TGAS, signerPk: KEYS[a.pk] });
    if (!res.ok && w.obs) return { ok: false, ret: 'none', eff: [], obs: w.obs, error: res.error };
  }
  const eff = creations(effects(res.created, F, { whole: true, codeName: codeNames(w.code), args: (b, x) => exact(b) }), termsOf);
  for (const r of res.created) if (!r.inputs.length) w.ops.push(r.id);
  return { ok: res.ok, ret: 'none', eff, obs: (w.obs = quiet ? null : observe(w)), error: res.error };
}
const exact = (b) => { const t = new TextDecoder().decode(b); return JSON.parse(t.replace(/("num_confirmations"\s*:\s*)(\d+)/, '$1"$2"')); };
export const observe = (w) => memoByState(w.chain, [F, ...w.cfg.names], w.cfg.names.join() + w.cfg.univ.join(), () => {
  const wallets = {};
  for (const n of w.cfg.names) if (w.chain.account(n)) wallets[n] = lookWallet(w.chain, n, { v: '2', univ: w.cfg.univ }, true);
  return { bal: String(w.chain.account(F).balance), wallets };
});
// ---- random histories ------------------------------------------------------------------------------
const NAMES = ['w1', 'w2', 'w3', 'w4', 'a_b-c', '0', 'x', 'w'.repeat(56)], BAD = ['', 'Bad!', 'a.', '-a', 'a__b', 'a.b', 'w'.repeat(57)];
export const randomCfg = (R) => ({ balance: String(R.big(10n ** 26n)), time: String(R.big(10n ** 18n)), names: [...new Set([...NAMES, ...Array.from({ length: 6 }, () => goodName(R))])].map((n) => n + '.' + F), univ: ['k:k0', 'k:k1', 'k:k2', 'k:k3', 'k:k4', 'a:alice.near', 'a:bob.near'] });
export function gen(R, w) {
  if (w.ops.length && R.chance(0.6)) return { act: 'env_exec', i: String(1 + R.int(w.ops.length)), good: R.chance(0.85) };
  const n = R.int(6), ms = [];
  for (let i = 0; i < n; i++) ms.push(R.chance(0.06) && ms.length ? R.pick(ms) : R.chance(0.6) ? { kind: 'key', key: R.chance(0.02) ? 'bad' : R.pick(['k0', 'k1', 'k2', 'k3', 'k4']) } : { kind: 'account', account: R.chance(0.04) ? badId(R) : R.pick(['alice.near', 'bob.near', 'carol.near', 'dan.near']) });
  return { act: 'create', by: R.pick(USERS), pk: R.pick(['ka', 'kb', 'k0']), gas: R.chance(0.03) ? '40' : '300', dep: String(R.weighted([[1, () => 0n], [4, () => R.big(10n ** BigInt(1 + R.int(28)))]])()), name: R.chance(0.92) ? R.pick(R.chance(0.4) ? w.cfg.names.slice(0, 4) : w.cfg.names).slice(0, -F.length - 1) : R.chance(0.5) ? R.pick(BAD) : badId(R),
    members: ms, K: String(R.weighted([[1, () => 0], [4, () => n], [4, () => 1 + R.int(n + 1)], [0.3, () => 2n ** 32n + 1n], [0.2, () => 2n ** 64n - 1n], [0.2, () => 2n ** 64n]])()) };
}
