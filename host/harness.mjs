// harness.mjs random COMPONENT --seed N --roots N --steps N --probes N --out FILE   record random executions
// harness.mjs replay COMPONENT --edges FILE --part I/N --out FILE                   replay TLC's state graph
// harness.mjs run COMPONENT --script FILE                                           run one list of actions
// All take --wasm DIR (built contracts).
import fs from 'fs';
import path from 'path';
import { Chain, loadFile } from './near.mjs';
import { rng, canon } from './lib.mjs';
import { fresh } from './consts.mjs';

const [mode, comp, ...rest] = process.argv.slice(2);
const opt = {}; for (let i = 0; i < rest.length; i += 2) opt[rest[i].replace(/^--/, '')] = rest[i + 1];
const C = await import(`./comp/${comp}.mjs`);
const code = {}; for (const n of C.wasm) code[n] = loadFile(path.join(opt.wasm, n + '.wasm'));
Chain.mixSigners = true;
const bag = (x) => (C.effOrdered || !Array.isArray(x) ? canon(x) : canon(x.map(canon).sort())); // independent receipts have no order
const finish = C.finish ?? ((a) => a);
const execute = (w, a, quiet = false) => { try { const r = C.exec(w, a, quiet); if (!quiet) r.obs ??= (w.obs ??= C.observe(w)); return r; } catch (e) {
  // The driver follows what the contracts do. Where it cannot (a receipt for an account it does not know of), that is its observation.
  if (process.env.VT_THROW) throw e;
  const message = String(e.message);
  return { ok: false, ret: 'none', eff: [{ kind: 'unknown', message }], obs: { unknown: message }, lost: true, error: message };
} };

if (mode === 'random') {
  const R = rng(Number(opt.seed)); R.extra = fresh(opt.wasm, C.wasm); const roots = [], succ = []; const stats = {}; let genErrors = 0, genError; const sample = [];
  const node = () => { succ.push([]); return succ.length; };
  const add = (n, a, r, to) => { const k = a.act; stats[k] ??= [0, 0]; stats[k][r.ok ? 0 : 1]++; const { error, lost, ...rec } = r; succ[n - 1].push({ to, act: a, ...rec }); };
  const budget = opt.ms ? Date.now() + Number(opt.ms) : Infinity;
  for (let i = 0; i < Number(opt.roots); i++) {
    const cfg = C.randomCfg(R, i); let w = C.setup(cfg, code), n = node(); w.obs ??= C.observe(w); roots.push({ node: n, cfg });
    let obs = C.observe(w); const plan = C.plan ? C.plan(R, cfg, i) : null;
    for (let k = 0; k < Number(cfg.steps ?? opt.steps); k++) {
      if (C.over && C.over(obs) && R.chance(0.15)) break; // little more can happen: on with the next history
      // Candidates are tried from the same state; one of them, preferably one that succeeds, continues.
      const cands = []; const np = 1 + Number(cfg.probes ?? opt.probes); const seen = new Set();
      for (let j = 0; j < np; j++) {
        let a; try { a = C.gen(R, w, obs, plan); if (!a) continue; a = finish(a); } catch (e) { genErrors++; genError ??= String(e.stack).slice(0, 400); continue; } const key = canon(a); if (seen.has(key)) continue; seen.add(key);
        const v = C.clone(w); const r = execute(v, a); cands.push({ a, v, r });
      }
      if (!cands.length) continue;
      const good = cands.filter((c) => c.r.ok || (C.eager && c.a.act.startsWith('env_'))); // eager: what is on its way moves, well or not
      const pick = good.length && R.chance(0.9) ? R.pick(good) : R.pick(cands);
      for (const c of cands) if (c !== pick) add(n, c.a, c.r, 0);
      if (pick.r.lost) { add(n, pick.a, pick.r, 0); break; }
      const to = node(); add(n, pick.a, pick.r, to); n = to; w = pick.v; obs = pick.r.obs; if (sample.length < 8) sample.push({ act: pick.a, ok: pick.r.ok, eff: pick.r.eff });
    }
    if (Date.now() > budget) break;
  }
  fs.writeFileSync(opt.out, JSON.stringify({ roots, succ }));
  console.log(JSON.stringify({ roots: roots.length, edges: succ.reduce((t, e) => t + e.length, 0), stats, genErrors, genError, fresh: R.extra.length, sample }));
} else if (mode === 'replay') {
  // The graph written by TLC: every edge is performed on the real contract from a snapshot of its source state.
  const [part, parts] = opt.part.split('/').map(Number);
  const out = new Map(), roots = []; 
  // Lines are parsed when their state is reached; sorted, because TLC's workers write them in any order.
  for (const line of fs.readFileSync(opt.edges, 'latin1').split('\n')) { if (!line) continue; if (line.startsWith('{"root"')) { roots.push(JSON.parse(line)); continue; } const from = line.slice(9, 25); let l = out.get(from); if (!l) out.set(from, l = []); l.push(line); }
  for (const l of out.values()) l.sort();
  const uniq = new Map(); for (const r of roots) uniq.set(r.root, r);
  let edges = 0, states = 0; const bad = []; const stats = {};
  const parent = new Map(); let ix = 0;
  // Breadth first over the spanning tree; this part checks the edges out of every parts-th state.
  let frontier = [...uniq.values()].map((r) => ({ id: r.root, w: C.setup(r.cfg, code), path: [], cfg: r.cfg }));
  const seen = new Set(frontier.map((f) => f.id));
  while (frontier.length && bad.length < 200) {
    const next = [];
    for (const f of frontier) {
      const es = out.get(f.id) ?? []; const mine = ix++ % parts === part; if (mine && es.length) states++;
      for (const line of es) {
        const to = line.slice(-18, -2), tree = !seen.has(to); if (!tree && !mine) continue;
        const e = JSON.parse(line);
        const v = C.clone(f.w); const { error, lost, ...got } = execute(v, e.act, !mine);
        let d = [];
        if (!mine) { seen.add(e.to); if (got.ok === e.exp.ok && !lost) next.push({ id: e.to, w: v, path: [...f.path, e.act], cfg: f.cfg }); continue; }
        if (got.ok !== e.exp.ok || lost) d = ['ok'];
        else { if (got.ok && canon(got.ret) !== canon(e.exp.ret)) d.push('ret'); if (bag(got.eff) !== bag(e.exp.eff)) d.push('eff');
          for (const k of new Set([...Object.keys(got.obs), ...Object.keys(e.exp.obs)])) if (!(k in got.obs) || !(k in e.exp.obs) || canon(got.obs[k]) !== canon(e.exp.obs[k])) d.push(k); }
        if (mine) { edges++; const k = e.act.act; stats[k] ??= [0, 0]; stats[k][got.ok ? 0 : 1]++; }
        if (d.length) { if (mine) bad.push({ cfg: f.cfg, path: f.path, act: e.act, diff: d, exp: e.exp, got, error }); if (tree) seen.add(e.to); continue; }
        if (tree) { seen.add(e.to); next.push({ id: e.to, w: v, path: [...f.path, e.act], cfg: f.cfg }); }
      }
    }
    frontier = next;
  }
  fs.writeFileSync(opt.out, bad.map((b) => JSON.stringify(b)).join('\n'));
  console.log(JSON.stringify({ states, edges, bad: bad.length, stats }));
} else if (mode === 'scripts') {
  // Lists of actions, recorded as linear histories.
  const roots = [], succ = [];
  for (const s of JSON.parse(fs.readFileSync(opt.scripts))) {
    const w = C.setup(s.cfg, code); succ.push([]); roots.push({ node: succ.length, cfg: s.cfg });
    let lost = false;
    s.acts.forEach((a, i) => { if (lost) return; const { error, ...r } = execute(w, a); lost = r.lost; delete r.lost; const lastOne = lost || i === s.acts.length - 1; succ[succ.length - 1].push({ to: lastOne ? 0 : succ.length + 1, act: a, ...r }); if (!lastOne) succ.push([]); });
  }
  fs.writeFileSync(opt.out, JSON.stringify({ roots, succ }));
} else if (mode === 'run') {
  const s = JSON.parse(fs.readFileSync(opt.script)); const w = C.setup(s.cfg, code);
  console.log(JSON.stringify(C.observe(w)));
  for (const a of s.acts) { const r = execute(w, a); console.log(JSON.stringify(a), '=>', JSON.stringify(r)); }
}
