// The 64-bit constants in a contract's code. Those that the contract did not have when this was written
// (consts.json) are what a change brought in: random histories also try numbers around them. This only
// steers what is tried; what is right is for the specification to say.
//   consts.mjs DIR   writes consts.json from the contracts in DIR
import fs from 'fs';
import path from 'path';
const HERE = path.dirname(new URL(import.meta.url).pathname);
export function consts(b) {
  const found = new Set(); let p = 8;
  const u = () => { let r = 0, s = 0, x; do { x = b[p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128); return r; };
  const skip = () => { while (b[p++] & 128); };
  const s64 = () => { let r = 0n, s = 0n, x; do { x = b[p++]; r |= BigInt(x & 127) << s; s += 7n; } while (x & 128); if (x & 64) r -= 1n << s; return BigInt.asUintN(64, r); };
  while (p < b.length) {
    const id = b[p++], size = u(), end = p + size;
    if (id === 10) for (let n = u(); n > 0; n--) {
      const fin = u() + p;
      for (let k = u(); k > 0; k--) { skip(); p++; }
      while (p < fin) {
        const o = b[p++];
        if (o === 0x42) found.add(s64());
        else if (o === 0x02 || o === 0x03 || o === 0x04 || o === 0x0c || o === 0x0d || o === 0x10 || (o >= 0x20 && o <= 0x24) || o === 0x3f || o === 0x40 || o === 0x41 || o === 0xd2) skip();
        else if (o === 0x11 || (o >= 0x28 && o <= 0x3e)) { skip(); skip(); }
        else if (o === 0x0e) { for (let k = u() + 1; k > 0; k--) skip(); }
        else if (o === 0x43) p += 4; else if (o === 0x44) p += 8;
        else if (o === 0xfc) { const x = u(); if (x >= 8) skip(); if (x === 8 || x === 10 || x === 12 || x === 14) skip(); }
      }
      p = fin;
    }
    p = end;
  }
  return found;
}
export function fresh(dir, names) {
  const known = JSON.parse(fs.readFileSync(path.join(HERE, 'consts.json'))), out = new Set();
  for (const n of names) { const k = new Set(known[n] ?? []); if (known[n]) for (const c of consts(fs.readFileSync(path.join(dir, n + '.wasm')))) if (!k.has(String(c))) out.add(c); }
  // alone, or as the halves of a 128-bit number; negated, and with a borrow, when the code subtracts
  const some = [...out].slice(0, 20), neg = (x, bits) => [x, (1n << bits) - x], lows = some.flatMap((l) => neg(l, 64n)), highs = some.flatMap((h) => (h > 0n ? neg(h, 64n).concat(h - 1n) : []));
  return [...new Set(lows.concat(highs.flatMap((h) => lows.map((l) => (h << 64n) | l))))].filter((x) => x < 10n ** 37n);
}
if (process.argv[1] && process.argv[1].endsWith('consts.mjs')) {
  const o = {}; for (const f of fs.readdirSync(process.argv[2]).filter((x) => x.endsWith('.wasm')).sort()) o[f.slice(0, -5)] = [...consts(fs.readFileSync(path.join(process.argv[2], f)))].map(String).sort();
  fs.writeFileSync(path.join(HERE, 'consts.json'), JSON.stringify(o).replace(/\],/g, '],\n') + '\n');
}
