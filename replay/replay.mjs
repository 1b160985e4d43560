// replay.c for the 32-bit (wasm32) build: same input and output lines.
import { readFileSync } from 'node:fs';
const mod = new WebAssembly.Module(readFileSync(process.argv[2]));
class End extends Error {}
for (const line of readFileSync(0, 'utf8').split('\n')) {
  const [entry, ps, hx] = line.split(' ');
  if (!entry || !ps) continue;
  const par = ps === '-' ? [] : ps.split(',').map(BigInt);
  const input = Buffer.from(hx && hx !== '-' ? hx : '', 'hex');
  let pos = 0, asserts = 0, mem, notes = [];
  // fresh pages only, so memory is zeroed
  let top = 0, end = 0;
  const malloc = (n) => {
    const need = (n + 15) & ~15;
    if (n >= 1 << 26) return 0;
    if (top + need > end) { const k = Math.max(16, (need + 65535) >>> 16), o = mem.grow(k) << 16; if (o !== end) top = o; end = o + (k << 16); }
    top += need;
    return top - need;
  };
  const stop = (s) => { throw new End(s); };
  const env = {
    sym_bytes(p, n) { n >>>= 0; if (n > input.length - pos) stop('starved'); new Uint8Array(mem.buffer).set(input.subarray(pos, pos + n), p >>> 0); pos += n; },
    sym_assume(c) { if (!c) stop('assume'); },
    sym_assert(c, id) { asserts++; if (!c) stop('assert:' + id); },
    sym_cover() {}, sym_debug() {}, sym_digits() {},
    sym_note(t, v) { notes.push((t >>> 0) + ':' + BigInt.asUintN(64, v)); },
    sym_concretize(v) { return v; },
    sym_malloc(n) { return malloc(n >>> 0); }, sym_calloc(n, k) { return malloc((n >>> 0) * (k >>> 0)); }, sym_free() {},
    sym_realloc(p, n, old) { const q = malloc(n >>> 0); new Uint8Array(mem.buffer).copyWithin(q, p >>> 0, (p >>> 0) + Math.min(n >>> 0, old >>> 0)); return q; },
    sym_param(i) { return par[Number(i)] ?? 0n; },
  };
  let how;
  try {
    const inst = new WebAssembly.Instance(mod, { env });
    mem = inst.exports.memory;
    inst.exports[entry]();
    how = 'ok';
  } catch (e) { how = e instanceof End ? e.message : 'panic'; if (!(e instanceof End) && process.env.V) console.error(e); }
  console.log(`${how} asserts=${asserts} notes=${notes.length ? notes.join(',') : '-'}`);
}
