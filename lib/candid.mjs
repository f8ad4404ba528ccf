// Minimal Candid: parser for .did text (as embedded in the canisters), encoder and decoder.
// Values: nat/int/nat64/int64 -> BigInt, smaller ints -> Number, principal -> textual id,
// blob (vec nat8) -> Buffer, opt -> null | value, variant -> {Tag: value}, func -> {principal, method}.
import crypto from 'crypto';

// ---------- principals ----------
const B32 = 'abcdefghijklmnopqrstuvwxyz234567';
const CRC = new Int32Array(256).map((_, i) => { let c = i; for (let k = 0; k < 8; k++) c = c & 1 ? (c >>> 1) ^ 0xedb88320 : c >>> 1; return c; });
function crc32(b) { let c = -1; for (const x of b) c = CRC[(c ^ x) & 255] ^ (c >>> 8); return (c ^ -1) >>> 0; }
const p2t = new Map(), t2p = new Map();
export function principalText(bytes) {
  const k = Buffer.from(bytes).toString('hex');
  let t = p2t.get(k); if (t) return t;
  const crc = crc32(bytes), b = Buffer.concat([Buffer.from([crc >>> 24, crc >>> 16 & 255, crc >>> 8 & 255, crc & 255]), Buffer.from(bytes)]);
  let acc = 0, n = 0, s = '';
  for (const x of b) { acc = (acc << 8) | x; n += 8; while (n >= 5) { n -= 5; s += B32[(acc >>> n) & 31]; } acc &= (1 << n) - 1; }
  if (n) s += B32[(acc << (5 - n)) & 31];
  t = s.match(/.{1,5}/g).join('-');
  p2t.set(k, t); t2p.set(t, Buffer.from(bytes));
  return t;
}
export function principalBytes(text) {
  let b = t2p.get(text); if (b) return b;
  const s = text.replace(/-/g, ''); let acc = 0, n = 0; const out = [];
  for (const ch of s) { const v = B32.indexOf(ch); if (v < 0) throw new Error('bad principal ' + text); acc = (acc << 5) | v; n += 5; if (n >= 8) { n -= 8; out.push((acc >>> n) & 255); } acc &= (1 << n) - 1; }
  b = Buffer.from(out.slice(4));
  if (principalText(b) !== text) throw new Error('bad principal text ' + text);
  return b;
}
export const isPrincipalText = (t) => { try { principalBytes(t); return true; } catch { return false; } };

// ---------- hashes ----------
const hcache = new Map();
export function fieldHash(s) {
  let h = hcache.get(s); if (h !== undefined) return h;
  h = 0; for (const b of Buffer.from(s)) h = (Math.imul(h, 223) + b) >>> 0;
  hcache.set(s, h); if (!/^\d+$/.test(s) && !hnames.has(h)) hnames.set(h, s); return h;
}
const hnames = new Map(); // names seen in any interface, by hash: used where the expected type does not know a label
export const sha256 = (b) => crypto.createHash('sha256').update(b).digest();

// ---------- did parser ----------
const PRIMS = { null: -1, bool: -2, nat: -3, int: -4, nat8: -5, nat16: -6, nat32: -7, nat64: -8, int8: -9, int16: -10, int32: -11, int64: -12, float32: -13, float64: -14, text: -15, reserved: -16, empty: -17, principal: -24 };
export function parseDid(src) {
  src = src.replace(/\/\/[^\n]*/g, '');
  const toks = src.match(/"(?:[^"\\]|\\.)*"|->|[A-Za-z_][A-Za-z0-9_]*|\d+|[{}()=:;,]/g) || [];
  let p = 0;
  const peek = () => toks[p], next = () => toks[p++];
  const want = (t) => { const x = next(); if (x !== t) throw new Error(`did: wanted ${t} got ${x} at ${p}: ${toks.slice(p - 6, p + 4).join(' ')}`); };
  const env = {};
  const unq = (t) => t[0] === '"' ? JSON.parse(t) : t;
  function type() {
    const t = next();
    if (t === 'opt') return { k: 'opt', t: type() };
    if (t === 'vec') { const e = type(); return e.k === 'prim' && e.n === 'nat8' ? { k: 'blob' } : { k: 'vec', t: e }; }
    if (t === 'blob') return { k: 'blob' };
    if (t === 'record' || t === 'variant') {
      want('{'); const fs = []; let idx = 0;
      while (peek() !== '}') {
        if (toks[p + 1] === ':') { const n = unq(next()); want(':'); const ft = type(); if (/^\d+$/.test(n)) { fs.push({ n, h: +n, t: ft }); idx = +n + 1; } else fs.push({ n, h: fieldHash(n), t: ft }); }
        else if (t === 'variant') { const n = unq(next()); fs.push({ n, h: fieldHash(n), t: { k: 'prim', n: 'null' } }); }
        else { fs.push({ n: String(idx), h: idx, t: type() }); idx++; }
        if (peek() === ';') next();
      }
      want('}'); fs.sort((a, b) => a.h - b.h);
      const byH = new Map(fs.map((f, i) => [f.h, i])), byN = new Map(fs.map((f, i) => [f.n, i]));
      const tuple = t === 'record' && fs.length > 0 && fs.every((f, i) => f.n === String(i) && f.h === i);
      return { k: t, fs, byH, byN, tuple };
    }
    if (t === 'func') return { k: 'func', sig: sig() };
    if (t === 'service') { want('{'); let d = 1; while (d) { const x = next(); if (x === '{') d++; if (x === '}') d--; } return { k: 'service' }; }
    if (t in PRIMS) return { k: 'prim', n: t };
    return { k: 'ref', n: t };
  }
  function args() { want('('); const as = []; while (peek() !== ')') { if (toks[p + 1] === ':' && peek() !== 'record') { next(); next(); } as.push(type()); if (peek() === ',') next(); } want(')'); return as; }
  function sig() { const a = args(); want('->'); const r = args(); let mode = 'update'; while (['query', 'composite_query', 'oneway'].includes(peek())) mode = next(); return { args: a, rets: r, mode }; }
  let init = null; const methods = {};
  while (p < toks.length) {
    const t = next();
    if (t === 'type') { const n = next(); want('='); env[n] = type(); if (peek() === ';') next(); }
    else if (t === 'service') {
      want(':'); if (peek() === '(') { init = args(); want('->'); }
      want('{');
      while (peek() !== '}') { const n = unq(next()); want(':'); methods[n] = sig(); if (peek() === ';') next(); }
      want('}'); if (peek() === ';') next();
    } else throw new Error('did: unexpected ' + t);
  }
  const rslv = (t) => { while (t.k === 'ref') { const r = env[t.n]; if (!r) throw new Error('unknown type ' + t.n); t = r; } return t; };
  // resolve references in place (recursive types stay as {k:'ref'} objects resolved lazily)
  return { env, init, methods, rslv };
}

// ---------- encoding ----------
class W {
  constructor() { this.b = Buffer.allocUnsafe(256); this.n = 0; }
  need(k) { if (this.n + k > this.b.length) { const nb = Buffer.allocUnsafe(Math.max(this.b.length * 2, this.n + k)); this.b.copy(nb, 0, 0, this.n); this.b = nb; } }
  u8(x) { this.need(1); this.b[this.n++] = x; }
  bytes(x) { this.need(x.length); this.b.set(x, this.n); this.n += x.length; }
  leb(x) { if (typeof x === 'bigint') { if (x < 0n) throw new Error('neg leb'); do { let c = Number(x & 127n); x >>= 7n; this.u8(x ? c | 128 : c); } while (x); } else { do { const c = x % 128; x = Math.floor(x / 128); this.u8(x ? c | 128 : c); } while (x); } }
  sleb(x) { x = BigInt(x); for (;;) { const c = Number(x & 127n); x >>= 7n; const done = (x === 0n && !(c & 64)) || (x === -1n && (c & 64)); this.u8(done ? c : c | 128); if (done) return; } }
  done() { return Buffer.from(this.b.subarray(0, this.n)); }
}
export function encode(did, types, values) {
  const table = [], idx = new Map();
  const { rslv } = did;
  function tref(t) {
    t = rslv(t);
    if (t.k === 'prim') return PRIMS[t.n];
    if (idx.has(t)) return idx.get(t);
    const i = table.length; idx.set(t, i); table.push(null);
    const w = new W();
    if (t.k === 'opt') { w.sleb(-18); w.sleb(tref(t.t)); }
    else if (t.k === 'vec') { w.sleb(-19); w.sleb(tref(t.t)); }
    else if (t.k === 'blob') { w.sleb(-19); w.sleb(-5); }
    else if (t.k === 'record' || t.k === 'variant') { w.sleb(t.k === 'record' ? -20 : -21); w.leb(t.fs.length); for (const f of t.fs) { w.leb(f.h); w.sleb(tref(f.t)); } }
    else if (t.k === 'func') { const s = t.sig; const a = s.args.map(tref), r = s.rets.map(tref); w.sleb(-22); w.leb(a.length); a.forEach((x) => w.sleb(x)); w.leb(r.length); r.forEach((x) => w.sleb(x)); if (s.mode === 'query') { w.leb(1); w.u8(1); } else w.leb(0); }
    else throw new Error('encode type ' + t.k);
    table[i] = w.done(); return i;
  }
  const refs = types.map(tref);
  const w = new W(); w.bytes(Buffer.from('DIDL')); w.leb(table.length); for (const b of table) w.bytes(b);
  w.leb(refs.length); for (const r of refs) w.sleb(r);
  function val(t, v) {
    t = rslv(t);
    switch (t.k) {
      case 'prim': switch (t.n) {
        case 'null': case 'reserved': return;
        case 'bool': return w.u8(v ? 1 : 0);
        case 'nat': return w.leb(BigInt(v));
        case 'int': return w.sleb(BigInt(v));
        case 'nat8': case 'int8': return w.u8(v & 255);
        case 'nat16': case 'int16': w.u8(v & 255); return w.u8((v >> 8) & 255);
        case 'nat32': case 'int32': w.need(4); w.b.writeUInt32LE(v >>> 0, w.n); w.n += 4; return;
        case 'nat64': case 'int64': w.need(8); w.b.writeBigUInt64LE(BigInt.asUintN(64, BigInt(v)), w.n); w.n += 8; return;
        case 'float64': w.need(8); w.b.writeDoubleLE(v, w.n); w.n += 8; return;
        case 'text': { const b = Buffer.from(v); w.leb(b.length); return w.bytes(b); }
        case 'principal': { w.u8(1); const b = principalBytes(v); w.leb(b.length); return w.bytes(b); }
        default: throw new Error('enc ' + t.n);
      }
      case 'blob': { const b = typeof v === 'string' ? Buffer.from(v, 'hex') : v; w.leb(b.length); return w.bytes(b); }
      case 'opt': if (v === null || v === undefined) return w.u8(0); w.u8(1); return val(t.t, v);
      case 'vec': w.leb(v.length); for (const x of v) val(t.t, x); return;
      case 'record': for (const f of t.fs) { const x = t.tuple ? v[+f.n] : v[f.n]; if (x === undefined && rslv(f.t).k !== 'opt') throw new Error('missing field ' + f.n); val(f.t, x); } return;
      case 'variant': { const ks = Object.keys(v); const i = t.byN.get(ks[0]); if (ks.length !== 1 || i === undefined) throw new Error('bad variant ' + ks); w.leb(i); return val(t.fs[i].t, v[ks[0]]); }
      case 'func': { w.u8(1); w.u8(1); const b = principalBytes(v.principal); w.leb(b.length); w.bytes(b); const m = Buffer.from(v.method); w.leb(m.length); return w.bytes(m); }
      default: throw new Error('enc ' + t.k);
    }
  }
  if (types.length !== values.length) throw new Error(`encode: ${types.length} types, ${values.length} values`);
  types.forEach((t, i) => val(t, values[i]));
  return w.done();
}

// ---------- decoding (wire types; names from the expected type) ----------
export function decode(did, types, buf) {
  let p = 0; const { rslv } = did;
  const u8 = () => { if (p >= buf.length) throw new Error('candid: eof'); return buf[p++]; };
  const lebN = () => { let r = 0, m = 1; for (;;) { const x = u8(); r += (x & 127) * m; if (x < 128) return r; m *= 128; } };
  const lebB = () => { let r = 0n, s = 0n; for (;;) { const x = u8(); r |= BigInt(x & 127) << s; s += 7n; if (x < 128) return r; } };
  const sleb = () => { let r = 0n, s = 0n; for (;;) { const x = u8(); r |= BigInt(x & 127) << s; s += 7n; if (x < 128) { if (x & 64) r -= 1n << s; return r; } } };
  if (buf.subarray(0, 4).toString() !== 'DIDL') throw new Error('candid: no magic'); p = 4;
  const nt = lebN(), tab = [];
  for (let i = 0; i < nt; i++) {
    const op = Number(sleb());
    if (op === -18) tab.push({ op: 'opt', t: Number(sleb()) });
    else if (op === -19) tab.push({ op: 'vec', t: Number(sleb()) });
    else if (op === -20 || op === -21) { const n = lebN(), fs = []; for (let j = 0; j < n; j++) fs.push([lebN(), Number(sleb())]); tab.push({ op: op === -20 ? 'record' : 'variant', fs }); }
    else if (op === -22) { const l = () => { let n = lebN(); const o = []; while (n--) o.push(Number(sleb())); return o; }; const args = l(), rets = l(); let n = lebN(), mode = 'update'; while (n--) mode = [0, 'query', 'oneway', 'composite_query'][u8()]; tab.push({ op: 'func', args, rets, mode }); }
    else if (op === -23) { let n = lebN(); while (n--) { const l = lebN(); p += l; sleb(); } tab.push({ op: 'service' }); }
    else throw new Error('candid: op ' + op);
  }
  const na = lebN(), at = []; for (let i = 0; i < na; i++) at.push(Number(sleb()));
  if (types === null) return { tab, at }; // only the types
  function val(w, t) {
    t = t && rslv(t);
    if (w >= 0) {
      const d = tab[w];
      switch (d.op) {
        case 'opt': return u8() ? val(d.t, t?.t) : null;
        case 'vec': {
          const n = lebN();
          if (d.t === -5) { const b = Buffer.from(buf.subarray(p, p + n)); p += n; return b; }
          const a = new Array(n); for (let i = 0; i < n; i++) a[i] = val(d.t, t?.t); return a;
        }
        case 'record': {
          if (t?.tuple || (!t && d.fs.every(([h], i) => h === i) && d.fs.length)) return d.fs.map(([, ft], i) => val(ft, t?.fs[i]?.t));
          const o = {};
          for (const [h, ft] of d.fs) { const i = t?.byH?.get(h); const f = i === undefined ? null : t.fs[i]; o[f ? f.n : hnames.get(h) ?? h] = val(ft, f?.t); }
          if (t?.fs) for (const f of t.fs) if (!(f.n in o)) o[f.n] = null;
          return o;
        }
        case 'variant': { const i = lebN(); const [h, ft] = d.fs[i]; const j = t?.byH?.get(h); const f = j === undefined ? null : t.fs[j]; return { [f ? f.n : hnames.get(h) ?? h]: val(ft, f?.t) }; }
        case 'func': { u8(); u8(); const l = lebN(); const pr = principalText(buf.subarray(p, p + l)); p += l; const m = lebN(); const s = buf.subarray(p, p + m).toString(); p += m; return { principal: pr, method: s }; }
        default: throw new Error('dec ' + d.op);
      }
    }
    switch (w) {
      case -1: case -16: return null;
      case -2: return u8() === 1;
      case -3: return lebB();
      case -4: return sleb();
      case -5: return u8();
      case -6: { const x = buf.readUInt16LE(p); p += 2; return x; }
      case -7: { const x = buf.readUInt32LE(p); p += 4; return x; }
      case -8: { const x = buf.readBigUInt64LE(p); p += 8; return x; }
      case -9: return buf.readInt8(p++);
      case -10: { const x = buf.readInt16LE(p); p += 2; return x; }
      case -11: { const x = buf.readInt32LE(p); p += 4; return x; }
      case -12: { const x = buf.readBigInt64LE(p); p += 8; return x; }
      case -14: { const x = buf.readDoubleLE(p); p += 8; return x; }
      case -15: { const l = lebN(); const s = buf.subarray(p, p + l).toString(); p += l; return s; }
      case -24: { u8(); const l = lebN(); const s = principalText(buf.subarray(p, p + l)); p += l; return s; }
      default: throw new Error('dec prim ' + w);
    }
  }
  return at.map((w, i) => val(w, types[i]));
}

// ---- types: t1 (of interface e1) is usable where t2 (of interface e2) is expected ----
// Candid's subtyping without its special rule for opt (which lets an incompatible optional silently become null).
// Returns null or what is wrong.  Wire types are given as an interface made by wireTypes().
const PNAME = Object.fromEntries(Object.entries(PRIMS).map(([k, v]) => [v, k]));
export function subtype(e1, t1, e2, t2, seen = new Map()) {
  t1 = e1.rslv(t1); t2 = e2.rslv(t2);
  let s = seen.get(t1); if (!s) seen.set(t1, s = new Set()); if (s.has(t2)) return null; s.add(t2);
  const no = () => `${show(t1)} is not ${show(t2)}`, prim = (t, n) => t.k === 'prim' && t.n === n;
  if (prim(t2, 'reserved') || prim(t1, 'empty')) return null;
  if (t2.k === 'opt') return prim(t1, 'null') ? null : t1.k === 'opt' ? subtype(e1, t1.t, e2, t2.t, seen) : subtype(e1, t1, e2, t2.t, seen);
  if (t1.k === 'blob' || t2.k === 'blob') { const ok = (t, e) => t.k === 'blob' || (t.k === 'vec' && prim(e.rslv(t.t), 'nat8')); return ok(t1, e1) && ok(t2, e2) ? null : no(); }
  if (t1.k !== t2.k) return no();
  if (t1.k === 'prim') return t1.n === t2.n || (t1.n === 'nat' && t2.n === 'int') ? null : no();
  if (t1.k === 'vec') return subtype(e1, t1.t, e2, t2.t, seen);
  if (t1.k === 'record') {
    for (const f of t2.fs) { const i = t1.byH.get(f.h); if (i === undefined) { const r = e2.rslv(f.t); if (r.k === 'opt' || prim(r, 'null') || prim(r, 'reserved')) continue; return `field ${f.n} is missing`; } const x = subtype(e1, t1.fs[i].t, e2, f.t, seen); if (x) return `field ${f.n}: ${x}`; }
    return null;
  }
  if (t1.k === 'variant') { for (const f of t1.fs) { const i = t2.byH.get(f.h); if (i === undefined) return `alternative ${hnames.get(f.h) ?? f.n} is not expected`; const x = subtype(e1, f.t, e2, t2.fs[i].t, seen); if (x) return `alternative ${hnames.get(f.h) ?? f.n}: ${x}`; } return null; }
  if (t1.k === 'func') return t1.sig.mode !== t2.sig.mode ? `${t1.sig.mode} is not ${t2.sig.mode}` : subtypes(e2, t2.sig.args, e1, t1.sig.args, seen, true) ?? subtypes(e1, t1.sig.rets, e2, t2.sig.rets, seen);
  return null;
}
const show = (t) => (t.k === 'prim' ? t.n : t.k === 'blob' ? 'vec nat8' : t.k);
// a list of arguments or results: what is expected beyond those given must be optional
export function subtypes(e1, l1, e2, l2, seen) {
  for (let i = 0; i < l2.length; i++) { if (i >= l1.length) { const r = e2.rslv(l2[i]); if (r.k === 'opt' || r.n === 'null' || r.n === 'reserved') continue; return `value ${i} is missing`; } const x = subtype(e1, l1[i], e2, l2[i], seen); if (x) return x; }
  return null;
}
export function wireTypes(buf) {
  const { tab, at } = decode({ rslv: (t) => t }, null, buf), ref = (i) => (i < 0 ? { k: 'prim', n: PNAME[i] } : nodes[i]);
  const nodes = tab.map((d) => ({ k: d.op }));
  tab.forEach((d, i) => {
    const n = nodes[i];
    if (d.t !== undefined) n.t = ref(d.t);
    if (d.fs) { n.fs = d.fs.map(([h, t]) => ({ n: hnames.get(h) ?? String(h), h, t: ref(t) })); n.byH = new Map(n.fs.map((f, j) => [f.h, j])); }
    if (d.op === 'func') n.sig = { args: d.args.map(ref), rets: d.rets.map(ref), mode: d.mode };
  });
  return { rslv: (t) => t, types: at.map(ref) };
}
