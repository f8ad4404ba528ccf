// The one BLS12-381 operation a stand-in replica needs: with the secret key 1, the public key is the generator of G2
// and the signature of a message is its hash to G1 (RFC 9380, suite BLS12381G1_XMD:SHA-256_SSWU_RO).
import { createHash } from 'node:crypto';
import { ISO11_XNUM, ISO11_XDEN, ISO11_YNUM, ISO11_YDEN, A, B, Z } from './bls_const.mjs';

const P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaabn;
const H_EFF = 0xd201000000010001n;
const mod = a => { const r = a % P; return r < 0n ? r + P : r; };
const pow = (b, e) => { let r = 1n; b = mod(b); for (; e; e >>= 1n) { if (e & 1n) r = r * b % P; b = b * b % P; } return r; };
const inv = a => { // extended Euclid
  let [x, y, u, v] = [mod(a), P, 1n, 0n];
  while (x) { const q = y / x; [x, y, u, v] = [y - q * x, x, v - q * u, u]; }
  return mod(v);
};
const poly = (k, x) => { let r = 0n; for (let i = k.length - 1; i >= 0; i--) r = (r * x + k[i]) % P; return r; };
const sha = (...b) => { const h = createHash('sha256'); for (const x of b) h.update(x); return h.digest(); };

function expand(msg, dst, len) {
  const dp = Buffer.concat([dst, Buffer.from([dst.length])]), out = [];
  const b0 = sha(Buffer.alloc(64), msg, Buffer.from([len >> 8, len & 255, 0]), dp);
  let b = sha(b0, Buffer.from([1]), dp); out.push(b);
  for (let i = 2; out.length * 32 < len; i++) { b = sha(Buffer.from(b.map((x, j) => x ^ b0[j])), Buffer.from([i]), dp); out.push(b); }
  return Buffer.concat(out).subarray(0, len);
}
function sswu(u) {
  const zu2 = Z * u * u % P, tv = mod(zu2 * zu2 + zu2);
  let x1 = tv === 0n ? B * inv(Z * A % P) % P : mod(-B) * inv(A) % P * mod(1n + inv(tv)) % P;
  const g = x => mod(x * x % P * x + A * x + B);
  let x = x1, gx = g(x1), y = pow(gx, (P + 1n) / 4n);
  if (y * y % P !== gx) { x = zu2 * x1 % P; gx = g(x); y = pow(gx, (P + 1n) / 4n); }
  if ((u & 1n) !== (y & 1n)) y = mod(-y);
  return [poly(ISO11_XNUM, x) * inv(poly(ISO11_XDEN, x)) % P, y * poly(ISO11_YNUM, x) % P * inv(poly(ISO11_YDEN, x)) % P];
}
const add = (p, q) => {
  if (!p) return q; if (!q) return p;
  let l;
  if (p[0] === q[0]) { if (p[1] !== q[1]) return null; l = 3n * p[0] * p[0] * inv(2n * p[1]) % P; }
  else l = mod(q[1] - p[1]) * inv(q[0] - p[0]) % P;
  const x = mod(l * l - p[0] - q[0]);
  return [x, mod(l * (p[0] - x) - p[1])];
};
const mul = (p, k) => { let r = null; for (; k; k >>= 1n) { if (k & 1n) r = add(r, p); p = add(p, p); } return r; };
export function hashToG1(msg, dst) {
  const o = expand(msg, Buffer.from(dst), 128), f = i => BigInt('0x' + o.subarray(64 * i, 64 * i + 64).toString('hex')) % P;
  return mul(add(sswu(f(0)), sswu(f(1))), H_EFF);
}
export function sign(msg) {
  const [x, y] = hashToG1(msg, 'BLS_SIG_BLS12381G1_XMD:SHA-256_SSWU_RO_NUL_');
  const b = Buffer.from(x.toString(16).padStart(96, '0'), 'hex');
  b[0] |= 0x80 | (y > (P - 1n) / 2n ? 0x20 : 0);
  return b;
}
// The generator of G2, compressed.
export const PUBLIC_KEY = Buffer.from('93e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8', 'hex');
