// Verification of certified HTTP answers (response verification version 2 of the HTTP gateway protocol), up to the
// root hash: the gateway would check the subnet's signature on that hash; here it is compared with the data the
// canister has certified.
import { sha256 } from './candid.mjs';
const B = Buffer.from;
function cbor(b) {
  let p = 0;
  const len = (x) => { const n = x & 31; if (n < 24) return n; const k = 1 << (n - 24); let v = 0; for (let i = 0; i < k; i++) v = v * 256 + b[p++]; return v; };
  const item = () => { const x = b[p++], t = x >> 5; if (t === 6) { len(x); return item(); } const n = len(x); if (t === 0) return n; if (t === 2) { p += n; return B(b.subarray(p - n, p)); } if (t === 3) { p += n; return b.subarray(p - n, p).toString(); } if (t === 4) return Array.from({ length: n }, item); throw new Error('cbor type ' + t); };
  const r = item(); if (p !== b.length) throw new Error('cbor: trailing bytes'); return r;
}
const dom = (s, ...l) => sha256(Buffer.concat([B([s.length]), B(s), ...l]));
export function root(t) {
  switch (t[0]) { case 0: return dom('ic-hashtree-empty'); case 1: return dom('ic-hashtree-fork', root(t[1]), root(t[2])); case 2: return dom('ic-hashtree-labeled', t[1], root(t[2])); case 3: return dom('ic-hashtree-leaf', t[1]); case 4: return t[1]; }
  throw new Error('bad tree node');
}
const flat = (t) => (t[0] === 1 ? [...flat(t[1]), ...flat(t[2])] : t[0] === 0 ? [] : [t]);
// 'unknown' if it may have been pruned
function find(t, label) {
  const l = flat(t), i = l.findIndex((n) => n[0] === 2 && n[1].equals(label)); if (i >= 0) return l[i][2];
  let lo = null; for (const n of l) { if (n[0] === 4) { lo = 'pruned'; continue; } if (n[0] !== 2) continue; const c = Buffer.compare(n[1], label); if (c > 0) return lo === 'pruned' ? 'unknown' : null; lo = null; }
  return lo === 'pruned' ? 'unknown' : null;
}
const walk = (t, path) => { for (const l of path) { if (t === null || t === 'unknown') return t; t = find(t, l); } return t; };
const uleb = (n) => { const o = []; do { const c = n & 127; n >>= 7; o.push(n ? c | 128 : c); } while (n); return B(o); };
const mapHash = (es) => sha256(Buffer.concat(es.map(([k, v]) => Buffer.concat([sha256(B(k)), sha256(typeof v === 'number' ? uleb(v) : B(v))])).sort(Buffer.compare)));
// null if the answer verifies, otherwise what is wrong
export function verify({ method = 'GET', url }, res, certified) {
  const hs = res.headers, h1 = (n) => hs.filter(([k]) => k === n).map(([, v]) => v);
  if (!certified) return 'the canister has no certified data';
  const [ic] = h1('ic-certificate'), [expr] = h1('ic-certificateexpression'); if (!ic || h1('ic-certificate').length !== 1) return 'not one certificate header'; if (!expr || h1('ic-certificateexpression').length !== 1) return 'not one certificate expression';
  const f = {}; for (const x of ic.split(',')) { const m = x.trim().match(/^(\w+)=(?::(.*):|(.*))$/); if (m) f[m[1]] = m[2] !== undefined ? B(m[2], 'base64') : m[3]; }
  if (f.version !== '2') return 'certificate version ' + f.version; if (!B(f.certificate ?? '').equals(B('CERTCERT'))) return 'not the certificate of the replica';
  let tree, ep; try { tree = cbor(f.tree); ep = cbor(f.expr_path); } catch (e) { return 'malformed certificate header: ' + e.message; }
  if (!root(tree).equals(certified)) return 'the proof does not lead to the certified root hash';
  const pathOf = decodeURIComponent(url.split('?')[0]).split('/').slice(1);
  if (ep[0] !== 'http_expr') return 'expression path ' + ep;
  const last = ep[ep.length - 1], segs = ep.slice(1, -1);
  if (last === '<$>') { if (JSON.stringify(segs) !== JSON.stringify(pathOf)) return `the proof is for /${segs.join('/')}`; }
  else if (last === '<*>') {
    if (segs.some((s, i) => s !== pathOf[i] && !(s === '' && i === segs.length - 1))) return `the proof is for /${segs.join('/')}/*`;
    for (let i = segs.filter((s) => s !== '').length; i <= pathOf.length; i++) for (const t of i === pathOf.length ? ['<$>', '<*>'] : ['<*>']) { if (i === segs.length && t === '<*>') continue; const r = walk(tree, ['http_expr', ...pathOf.slice(0, i), t].map((x) => B(x))); if (r !== null) return 'a more specific path is not shown to be absent'; }
  } else return 'expression path ' + ep;
  const at = walk(tree, [...ep.map((x) => B(x)), sha256(B(expr))]); if (at === null || at === 'unknown') return 'the expression is not certified for this path';
  if (/no_certification/.test(expr)) return null;
  let req = B('');
  const lst = (re) => { const m = expr.match(re); return m ? [...m[1].matchAll(/"([^"]*)"/g)].map((x) => x[1].toLowerCase()) : null; };
  if (!/no_request_certification/.test(expr)) {
    const params = lst(/certified_query_parameters:\[([^\]]*)\]/) ?? [], q = (url.split('?')[1] ?? '').split('&').filter((x) => params.includes(x.split('=')[0])).join('&');
    req = sha256(Buffer.concat([mapHash([[':ic-cert-method', method], [':ic-cert-query', q]]), sha256(B(''))]));
  }
  const only = lst(/certified_response_headers:ResponseHeaderList\{headers:\[([^\]]*)\]/), not = lst(/response_header_exclusions:ResponseHeaderList\{headers:\[([^\]]*)\]/);
  const use = hs.filter(([k]) => k !== 'ic-certificate' && k !== 'ic-certificateexpression' && (only ? only.includes(k) : !not?.includes(k)));
  const resp = sha256(Buffer.concat([mapHash([...use, ['ic-certificateexpression', expr], [':ic-cert-status', res.status]]), sha256(res.body)]));
  let leafs = [req]; if (req.length) { const q2 = sha256(Buffer.concat([mapHash([[':ic-cert-method', method]]), sha256(B(''))])); leafs.push(q2); }
  for (const r of leafs) { const x = walk(at, [r, resp]); if (x !== null && x !== 'unknown') return null; }
  return 'the proof does not cover this answer';
}
