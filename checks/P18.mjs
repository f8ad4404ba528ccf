// P18: every URL is answered rightly in every reachable state, and every certified answer verifies.
import * as L from '../lib/ledger.mjs'; import { mgmtAdapter, up } from '../lib/mgmtad.mjs';
const { ops, P } = L;
const have = [up.init(1, 'z'), up.cancel(1, 'z')], H = 3_600_000_000_000n, UPG = { t: 'up', label: 'upgrade' }, once = (M) => (M.ups ? [] : [UPG]);
const file = (f) => [up.init(1, f), up.store(1, f), up.fin(1, f)];
const urls = ['/a', '/a?x=1', '/a/b', '/b', '/a/', '/metrics', '/logs'], more = [...urls, '/%61', '/a/b/c', '/A', '/', '/z', '/index.html', '/traces?q', '/metrics/', '/metrics/a', '/log', ''];
const good = { get_storage_size: [{ size: 0n }], init_upload: [{ ok: 1 }], store_chunk: [{ ok: 1 }], finalize_upload: [{ ok: 1 }], cancel_upload: [{ ok: 1 }] };
const poor = { ...good, finalize_upload: [{ ok: 1 }, { err: 'IncompleteUpload' }, { err: 'UploadAlreadyFinalized' }, { rej: 1 }, { ok: 1, trap: 1 }], cancel_upload: [{ ok: 1 }, { err: 'UploadNotInitialized' }, { rej: 1 }, { ok: 1, trap: 1 }] };
const base = { adapter: mgmtAdapter, afterFail: 1, paths: ['a', 'a/b'], certified: urls, claims: [/^http\./, /^upgrade/] };
const odd = ['index.html', '/', 'a/', '*', 'http_expr', 'é', 'a/é/ß', 'a+b&c=d;e,f', '~a.b-c_d', 'metrics/x', 'x/metrics', 'x/y/z/w/v/u', 'a%', 'logs.txt', '.well-known/ic-domains', 'a/../c', 'x'.repeat(300)];
const enc = (f) => encodeURI(f.startsWith('/') ? f : '/' + f);
export default { id: 'P18', opt: 1, codes: ['core_nft', 'storage'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'histories', prelude: have, menu: good, alphabet: (M) => [...file('a'), up.cancel(1, 'a'), ...file('/a/b'), ...(q ? once(M) : [UPG])], depth: q ? 5 : 7, faults: 0 },
  { ...base, name: 'steps that fail', prelude: [...have, up.init(1, 'a'), up.store(1, 'a'), ...file('a/b')], menu: poor, alphabet: (M) => [up.fin(1, 'a'), up.cancel(1, 'a'), up.init(1, 'a'), up.store(1, 'a'), up.fin(1, 'a/b'), up.cancel(1, 'a/b'), ...once(M)], depth: q ? 4 : 6, faults: q ? 1 : 3 },
  { ...base, name: 'while calls wait', prelude: [...have, up.init(1, 'a'), up.store(1, 'a'), ...file('a/b')], menu: poor, alphabet: [up.fin(1, 'a'), up.cancel(1, 'a'), up.init(1, '/b'), up.fin(2, 'a'), ops.mint(1, [L.acc(1)])], overlap: true, depth: q ? 3 : 4, faults: 1 },
  { ...base, name: 'odd paths', prelude: have, menu: good, paths: ['a'], certified: [...more, ...odd.map(enc)], alphabet: (M, d) => (M.up.size === 0 || (d >= 4 && M.up.size < 2) ? odd.map((f) => up.init(1, f)) : [...M.up].flatMap(([f, u]) => (u.st === 'Init' ? [up.store(1, f)] : u.st === 'InProgress' ? [up.fin(1, f)] : [UPG]))), depth: q ? 4 : 7, faults: 0 },
  { ...base, name: 'many files', prelude: [...have, ...['a', 'b', 'a/b/c', 'index.html', 'a/b', 'c/d/e'].flatMap(file)], menu: good, alphabet: (M) => [...once(M), ops.grant(1, 2, 'Minting'), ops.grant(1, 2, 'UpdateUploads'), ops.revoke(1, 1, 'Minting'), ...file('k'), up.cancel(1, 'k'), { t: 'adv', dt: 1_000_000n, label: '1 ms' }], depth: q ? 4 : 5, faults: 0 },
  { ...base, name: 'clean-up', prelude: [...have, ...file('b'), up.init(1, 'a'), up.store(1, 'a')], menu: { ...good, cancel_upload: [{ ok: 1 }, { rej: 1 }] }, alphabet: (M) => [{ t: 'pass', dt: 12n * H, label: '12 h pass' }, up.fin(1, 'a'), up.init(1, 'a'), ...once(M)], depth: q ? 5 : 7, faults: 1 },
]; } };
