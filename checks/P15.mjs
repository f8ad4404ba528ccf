// P15: uploads follow their life cycle whatever the storage and management canisters answer.
import { mgmtAdapter, up } from '../lib/mgmtad.mjs';
const A = [up.init(1, 'a'), up.store(1, 'a'), up.fin(1, 'a'), up.cancel(1, 'a'), up.init(1, '/a'), up.init(1, 'b'), up.store(1, 'b', 1, 'xyz')];
const big = [up.init(1, 'a', { size: 2n ** 31n }), up.init(1, 'a', { size: 2n ** 31n + 1n }), up.init(1, 'a', { size: 2n, hash: 'k', chunk: 7n }), up.init(1, 'b', { size: 0n })];
const claims = [/./], have = [up.init(1, 'z'), up.cancel(1, 'z')];
const base = { adapter: mgmtAdapter, claims, afterFail: 1, paths: ['a', '/a', 'b'], http: ['/a', '/b'] };
export default { id: 'P15', opt: 1, codes: ['core_nft', 'storage'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'life cycle', prelude: have, alphabet: A, depth: q ? 4 : 6, faults: q ? 1 : 2 },
  { ...base, name: 'from nothing', alphabet: A.filter((_, i) => i < 4 || i === 5), depth: q ? 3 : 5, faults: q ? 2 : 3 },
  { ...base, name: 'size limits', prelude: have, alphabet: [...big, A[3]], depth: 2, faults: 2 },
  { ...base, name: 'paths no request can reach', prelude: have, alphabet: ['a b', 'a?b', 'a#b', 'a%20b', '/metrics', 'logs', 'traces', 'a\nb', 'metrics/', 'a\u00e9', 'a\\b', 'a:8/@b', ''].flatMap((p) => [up.init(1, p), up.store(1, p), up.fin(1, p)]), menu: { get_storage_size: [{ size: 0n }], init_upload: [{ ok: 1 }], store_chunk: [{ ok: 1 }], finalize_upload: [{ ok: 1 }] }, paths: ['a', 'metrics', 'a b', 'a?b'], http: ['/metrics/', '/a%C3%A9', '/a:8/@b', '/', '/a'], depth: q ? 3 : 4, faults: 0 },
  { ...base, name: 'not allowed', init: { perms: [] }, alphabet: [...A, up.init(2, 'a')], depth: 1 },
  { ...base, name: 'finalised', prelude: [...have, up.init(1, 'a'), up.store(1, 'a'), up.fin(1, 'a')], alphabet: [...A, up.store(1, '/a'), up.fin(1, '/a'), up.cancel(1, '/a'), { t: 'up', label: 'upgrade' }], depth: q ? 3 : 4, faults: 1 },
  { ...base, name: 'listing in pages', pages: 1, prelude: have, alphabet: (M) => [...['a', 'b', 'c', 'd', 'e'].filter((f) => !M.up.has(f)).slice(0, 2).map((f) => up.init(1, f)), ...[...M.up.keys()].slice(0, 2).flatMap((f) => [up.cancel(1, f), up.store(1, f)]), { t: 'up', label: 'upgrade' }], depth: q ? 4 : 5, menu: { get_storage_size: [{ size: 0n }], init_upload: [{ ok: 1 }], store_chunk: [{ ok: 1 }], cancel_upload: [{ ok: 1 }] }, faults: 0, calls: 9, paths: ['a'], http: [] },
  { ...base, name: 'two storage canisters', prelude: [...have, up.init(1, 'c'), up.store(1, 'c')], alphabet: (M) => (M.cans.size < 2 ? [up.init(1, 'a', { size: 4 })] : [A[0], A[1], A[2], A[3], A[5], up.fin(1, 'c'), up.store(1, 'c')]), menu: { get_storage_size: [{ size: 500n * 1024n ** 3n - 3n }, { size: 0n }] }, depth: q ? 3 : 5, faults: 1, paths: ['a', 'b', 'c'] },
]; } };
