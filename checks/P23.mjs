// P23: the clean-up cancels exactly the uploads begun and not finalised a day ago or more, and disturbs nothing else.
import { mgmtAdapter, up } from '../lib/mgmtad.mjs';
const have = [up.init(1, 'z'), up.cancel(1, 'z')], H = 3_600_000_000_000n;
const pass = (h) => ({ t: 'pass', dt: BigInt(h) * H, label: `${h} h pass` });
const ms = (n) => ({ t: 'pass', dt: BigInt(n) * 1_000_000n, label: `${n} ms pass` });
const claims = [/./];
const base = { adapter: mgmtAdapter, claims, afterFail: 1, paths: ['a', 'b', 'c'], http: ['/a'] };
const menu = { cancel_upload: [{ ok: 1 }, { err: 'UploadNotInitialized' }, { rej: 1 }], get_storage_size: [{ size: 0n }], init_upload: [{ ok: 1 }, { err: 'NotEnoughStorage' }], store_chunk: [{ ok: 1 }, { err: 'UploadNotInitialized' }, { rej: 1 }], finalize_upload: [{ ok: 1 }, { err: 'IncompleteUpload' }, { err: 'UploadNotStarted' }] };
const three = [...have, up.init(1, 'a'), up.store(1, 'a'), up.init(1, 'b'), up.init(1, 'c'), up.store(1, 'c'), up.fin(1, 'c')];
export default { id: 'P23', opt: 1, codes: ['core_nft', 'storage'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'ages', prelude: have, menu, alphabet: [up.init(1, 'a'), up.store(1, 'a'), up.fin(1, 'a'), up.init(1, 'b'), up.cancel(1, 'b'), pass(12)], depth: q ? 6 : 8, faults: 1 },
  { ...base, name: 'several at once', prelude: [...three, pass(12)], menu, alphabet: [pass(12), pass(11), up.fin(1, 'a'), up.store(1, 'b')], depth: q ? 5 : 7, faults: 2 },
  { ...base, name: 'during user calls', prelude: [...three, pass(12), pass(11)], menu, alphabet: [pass(1), pass(12), up.fin(1, 'a'), up.store(1, 'a'), up.cancel(1, 'b'), up.init(1, 'b'), up.store(1, 'b')], overlap: true, depth: q ? 5 : 7, faults: 1 },
  { ...base, name: 'across an upgrade', prelude: [...three, pass(12)], menu, alphabet: (M) => [pass(12), { t: 'up', label: 'upgrade' }], depth: 4, faults: 0 },
]; } };
