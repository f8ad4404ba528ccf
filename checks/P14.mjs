// P14: while a management call waits for another canister, all other management calls are refused without effect, ledger
// calls and queries are served; however it ends (answer, error, rejection, trap), management is possible again.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { mgmtAdapter, up } from '../lib/mgmtad.mjs';
const { ops, acc, P } = L;
const all = L.ALLPERMS.map((x) => ({ [x]: null })), perms = [[P(1), all], [P(2), all]];
const sync = [ops.mint(1, [acc(1)]), ops.mint(2, [acc(1)]), ops.burn(1, 1), ops.burn(3, 3), ops.umeta(2, 1, [['n', { Text: 'q' }]]), ops.ucol(1, { name: 'Q' }), ops.grant(2, 3, 'Minting'), ops.revoke(1, 2, 'Minting'), ops.mint(4, [acc(1)])];
const ledger = [ops.xfer(1, 1, acc(2)), ops.xfer(2, 2, acc(1)), ops.apc(1, acc(3)), ops.xfrom(3, 1, acc(1), acc(3))];
const U = [up.init(1, 'a'), up.init(2, 'b'), up.store(2, 'a'), up.cancel(1, 'a'), up.fin(2, 'a')];
const trap = (l) => [...l, { ...l[0], trap: 1 }, { rej: 1 }, { rej: 99 }];
const menu = { get_storage_size: trap([{ size: 0n }]), init_upload: trap([{ ok: 1 }, { err: 'NotEnoughStorage' }]), store_chunk: trap([{ ok: 1 }, { err: 'InvalidChunkId' }]), finalize_upload: trap([{ ok: 1 }, { err: 'IncompleteUpload' }]), cancel_upload: trap([{ ok: 1 }, { err: 'UploadNotInitialized' }]) };
const observe = () => [...V.owners(5), ['icrc7_tokens', null, null], ['icrc7_balance_of', V.ACCS], ['icrc7_name'], ...V.meta(3), ...V.perms([1, 2, 3]).slice(0, 9)];
const claims = [/./], have = [ops.mint(1, [acc(1), acc(2), acc(3)]), up.init(1, 'z'), up.cancel(1, 'z')];
const base = { adapter: mgmtAdapter, claims, afterFail: 1, init: { perms }, overlap: true, observe, paths: ['a', 'b', 'z'] };
export default { id: 'P14', opt: 1, codes: ['core_nft', 'storage'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'overlap', prelude: have, menu, alphabet: [...U, ...sync, ...ledger], depth: q ? 3 : 5, faults: q ? 1 : 2 },
  { ...base, name: 'release', prelude: have, menu, alphabet: [U[0], U[1], U[3], ops.mint(2, [acc(1)]), ops.burn(1, 1), ops.burn(2, 1), ops.ucol(1, { name: 'Q' })], afterFail: 2, depth: q ? 4 : 6, faults: 1 },
  { ...base, name: 'upload under way', prelude: [...have, up.init(1, 'a'), up.store(1, 'a')], menu, alphabet: [U[2], U[3], U[4], U[1], sync[0], sync[1], sync[2], ledger[0]], depth: q ? 4 : 6, faults: 1 },
  { ...base, name: 'creating a storage canister', prelude: have.slice(0, 1), alphabet: [U[0], U[1], U[3], sync[1], sync[6], ledger[0]], menu: { create_canister: [{ id: 'new' }, { id: 'new', trap: 1 }, { rej: 1 }, { rej: 99 }].map((x) => x), install_code: trap([{ ok: 1 }]), init_upload: menu.init_upload }, depth: q ? 4 : 6, faults: 1 },
]; } };
