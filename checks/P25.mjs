// P25: every canister the collection created is kept funded, whatever failed and however often the collection was upgraded.
import * as L from '../lib/ledger.mjs'; import { fundAdapter as adapter, f, T } from '../lib/fundad.mjs';
const { ops, acc } = L;
const base = { adapter, claims: [/^fund\./, /^init/, /^upgrade/, /^hang/, /^livelock/] };
const mint = f.work(ops.mint(1, [acc(1)])), FIRST = 'every request of the first canister';
const three = [f.up('a'), f.up('b', { no: FIRST }), mint, f.move];
export default { id: 'P25', opt: 1, codes: ['core_nft', 'storage', 'archive'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'one storage canister', prelude: [], alphabet: [f.up('a'), f.up('a', { no: 'install_code' }), f.up('b', { no: FIRST }), f.all(0n), f.all(T), f.all(T + 1n), f.min, f.bad('status'), f.bad('deposit'), f.upgrade], depth: q ? 4 : 6 },
  { ...base, name: 'two storage canisters and an archive', prelude: three, alphabet: [f.drop(0, 0n), f.drop(1, T), f.drop(2, 5n), f.drop(2, T + 1n), f.min, f.bad('frozen'), f.bad('status'), f.bad('status', 1), f.bad('deposit'), f.bad('deposit', 1), f.upgrade], depth: q ? 4 : 5 },
  { ...base, name: 'created after an upgrade', prelude: [mint, f.upgrade], alphabet: [f.move, f.up('a'), f.all(0n), f.min, f.upgrade], depth: q ? 5 : 7 },
  { ...base, name: 'short of cycles', prelude: three, alphabet: [f.all(7n), f.drop(0, 8n), f.drop(2, T), f.own(3n * T), f.own(3n * T + 1n), f.own(5n * T), f.own(5n * T + 1n), f.own(0n), f.own(100n * T), f.min, f.upgrade], depth: q ? 4 : 6 },
  { ...base, name: 'while an upload waits', prelude: [f.up('a')], alphabet: [f.hold('b'), f.go, f.no, f.end, f.all(0n), f.drop(1, T), f.min, f.bad('status'), f.bad('deposit'), f.upgrade], depth: q ? 5 : 7 },
]; } };
