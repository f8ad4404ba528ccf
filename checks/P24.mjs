// P24: the published Candid interface is what the canisters do: methods, modes, arguments and answers.
import { ifaceAdapter, arglists, call, DID } from '../lib/ifacead.mjs'; import * as L from '../lib/ledger.mjs'; import { up } from '../lib/mgmtad.mjs';
const { ops, acc, P } = L;
const have = [ops.mint(1, [acc(1), acc(1, 1), acc(2)]), ops.mint(1, [acc(1)]), ops.apt(1, 1, acc(2)), ops.apc(1, acc(2)), ops.burn(1, 4)];
const base = { adapter: ifaceAdapter };
const V = { version: { major: 1, minor: 2, patch: 3 }, commit_hash: 'x' };
const all = (code, callers, d, wide, pick = () => true) => () => [{ form: 1, label: 'the published interface' }, ...Object.keys(DID[code].methods).filter(pick).flatMap((m) => arglists(DID[code], m, d, wide).flatMap((a) => callers.map((c) => call(c, m, a))))];
const updates = (m) => DID.core_nft.methods[m].mode === 'update';
export default { id: 'P24', codes: ['core_nft', 'index_icrc7'], scenarios: (tier) => { const q = tier === 'quick', d = q ? 3 : 4; return [
  { ...base, name: 'an empty collection', code: 'core_nft', depth: 1, prefix: 1, actions: all('core_nft', [P(1), P(2)], d, 0) },
  { ...base, name: 'a collection in use', code: 'core_nft', prelude: have, depth: 1, prefix: 1, actions: all('core_nft', [P(1), P(2), L.ANON], d, q ? 0 : 1) },
  { ...base, name: 'after an upgrade', code: 'core_nft', prelude: [...have, { m: '@upgrade', arg: { Upgrade: V } }], depth: 1, prefix: 1, actions: all('core_nft', [P(1)], q ? 2 : d, 0) },
  { ...base, name: 'without limits set', code: 'core_nft', init: { logo: 'data:image/png;base64,aGk=', description: 'd', supply_cap: 5n, collection_metadata: [['a', { Map: [['b', { Int: -1n }]] }]] }, prelude: have, depth: 1, prefix: 1, actions: all('core_nft', [P(1)], 2, 0) },
  { ...base, name: 'one call after another', code: 'core_nft', prelude: have, depth: 2, actions: (ctx, dep) => Object.keys(DID.core_nft.methods).filter((m) => dep > 0 || updates(m)).flatMap((m) => arglists(DID.core_nft, m, q ? 1 : 2, 0).map((a) => call(P(1), m, a))) },
  { ...base, name: 'an index', code: 'index_icrc7', depth: q ? 1 : 2, prefix: 1, actions: all('index_icrc7', [P(1), P(2)], q ? 4 : 3, 0) },
  { ...base, name: 'an index after an upgrade', code: 'index_icrc7', prelude: [{ m: '@upgrade', arg: { Upgrade: V } }], depth: 1, prefix: 1, actions: all('index_icrc7', [P(1)], 4, 0) },
]; } };
