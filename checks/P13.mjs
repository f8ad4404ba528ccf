// P13: each management operation is done only for principals that hold its permission, and permissions change only by
// grant and revoke from a principal allowed to manage them.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, UP } from '../lib/mk.mjs';
const { ops, acc, P } = L;
const observe = () => [...V.perms(), ['@as', P(2), 'get_user_permissions', { principal: P(1) }], ['@as', L.ANON, 'get_user_permissions', { principal: P(1) }], ['@as', P(2), 'has_permission', { principal: P(1), permission: { ManageAuthorities: null } }], ['has_permission', { principal: L.ANON, permission: { Minting: null } }], ...[P(1), P(2), P(3), L.ANON].flatMap((p) => [['@as', p, 'get_all_storage_subcanisters'], ['@as', p, 'get_all_uploads', null, null], ['@as', p, 'get_upload_status', 'a']]), ['icrc7_total_supply'], ['icrc7_name'], ...V.meta(3)];
const claims = [/^res\.(mint|update_nft_metadata|update_collection_metadata|grant_permission|revoke_permission)\./, /^obs\./];
const M = (c) => [ops.mint(c, [acc(1)]), ops.umeta(c, 1, [['n', { Text: 'n' + (c.length ? 'a' : c) }]]), ops.ucol(c, { name: 'N' + (c.length ? 'a' : c) })];
const G = (c, ps = [2]) => ps.flatMap((p) => L.ALLPERMS.flatMap((x) => [ops.grant(c, p, x), ops.revoke(c, p, x)]));
const pre = [ops.mint(1, [acc(1)])];
const perms = (p) => [[P(1), [{ Minting: null }, { ManageAuthorities: null }]], [P(2), [{ UpdateMetadata: null }]], [P(3), [{ UpdateCollectionMetadata: null }]]];
export default check('P13', (q) => [
  { name: 'grant and revoke', prelude: pre, alphabet: [...M(1), ...M(2), ...G(1), ...G(2, [1])], depth: q ? 3 : 4, afterFail: 1, observe, claims },
  { name: 'separate holders', init: { perms: perms() }, prelude: pre, alphabet: [...M(1), ...M(2), ...M(3), ...M(L.ANON), ops.grant(2, 2, 'Minting'), ops.grant(3, 3, 'ManageAuthorities'), ops.grant(L.ANON, 2, 'Minting'), ops.grant(1, 2, 'ManageAuthorities'), ops.revoke(2, 1, 'ManageAuthorities'), ops.revoke(1, 1, 'ManageAuthorities'), ops.revoke(1, 3, 'UpdateCollectionMetadata'), ops.grant(2, 3, 'Minting'), ops.revoke(1, 2, 'Minting')], depth: q ? 3 : 4, afterFail: 1, observe, claims },
  { name: 'nobody', init: { perms: [] }, alphabet: [...M(1), ...M(2), ...G(1), ...G(2)], depth: 2, afterFail: 1, observe, claims },
  { name: 'test mode', init: { perms: [], test_mode: true }, installer: P(2), alphabet: [...M(1), ...M(2), ops.grant(2, 1, 'Minting'), ops.grant(1, 1, 'Minting'), ops.revoke(2, 2, 'Minting'), ops.revoke(2, 2, 'ManageAuthorities')], depth: q ? 3 : 4, afterFail: 1, observe, claims },
  { name: 'across an upgrade', prelude: pre, alphabet: (S, d) => (d === 1 ? [UP] : [...M(1), ...M(2), ops.grant(1, 2, 'Minting'), ops.revoke(1, 1, 'UpdateMetadata'), ops.revoke(1, 1, 'ManageAuthorities')]), depth: 3, observe, claims },
]);
