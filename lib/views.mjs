// Observations shared by the ledger checks: which queries are compared with the reference after every action.
import * as L from './ledger.mjs';
const { acc } = L;
export const ACCS = [acc(1), acc(1, 1), acc(2), acc(2, 1), acc(3), acc(4)];
export const ownerViews = (n = 5) => [['icrc7_owner_of', [...Array(n).keys()].map(BigInt)], ['icrc7_balance_of', ACCS], ['icrc7_total_supply'], ['icrc7_tokens', null, null], ...ACCS.slice(0, 5).map((a) => ['icrc7_tokens_of', a, null, null])];
export const owners = (n = 5) => [['icrc7_owner_of', [...Array(n).keys()].map(BigInt)]];
export const meta = (n = 5) => [['icrc7_token_metadata', [...Array(n).keys()].map(BigInt)]];
export const approvalViews = (n = 3, own = [acc(1), acc(1, 1), acc(2)]) => [...Array(n).keys()].slice(1).map((i) => ['icrc37_get_token_approvals', BigInt(i), null, null]).concat(own.map((a) => ['icrc37_get_collection_approvals', a, null, null]));
export const authority = (toks = [1, 2, 9], spenders = [acc(1), acc(2), acc(3), acc(3, 1)], subs = [null, 0, 1]) => [['icrc37_is_approved', toks.flatMap((t) => spenders.flatMap((s) => subs.map((f) => ({ spender: s, from_subaccount: f === null ? null : L.sub(f), token_id: BigInt(t) }))))]];
export const log = () => [['icrc3_get_blocks', [{ start: 0n, length: 100n }]]];
export const perms = (ps = [1, 2, 3]) => ps.map((p) => ['get_user_permissions', { principal: L.P(p) }]).concat(ps.flatMap((p) => L.ALLPERMS.map((x) => ['has_permission', { principal: L.P(p), permission: { [x]: null } }])));
export const SETTINGS = ['symbol', 'name', 'description', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift'];
export const settings = () => SETTINGS.map((s) => ['icrc7_' + s]).concat([['icrc7_collection_metadata'], ['icrc37_max_approvals_per_token_or_collection'], ['icrc37_max_revoke_approvals']]);
export const all = (S) => [...ownerViews(), ...meta(), ...approvalViews(), ...authority(), ...log(), ...settings()];
