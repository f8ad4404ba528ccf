// P21: the consent message describes the call, all of it, and requests that cannot be described are refused.
import * as L from '../lib/ledger.mjs'; import { consentAdapter, METHODS, combos, star } from '../lib/consentad.mjs';
const { ops, acc, P } = L;
const raw = (label, f) => ({ label, raw: f });
const malformed = Object.keys(METHODS).flatMap((m) => {
  const full = (ctx, ad) => ad.enc(ctx, m, [star(m).at(-1)]), shorts = [0, 1, 3, 4, 5, 6, 8, 12, 16, 24, 32, 48, 64];
  return [raw(m + ' with no argument', () => [m, Buffer.alloc(0)]), raw(m + ' with an empty argument list', () => [m, Buffer.from('4449444c0000', 'hex')]), raw(m + ' with a text', () => [m, Buffer.concat([Buffer.from('4449444c000171', 'hex'), Buffer.from([2]), Buffer.from('hi')])]),
    ...shorts.map((n) => raw(`${m} with the first ${n} bytes of an argument`, (c, ad) => [m, full(c, ad).subarray(0, n)])), raw(m + ' without the last byte', (c, ad) => [m, full(c, ad).subarray(0, -1)]), raw(m + ' with a byte too much', (c, ad) => [m, Buffer.concat([full(c, ad), Buffer.from([0])])]),
    ...(METHODS[m].to || METHODS[m].spender ? [raw(m + ' with a subaccount of 31 bytes', (c, ad) => [m, ad.enc(c, m, [{ ...star(m)[0], [METHODS[m].to ? 'to' : 'spender']: { owner: P(2), subaccount: Buffer.alloc(31, 1) } }])])] : [])];
}).concat(['mint', 'burn_nft', '', 'icrc7_transfer ', 'ICRC7_TRANSFER', 'icrc7_transfer_from', 'icrc37_approve', 'http_request', 'icrc21_canister_call_consent_message', 'icrc37_is_approved'].map((m) => raw(`unsupported ${JSON.stringify(m)}`, (c, ad) => [m, ad.enc(c, 'icrc7_transfer', [star('icrc7_transfer')[0]])])));
const few = (m) => { const s = star(m); return [s[0], s.at(-1), ...s.slice(1, -1).filter((_, i) => i % 3 === 0)]; };
const pre = [ops.mint(1, [acc(1), acc(2)]), ops.apc(1, acc(2))];
const base = { adapter: consentAdapter, afterFail: 9 };
export default { id: 'P21', codes: ['core_nft'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'every combination of fields, one item', items: (m, d) => combos(m, (f) => (f === 'memo' ? 2 : /subaccount/.test(f) ? 3 : 9)), depth: 2 },
  { ...base, name: 'batches', prelude: pre, items: (m, d) => (d < 3 ? star(m) : few(m)), depth: q ? 3 : 5 },
  { ...base, name: 'longer batches', prelude: [...pre, { m: '@upgrade' }], items: (m, d) => few(m).slice(0, q ? 3 : 4), depth: q ? 5 : 7 },
  { ...base, name: 'malformed and unsupported', prelude: pre, methods: [], malformed, depth: 1 },
  { ...base, name: 'malformed, empty collection', methods: [], malformed, depth: 1 },
]; } };
