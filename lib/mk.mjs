// Shorthand for ledger checks.
import { ledgerAdapter } from './ledgerad.mjs';
export const check = (id, scenarios, extra = {}) => ({ id, scenarios: (tier) => scenarios(tier === 'quick').map((s) => ({ adapter: ledgerAdapter, init: {}, afterFail: 1, ...s })), ...extra });
export const MS = 1_000_000n;
export const at = (o, dt) => ({ ...o, dt: BigInt(dt) * MS });
export const UP = { m: '@upgrade' };
export const adv = (ms) => ({ m: '@advance', dt: BigInt(ms) * MS });
// all sequences of length 0..n over a list
export function seqs(l, n) { let out = [[]], cur = [[]]; for (let i = 0; i < n; i++) { cur = cur.flatMap((s) => l.map((x) => [...s, x])); out = out.concat(cur); } return out; }
