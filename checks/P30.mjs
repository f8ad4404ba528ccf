// P30: the index contains every ledger block exactly once, whatever the timing and the failures of the fetches.
import { indexAdapter, BLOCKS, blk, kA, kT, kB, BIG, KEYS } from '../lib/idxad.mjs';
const round = { t: 'round', label: 'a minute passes' }, grow = (by) => ({ t: 'grow', by, label: `the ledger logs ${by} more` }), arch = (by) => ({ t: 'arch', by, label: `the ledger archives ${by}` }), day = { t: 'day', label: 'a day passes' };
const claims = [/^idx\.(?!get)/, /^init/], base = { adapter: indexAdapter, claims };
const K = [kA(1), kA(2), kA(3), kT(1), kT(2), kT(BIG), kB('7mint'), kB('37xfer'), kB('7update_token')];
const busy = Array.from({ length: 1080 }, (_, i) => blk(i ? '7xfer' : '7mint', { t: 1, f: i ? 1 + (i % 2) : undefined, o: 2 - (i % 2) }));
const many = Array.from({ length: 260 }, (_, i) => blk(['7mint', '7xfer', '37approve_coll'][i % 3], i % 3 === 2 ? { f: 1 + (i % 4), s: 2 } : { t: i % 7, o: 1 + (i % 3), f: i % 3 ? 2 : undefined }));
// every kind of block with every party, with and without the fields that do not matter for finding it
const memo = { Blob: Buffer.from('m') }, shapes = [undefined, memo].flatMap((memo) => [blk('7mint', { t: 1, o: 1, memo }), blk('7burn', { t: 1, f: 2, memo }), blk('7xfer', { t: 2, f: 1, o: 2, memo }), blk('37xfer', { t: 1, f: 1, o: 2, s: 3, memo }), blk('37approve', { t: 1, f: 1, s: 2, memo }), blk('37approve_coll', { f: 1, s: 3, memo }), blk('37revoke', { t: 1, f: 1, s: 2, memo }), blk('37revoke', { t: 2, f: 1, memo }), blk('37revoke_coll', { f: 1, s: 3, memo }), blk('37revoke_coll', { f: 1, memo }), blk('7update_token', { t: 1, f: 2, memo, meta: { Map: [] } })]);
// token ids on both sides of every size a key might be cut to, and more than a hundred accounts and tokens
const TID = [0n, 127n, 128n, 255n, 256n, 2n ** 16n, 2n ** 31n, 2n ** 32n - 1n, 2n ** 32n, 2n ** 32n + 1n, 2n ** 63n, 2n ** 64n - 1n, 2n ** 64n, 2n ** 64n + 1n, 2n ** 128n + 1n, 1n], ids = TID.map((t, i) => blk('7mint', { t, o: 1 + (i % 3) }));
export default { id: 'P30', opt: 1, codes: ['index_icrc7', 'core_nft'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'every kind', alphabet: [grow(1), round, day], modes: ['full'], depth: q ? 5 : 7, n: 9, open: 1 },
  { ...base, name: 'shapes', blocks: shapes, alphabet: [grow(1), grow(9), round], modes: ['full'], n: 0, open: 1, depth: q ? 5 : 8 },
  { ...base, name: 'token ids', blocks: ids, keys: TID.map(kT), alphabet: [grow(8), round], modes: ['full'], n: 0, open: 1, depth: 4 },
  { ...base, name: 'overlapping rounds', keys: K, alphabet: [grow(2), round], n: 3, open: 3, modes: ['full'], depth: q ? 7 : 9 },
  { ...base, name: 'failing ledger', keys: K, alphabet: [grow(2), round], n: 4, open: 2, faults: 2, traps: true, depth: q ? 6 : 8 },
  { ...base, name: 'archives', keys: K, alphabet: [arch(3), round, grow(3)], n: 9, arch: 6, open: 2, faults: 1, traps: true, modes: ['full', 'short', 'reject', 'swap'], depth: q ? 6 : 8 },
  { ...base, name: 'a busy token', blocks: busy, keys: [kA(2), kT(1), kB('7xfer'), kB('7mint')], prelude: Array(11).fill(round), alphabet: [round], modes: ['full'], n: 1080, arch: 700, open: 1, depth: 1, prefix: 1 },
  { ...base, name: 'more than a batch', blocks: many, keys: [kA(1), kA(2), kT(3), kB('7mint')], alphabet: [grow(101), arch(150), round], n: 100, open: 2, faults: 1, modes: ['full', 'short', 'reject'], depth: q ? 5 : 6 },
]; } };
