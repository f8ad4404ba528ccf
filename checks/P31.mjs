// P31: a query of the index answers exactly the blocks matching all its filters, in order, page by page, unchanged.
import { indexAdapter, BLOCKS, KEYS, KINDS, kA, kT, kB, BIG, get, blk } from '../lib/idxad.mjs'; import * as L from '../lib/ledger.mjs';
const round = { t: 'round', label: 'a minute passes' }, grow = (by) => ({ t: 'grow', by, label: `the ledger logs ${by} more` }), arch = (by) => ({ t: 'arch', by, label: `the ledger archives ${by}` }), day = { t: 'day', label: 'a day passes' };
const claims = [/^idx\.(get|status|request|ahead|back)/, /^init/];
const SORTS = [undefined, 'Ascending', 'Descending'];
const F = [kA(1), kA(2), kA(3), kA(L.ANON), kA(1, 0), kA(1, 1), kT(1), kT(2), kT(BIG), kT(77), kB('7mint'), kB('7xfer'), kB('37xfer'), kB('37approve_coll'), kB('37revoke'), kB('7update_token'), kB('nope')];
const sets = (n) => { let out = [[]], cur = [[]]; for (let i = 0; i < n; i++) { cur = cur.flatMap((s) => F.filter((f) => !s.length || F.indexOf(f) > F.indexOf(s[s.length - 1]) || i === 1).map((f) => [...s, f])); out = out.concat(cur); } return out; };
const PAGES = [[0, 50], [0, 1], [0, 2], [1, 1], [1, 2], [2, 3], [3, 50], [0, 0], [99, 5], [1, 2n ** 64n - 1n], [2n ** 64n - 1n, 2n ** 64n - 1n]];
const q = (fs, sorts, pages) => fs.flatMap((f) => sorts.flatMap((sort) => pages.filter(([s, l]) => f.length || BigInt(l) < 1000n).map(([start, length]) => get(f, { sort, start, length }))));
const base = { adapter: indexAdapter, claims, noKeys: true, serve: true, n: 15 };
const full = [round], split = [round, day, arch(9)];
const some = q([[], [kA(1)], [kA(2), kT(2)], [kT(BIG), kB('7xfer')], [kB('7mint')]], SORTS, PAGES.slice(0, 7));
const S3Q = [1, 2, 3].flatMap((i) => [1, 2, BIG].flatMap((t) => ['7mint', '7xfer', '37xfer', '37approve'].flatMap((k) => [[kA(i), kT(t), kB(k)], [kB(k), kT(t), kA(i)]]))).concat([[kA(1), kA(2), kA(3)], [kA(1), kA(3), kT(1), kB('37xfer')], [kA(1), kA(3), kT(1), kB('7mint')], [kT(2), kA(1), kA(2), kB('7xfer')]]);
// more blocks than a page or a batch holds
const lots = Array.from({ length: 260 }, (_, i) => blk(['7mint', '7xfer', '37approve_coll', '37xfer'][i % 4], i % 4 === 2 ? { f: 1 + (i % 3), s: 2 } : { t: i % 7, o: 1 + (i % 3), f: i % 4 ? 2 : undefined, s: i % 4 === 3 ? 3 : undefined }));
const LP = [[0, 60], [0, 1000], [0, 250], [40, 70], [99, 3], [100, 100], [0, 100], [59, 1], [150, 2n ** 64n - 1n]];
export default { id: 'P31', opt: 1, codes: ['index_icrc7', 'core_nft'], scenarios: (tier) => { const t = tier === 'quick'; const S2 = sets(2), S3 = sets(3); return [
  { ...base, name: 'filters', prelude: full, alphabet: q(t ? S2 : S3, SORTS, t ? PAGES.filter((_, i) => i !== 3 && i !== 8) : PAGES), depth: 1, prefix: 1 },
  { ...base, name: 'three filters', prelude: full, alphabet: q(S3Q, SORTS.slice(1), [[0, 50], [1, 1]]), depth: 1, prefix: 1 },
  { ...base, name: 'long lists', blocks: lots, n: 260, arch: 120, prelude: [round, round, round], alphabet: q([[], [kA(2)], [kB('7mint')], [kA(2), kT(3)], [kB('37approve_coll'), kA(1)]], SORTS, LP), depth: 1, prefix: 1 },
  { ...base, name: 'long lists, not cached', blocks: lots, n: 260, arch: 120, prelude: [round, round, round, day], alphabet: q([[], [kA(2)], [kB('7mint')], [kA(1), kT(3)]], SORTS.slice(1), LP), depth: 1, prefix: 1 },
  { ...base, name: 'filters over archives', prelude: split, alphabet: q(t ? sets(1).concat(S2.filter((_, i) => i % 5 === 0)) : S2, SORTS.slice(1), PAGES), depth: 1, prefix: 1 },
  { ...base, name: 'histories', n: 5, arch: 2, alphabet: [round, day, grow(4), arch(2), ...some.filter((_, i) => i % (t ? 8 : 4) === 0)], depth: t ? 3 : 4 },
  { ...base, name: 'partly cached', prelude: [round, day, arch(5)], alphabet: (M, d) => (d < (t ? 1 : 2) ? q([[], [kA(1)], [kT(2)]], ['Ascending'], [[0, 2], [1, 2], [4, 3], [7, 2]]) : some), depth: t ? 2 : 3 },
  // answers that arrive late, while the ledger grows and the index fetches; failing ledger and archives
  { ...base, name: 'while fetching', serve: false, n: 6, arch: 3, prelude: [{ t: 'round', label: 'a minute passes' }, day], alphabet: [grow(3), arch(2), round, get([], { length: 9 }), get([kA(1)], { sort: 'Descending' }), get([kT(2), kA(1)]), get([kB('7mint')], { start: 1, length: 2 })], open: 2, gets: t ? 1 : 2, faults: 1, depth: t ? 5 : 6 },
]; } };
