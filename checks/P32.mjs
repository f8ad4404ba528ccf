// P32: the index can be upgraded at any point, also while a fetch is waiting, and goes on complete and without repeats.
import { indexAdapter, BLOCKS, kA, kT, kB, BIG, get } from '../lib/idxad.mjs';
const round = { t: 'round', label: 'a minute passes' }, grow = (by) => ({ t: 'grow', by, label: `the ledger logs ${by} more` }), arch = (by) => ({ t: 'arch', by, label: `the ledger archives ${by}` }), day = { t: 'day', label: 'a day passes' };
const up = { t: 'up', label: 'upgrade' }, stop = { t: 'stopup', label: 'stop, upgrade, start' };
const claims = [/^idx\./, /^init/], base = { adapter: indexAdapter, claims };
const K = [kA(1), kA(2), kT(2), kT(BIG), kB('7mint'), kB('37xfer'), kB('7update_token')];
const Q = [get([]), get([kA(1)], { sort: 'Descending', start: 1, length: 2 }), get([kT(2), kA(1)])];
export default { id: 'P32', opt: 1, codes: ['index_icrc7', 'core_nft'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'upgrade while waiting', keys: K, alphabet: [grow(4), round, up], n: 4, open: 2, faults: 1, modes: ['full', 'reject'], depth: q ? 6 : 7 },
  { ...base, name: 'stop, upgrade, start', keys: K, alphabet: [grow(4), round, stop], n: 4, open: 2, faults: 1, modes: ['full', 'short'], depth: q ? 5 : 7 },
  { ...base, name: 'queries across upgrades', alphabet: [up, grow(3), round, day, arch(4), ...Q], n: 11, arch: 2, serve: true, depth: q ? 4 : 5 },
  { ...base, name: 'queries waiting at the upgrade', keys: K.slice(0, 3), alphabet: [up, grow(3), round, ...Q.slice(0, 2)], n: 9, arch: 3, open: 2, gets: 2, modes: ['full', 'reject'], faults: 1, depth: q ? 5 : 6 },
]; } };
