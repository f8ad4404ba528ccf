// P16: files cut into chunks in every way and sent in every order, with every kind of wrong chunk, on real storage canisters.
import { fileAdapter, f, hash } from '../lib/filead.mjs';
const B = Buffer.from, UPG = { m: '@upgrade', label: 'upgrade' };
const F = { one: B([0]), five: B('he\0l\xff', 'latin1'), six: B('abcabc'), four: B([255, 254, 0, 10]) };
const base = { adapter: fileAdapter, afterFail: 9, paths: ['a', 'b'] };
const ids = (u) => [...Array(Math.ceil(u.size / u.chunk) + 1).keys()];
// every store that can be made for the upload under way, the finalisation and the cancellation
const all = (kinds) => (M) => { const l = []; for (const [p, u] of M) if (u.st !== 'Finalized') { for (const i of ids(u)) for (const k of kinds) l.push(f.store(p, i, k)); l.push(f.fin(p), f.cancel(p)); } return l; };
const sizes = Object.entries(F).flatMap(([, x]) => [1, 2, 3, 5, 7, null].map((c) => f.init('a', x, c)));
const inOrder = (M) => { const l = []; for (const [p, u] of M) if (u.st !== 'Finalized') { const i = ids(u).find((i) => !u.got.has(i)); l.push(i * u.chunk < u.size ? f.store(p, i) : f.fin(p)); } return l; };
const big = Buffer.alloc((1 << 20) + 3, 7); big[0] = 1; big[1 << 20] = 9;
const PATHS = ['d/f', '/d/f', 'd', 'd/f/g.png', '/f.tar.gz', '.f', '-', '~f', 'x_y-z', 'a:b', '@', 'a&b=c', 'a+b', "it's", '(1)', 'A', 'index.html', 'd/index.html', 'ä/ö', '1', 'f'.repeat(200)];
export default { id: 'P16', codes: ['core_nft', 'storage'], opt: 1, scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'chunk sizes', alphabet: (M, d) => (d === 0 ? sizes : inOrder(M)), depth: 8 },
  { ...base, name: 'orders and wrong chunks', prelude: [f.init('a', F.five, 2)], alphabet: all(q ? [undefined, 'altered', 'short'] : [undefined, 'altered', 'short', 'long']), depth: q ? 4 : 5, afterFail: q ? 1 : 2 },
  { ...base, name: 'all orders', prelude: [f.init('a', F.four, 1)], alphabet: (M) => all([undefined])(M).filter((o) => o.m !== 'cancel_upload'), depth: q ? 6 : 7, afterFail: q ? 1 : 3 },
  { ...base, name: 'wrong hash or size', alphabet: (M, d) => (M.size === 0 ? [f.init('a', F.six, 3, { hash: hash(F.five) }), f.init('a', F.six, 3, { size: 5 }), f.init('a', F.six, 3, { size: 7 }), f.init('a', F.six, 3, { hash: hash(F.six).toUpperCase() }), f.init('a', F.six, 3, { hash: '' }), f.init('a', F.six, 3), f.init('a', F.six, 0), f.init('a', F.six, (1 << 20) + 1), f.init('a', F.six, 1 << 20), f.init('a', F.one, 1, { size: 0 })] : [...all([undefined])(M), f.store('a', 1, F.six.subarray(3, 5)), f.store('a', 1, F.six.subarray(0, 3)), f.store('a', 2, B([1]))]), depth: q ? 5 : 6, afterFail: q ? 1 : 3 },
  { ...base, name: 'two files', prelude: [f.init('a', F.five, 3)], alphabet: (M) => [...inOrder(M), f.init('b', F.six, 2), f.init('b', F.five, 3), f.cancel('b'), f.cancel('a'), f.init('a', F.four, 2), f.init('a', F.five, 3), ...(M.get('b')?.st === 'InProgress' ? [f.fin('b')] : [])], depth: q ? 6 : 7, afterFail: q ? 1 : 2 },
  { ...base, name: 'upgrades', prelude: [f.init('b', F.six, 3), f.store('b', 0), f.store('b', 1), f.fin('b'), f.init('a', F.five, 2)], alphabet: (M) => [...all([undefined, 'altered'])(M), UPG], depth: q ? 3 : 5, afterFail: 2 },
  { ...base, name: 'paths', alphabet: (M) => [...inOrder(M), ...(M.size < 2 && [...M.values()].every((u) => u.st === 'Finalized') ? PATHS.filter((p) => !M.has(p)).map((p) => f.init(p, M.size ? F.five : F.six, 3)) : [])], depth: q ? 4 : 8, afterFail: 1, paths: PATHS },
  { ...base, name: 'several mebibytes', prelude: [f.init('a', big, null)], alphabet: all([undefined]), depth: 3, paths: ['a'] },
]; } };
