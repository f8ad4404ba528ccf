// P40: uploads by the real command-line tool, disturbed at every call.
import { uploadAdapter, run, HOWS, INIT } from '../lib/toolad.mjs'; import { f, hash } from '../lib/filead.mjs';
const B = Buffer.from;
const up = (file, dest, chunk, o = {}) => run(['upload-file', 'data.bin', dest, ...(chunk === null ? [] : ['--chunk_size', String(chunk)])], { files: { 'data.bin': file }, dest, want: file, ...o });
const doc = (text, o = {}) => { const b = B(text), dest = `/${hash(b)}.json`; return run(['upload-metadata', 'doc.json', ...(o.chunk ? ['--chunk_size', String(o.chunk)] : [])], { files: { 'doc.json': b }, dest, want: b, ...o }); };
const five = B('he\0l\xff', 'latin1'), six = B('abcabc'), one = B([0]), big = Buffer.alloc((1 << 20) + 3, 7); big[0] = 1; big[1 << 20] = 9;
const base = { adapter: uploadAdapter, afterFail: 9, paths: ['a', '/a', 'b'] };
const GOOD = '{"name":"n","attributes":[{"trait_type":"t","value":1}]}';
const each = (mk, n, hows) => [...Array(n).keys()].flatMap((k) => hows.map((how) => mk({ at: { k, how } })));
const meddle = (l, mk, n) => [...Array(n).keys()].flatMap((k) => l.map((before) => mk({ at: { k, before } })));
export default { id: 'P40', opt: 1, codes: ['core_nft', 'storage', 'tool'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'sizes and chunk sizes', alphabet: [one, five, six, B('')].flatMap((x) => [1, 2, 3, 5, 6, 7, null, 0, 1 << 20, (1 << 20) + 1, '18446744073709551615'].map((c) => up(x, '/a', c))), depth: 1, prefix: 1 },
  { ...base, name: 'destinations', alphabet: ['a', '/a', 'b', 'dir/b', '/dir/c.png', ' a b ', '/\u00e9', 'metrics', '/a?b'].map((d) => up(five, d, 2)), paths: ['a', '/a', 'b', 'dir/b', '/dir/c.png'], depth: 2 },
  { ...base, name: 'larger than a chunk', alphabet: [up(big, 'a', null), up(big, 'a', 600000)], depth: 1, prefix: 1 },
  { ...base, name: 'every call disturbed', alphabet: (M, d) => (d === 0 ? each((o) => up(five, 'a', 2, o), 5, HOWS) : [up(five, 'a', 2), up(six, 'a', 2), f.fin('a'), f.cancel('a'), f.init('a', six, 2)]), depth: q ? 2 : 3 },
  { ...base, name: 'somebody else', alphabet: (M, d) => (d === 0 ? meddle([f.cancel('a'), f.init('a', six, 2), f.store('a', 0, B('xy')), f.store('a', 1), f.fin('a'), [f.cancel('a'), f.init('a', six, 2), f.store('a', 0), f.store('a', 1), f.store('a', 2), f.fin('a')], [f.cancel('a'), f.init('a', six, 2), f.store('a', 0)], { m: '@upgrade', label: 'an upgrade' }], (o) => up(five, 'a', 2, o), 5) : [f.fin('a'), f.cancel('a'), up(six, 'a', 2)]), depth: q ? 1 : 2, prefix: 1 },
  { ...base, name: 'the file changes', alphabet: (M, d) => (d === 0 ? [...Array(5).keys()].flatMap((k) => ['he\0l?', 'xx\0l\xff', 'he', 'he\0l\xffmore', ''].map((x) => up(five, 'a', 2, { at: { k, write: B(x, 'latin1') } }))) : [f.fin('a'), f.cancel('a'), up(five, 'a', 2)]), depth: q ? 2 : 3, prefix: 1 },
  { ...base, name: 'over an upload under way', prelude: [f.init('a', six, 2), f.store('a', 0)], alphabet: (M) => [up(five, 'a', 2), up(six, '/a', 3), f.store('a', 1), f.store('a', 2), f.fin('a'), f.cancel('a')], depth: q ? 3 : 5 },
  { ...base, name: 'without permission', init: { perms: INIT.perms.slice(0, 1) }, barred: true, alphabet: [up(five, 'a', 2), doc(GOOD)], depth: 1, prefix: 1 },
  { ...base, name: 'metadata', paths: [`/${hash(B(GOOD))}.json`], alphabet: [doc(GOOD), doc(GOOD, { chunk: 7 }), doc('{}'), doc(' {"name": "\u00e9"}\n'), doc('[]', { refuse: 1 }), doc('{"name":1}', { refuse: 1 }), doc('{', { refuse: 1 }), doc('{"attributes":[{"value":1}]}', { refuse: 1 }), ...each((o) => doc(GOOD, { chunk: 30, ...o }), 4, q ? ['refused', 'typed error'] : HOWS)], depth: q ? 1 : 2, prefix: 1 },
  { ...base, name: 'no file', alphabet: [run(['upload-file', 'missing', 'a'], { refuse: 1 }), run(['upload-metadata', 'missing'], { refuse: 1 })], depth: 1, prefix: 1 },
]; } };
