// P42: metadata documents written and judged by the real command-line tool.
import { docAdapter, run } from '../lib/toolad.mjs';
const base = { adapter: docAdapter };
const num = (s) => (/^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$/.test(s) && Number.isFinite(Number(s)) ? Number(s) : s);
const attr = (t, v, d) => ({ trait_type: t, value: num(v), ...(d === undefined ? {} : { display_type: d }) });
const doc = (o) => { const d = {}; for (const k of ['name', 'description', 'image', 'external_url']) if (o[k] !== undefined) d[k] = o[k]; if (o.attrs?.length) d.attributes = o.attrs; return d; };
const create = (o, ok = true) => { const a = ['create-metadata', '--output', 'out.json']; for (const k of ['name', 'description', 'image', 'external_url']) if (o[k] !== undefined) a.push('--' + k, o[k]); for (const x of o.raw ?? []) a.push('--attribute', x); return run(a, { ok, output: 'out.json', doc: doc(o) }); };
const ND = { name: 'n', description: 'd' };
const raw = (l) => ({ ...ND, raw: l, attrs: l.map((x) => attr(...x.split(':'))) });
const VALUES = ['Fire', '95', '-1', '0', '1.1', '1e3', '.5', '', ' ', '007', '0x10', '1,5', 'NaN', 'nan', 'inf', '-inf', 'infinity', '1e999', '\u00e9"\\', 'true', 'null'];
// questions asked: [name, description, image, external url, attributes: [trait, value, answer, kind]]
const asked = (o, ok = true) => {
  let s = `${o.name}\n`; if (o.name !== '') { s += `${o.description}\n`; if (o.description !== '') { s += `${o.image ?? ''}\n${o.external_url ?? ''}\n` + (o.ask ? 'y\n' : 'n\n'); (o.ask ?? []).forEach(([t, v, ans], i) => { s += `${t}\n`; if (t !== '') s += `${v}\n${ans}\n${i + 1 < o.ask.length ? 'y' : 'n'}\n`; }); } }
  return run(['create-metadata', '--output', 'out.json', ...(o.flag === false ? [] : ['--interactive'])], { stdin: s, ok, output: 'out.json', doc: doc({ ...o, attrs: (o.ask ?? []).filter(([t]) => t !== '').map(([t, v, a, d]) => attr(t, v, d)) }) });
};
const ATT = [['t', '5', '1', 'number'], ['t', '5', '2', 'boost_number'], ['t', '-16777217', '3', 'boost_percentage'], ['t', '0', '4', 'date'], ['t', '7', '5'], ['t', '7', ''], ['t', 'x', '1'], ['t', 'x', ''], ['t', 'x', '2\ncustom', 'custom'], ['t', 'x', '2\n'], ['t', 'x', '9\n1'], ['t', '3', 'x\n1', 'number'], ['t', 'nan', '1'], ['t', 'inf', '2\nk', 'k']];
// ---- documents to judge ----
const KINDS = ['"s"', '""', '1', 'null', 'true', '[]', '{}'];
const isStr = (j) => j.startsWith('"');
const judge = (text, ok) => run(['validate-metadata', 'doc.json'], { files: { 'doc.json': Buffer.from(text) }, ok });
const fields = ['name', 'description', 'image', 'external_url'];
const ATTS = []; for (const t of [undefined, ...KINDS]) for (const v of [undefined, '1', '"x"', 'null', '{}']) for (const d of [undefined, ...KINDS]) ATTS.push([`{${[t && `"trait_type":${t}`, v && `"value":${v}`, d && `"display_type":${d}`, '"other":0'].filter(Boolean).join()}}`, t !== undefined && isStr(t) && v !== undefined && (d === undefined || isStr(d))]);
export default { id: 'P42', codes: ['tool'], assumptions: ['numbers are compared as JSON numbers; documents with numbers a double cannot hold are not explored', 'behaviour outside the scenario alphabets and depths is not explored'], scenarios: (tier) => { const q = tier === 'quick', V2 = q ? VALUES.slice(0, 4) : VALUES; return [
  { ...base, name: 'created from flags', depth: 1, prefix: 1, alphabet: () => [undefined, 'n', '', 'A "b" \u00e9\\'].flatMap((name) => [undefined, 'd', ''].flatMap((description) => [undefined, 'https://x.y/z?a=b#c', ''].flatMap((image) => [undefined, 'u'].flatMap((external_url) => (name === undefined && description === undefined ? [] : [create({ name, description, image, external_url }, name !== undefined && description !== undefined)]))))) },
  { ...base, name: 'attributes from flags', depth: 1, prefix: 1, alphabet: () => VALUES.flatMap((v) => [create(raw(['t:' + v])), create(raw([`t:${v}:number`]))]).concat(V2.flatMap((v) => V2.map((x) => create(raw(['a:' + v, `b b:${x}:k`])))), ['nocolon', 'a:b:c:d', 'link:https://x.y:1'].flatMap((x) => [create({ ...ND, raw: [x] }, false), create({ ...ND, raw: ['a:b', x] }, false)]), create(raw([':v'])), create(raw(['a:1', 'a:2', 'a:3']))) },
  { ...base, name: 'asked for', depth: 1, prefix: 1, alphabet: () => [undefined, 'i'].flatMap((image) => [undefined, 'e'].flatMap((external_url) => [asked({ ...ND, image, external_url }), ...ATT.map((x) => asked({ ...ND, image, external_url, ask: [x] }))])).concat(asked({ name: '', description: 'd' }, false), asked({ name: 'n', description: '' }, false), asked({ ...ND, flag: false, ask: [ATT[0]] }), asked({ ...ND, ask: [['', '', '']] }), asked({ ...ND, ask: [ATT[0], ['', '', '']] }), (q ? ATT.slice(0, 3) : ATT).flatMap((x) => ATT.map((y) => asked({ ...ND, ask: [x, ['t2', ...y.slice(1)]] })))) },
  { ...base, name: 'what is created is valid', depth: 2, prefix: 1, alphabet: (ctx, d) => (d === 0 ? [create(ND), create(raw(['a:1', 'b:x:y', 'c:nan'])), asked({ ...ND, ask: [ATT[0], ATT[8]] })] : ctx.last ? [judge(ctx.last, true)] : []) },
  { ...base, name: 'fields', depth: 1, prefix: 1, alphabet: () => { const l = [['{}', 1], ['[]', 0], ['"s"', 0], ['1', 0], ['null', 0], ['', 0], ['{', 0], ['{"name":"a",}', 0], ['{"name":"a"}x', 0], ['{"other":1}', 1]].map(([t, ok]) => judge(t, !!ok)); for (const f of fields) for (const k of KINDS) l.push(judge(`{"${f}":${k}}`, isStr(k))); for (const f of fields) for (const g of fields) if (f < g) for (const a of ['"s"', '1']) for (const b of ['"s"', '1']) l.push(judge(`{"${f}":${a},"${g}":${b}}`, isStr(a) && isStr(b))); for (const k of KINDS) l.push(judge(`{"name":"n","attributes":${k}}`, k === '[]')); for (const k of KINDS) l.push(judge(`{"attributes":[${k}]}`, false)); return l; } },
  { ...base, name: 'attributes', depth: 1, prefix: 1, alphabet: () => ATTS.map(([t, ok]) => judge(`{"attributes":[${t}]}`, ok)).concat(ATTS.filter((_, i) => i % (q ? 37 : 5) === 0).flatMap(([t, ok]) => ['{"trait_type":"g","value":0}'].flatMap((g) => [judge(`{"attributes":[${g},${t}]}`, ok), judge(`{"attributes":[${t},${g}]}`, ok)]))) },
]; } };
