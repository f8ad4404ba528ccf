// P41: minting and permissions through the real command-line tool.
import { toolLedgerAdapter, run, HOWS, INIT, ME } from '../lib/toolad.mjs'; import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs';
const B = Buffer.from, { P, ALLPERMS } = L;
const base = { adapter: toolLedgerAdapter, afterFail: 1, observe: () => [...V.owners(), ['icrc7_total_supply'], ...V.meta(), ...V.log(), ...V.perms([1, 2, 5])] };
const T = (x) => ({ Text: x }), N = (x) => ({ Nat: BigInt(x) }), Z = (x) => ({ Int: BigInt(x) });
const value = (s) => (/^\+?\d+$/.test(s) && BigInt(s) < 1n << 64n ? N(s) : /^-\d+$/.test(s) && BigInt(s) >= -(1n << 63n) ? Z(s) : T(s));
const hex = (n) => L.sub(n).toString('hex');
// what the command line asks for
const mint = (o = {}, more = {}) => {
  const a = ['mint', '--owner', o.owner ?? P(5), '--name', 'n']; let bad = o.bad;
  if (o.sub !== undefined) a.push('--subaccount', o.sub); if (o.memo !== undefined) a.push('--memo', o.memo); if (o.url !== undefined) a.push('--icrc97_url', o.url);
  for (const m of o.meta ?? []) a.push('--metadata', m); if (o.ask) a.push('--interactive');
  const meta = o.url !== undefined ? [['icrc97:metadata', { Array: [T(o.url)] }]] : o.ask ? o.ask.flatMap(([k, t, v, x]) => (x === undefined ? [] : [[k, x]])) : (o.meta ?? []).map((m) => { const i = m.indexOf(':'); return [m.slice(0, i), value(m.slice(i + 1))]; });
  const stdin = o.ask && o.ask.map(([k, t, v], i) => `${k}\n` + (k === '' ? '' : `${t}\n${v}\n${i + 1 < o.ask.length ? 'y' : 'n'}\n`)).join('');
  const call = bad ? null : { m: 'mint', a: [{ mint_requests: [{ token_owner: { owner: o.owner ?? P(5), subaccount: o.sub === undefined ? null : B(o.sub, 'hex') }, memo: o.memo === undefined ? null : B(o.memo), metadata: meta }] }] };
  return run(a, { call, stdin, prints: (w, S, out) => (new RegExp(`\\b${(S.next - 1n)}\\b`).test(out) ? null : 'the token ' + (S.next - 1n)), ...more });
};
const NAMES = { Minting: ['minting', 'MINTING'], ManageAuthorities: ['manage_authorities', 'manageauthorities', 'manage-authorities', 'Manage_Authorities'], UpdateMetadata: ['update_metadata', 'updatemetadata', 'update-metadata'], UpdateCollectionMetadata: ['update_collection_metadata', 'updatecollectionmetadata', 'update-collection-metadata'], ReadUploads: ['read_uploads', 'readuploads', 'read-uploads'], UpdateUploads: ['update_uploads', 'updateuploads', 'update-uploads'] };
const who = (p) => (typeof p === 'number' ? P(p) : p);
const change = (m) => (p, perm, name = NAMES[perm][0], o = {}) => run(['permissions', m, '--principal', who(p), '--permission', name], { call: { m: m + '_permission', a: [{ principal: who(p), permission: { [perm]: null } }] }, ...o });
const grant = change('grant'), revoke = change('revoke');
const has = (p, perm, name = NAMES[perm][0], o = {}) => run(['permissions', 'has', '--principal', who(p), '--permission', name], { call: { m: 'has_permission', a: [{ principal: who(p), permission: { [perm]: null } }] }, prints: (w, S, out) => (out.trim() === String(L.has(S, who(p), perm)) ? null : String(L.has(S, who(p), perm))), ...o });
const list = (p, o = {}) => run(['permissions', 'list', '--principal', who(p)], { call: { m: 'get_user_permissions', a: [{ principal: who(p) }] }, prints: (w, S, out) => {
  const want = [...new Set(S.perms.get(who(p)) ?? [])].map((x) => NAMES[x][0]).sort().join(), got = out.split('\n').filter((l) => l.startsWith('- ')).map((l) => l.slice(2)).sort().filter((x, i, l) => x !== l[i - 1]).join();
  return got === want && (want !== '' || /no permissions/i.test(out)) ? null : want || 'no permissions';
}, ...o });
const VALUES = ['v', '', '0', '95', '007', '-5', '18446744073709551615', '18446744073709551616', '-9223372036854775808', '-9223372036854775809', '1.5', 'https://x.y/z?a=b', 'a:b:c', ':', ' 1', '\u00e9"\\'];
const bad = (a) => run(a, { call: null });
export default { id: 'P41', opt: 1, codes: ['core_nft', 'tool'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'owners, memos, URLs', depth: 1, prefix: 1, alphabet: [P(5), L.ANON, 'aaaaa-aa', ME.principal].flatMap((owner) => [undefined, hex(0), hex(7), 'FF'.repeat(32)].flatMap((sub) => [undefined, '', ' no Te ', '\u00e9'].flatMap((memo) => (q && owner !== P(5) && sub !== undefined && memo !== undefined ? [] : [mint({ owner, sub, memo })])))).concat(['https://a.b/c.json', '', 'x:y'].map((url) => mint({ url, memo: 'm' })), mint({ url: 'u', meta: ['a:b'] })) },
  { ...base, name: 'metadata entries', depth: 1, prefix: 1, alphabet: VALUES.map((v) => mint({ meta: ['K y:' + v] })).concat(VALUES.slice(0, q ? 4 : 16).flatMap((v) => VALUES.slice(0, q ? 4 : 16).map((x) => mint({ meta: ['a:' + v, 'b b:' + x] })))).concat(mint({ meta: [':v'] }), mint({ meta: ['k:1', 'k:2'] }), mint({ meta: ['c:1', 'b:2', 'a:3'] })) },
  { ...base, name: 'entries asked for', depth: 1, prefix: 1, alphabet: (() => { const one = [['k', '1', 'text', T('text')], ['k', '1', '5', T('5')], ['k', '2', '5', N(5)], ['k', '3', '-5', Z(-5)], ['k', '4', 'aGkA', { Blob: B('hi\0') }], ['u', '9', 'other', T('other')]], fin = ['', '', '']; return [[fin], ...one.map((x) => [x]), ...one.flatMap((x) => one.map((y) => [x, [y[0] + '2', ...y.slice(1)]])), [one[2], fin]].map((ask) => mint({ ask })).concat([['k', '2', 'x'], ['k', '2', '-1'], ['k', '3', '1.5'], ['k', '4', '!!']].map((x) => mint({ ask: [x], bad: true }))); })() },
  { ...base, name: 'what makes no sense is refused', depth: 1, prefix: 1, alphabet: [mint({ owner: 'nobody', bad: 1 }), mint({ owner: '', bad: 1 }), mint({ sub: 'zz', bad: 1 }), mint({ sub: '00', bad: 1 }), mint({ sub: hex(1) + '00', bad: 1 }), mint({ meta: ['nocolon'], bad: 1 }), mint({ meta: ['a:b', 'nocolon'], bad: 1 }), mint({ meta: [''], bad: 1 }), bad(['permissions', 'grant', '--principal', 'x', '--permission', 'minting']), bad(['permissions', 'grant', '--principal', P(5), '--permission', 'mint']), bad(['permissions', 'revoke', '--principal', P(1), '--permission', '']), bad(['permissions', 'has', '--principal', P(1), '--permission', 'admin']), bad(['permissions', 'list', '--principal', 'zz']), bad(['mint', '--owner', P(5)]), bad(['permissions', 'grant', '--principal', P(5)])] },
  { ...base, name: 'every name of a permission', depth: 1, prefix: 1, alphabet: ALLPERMS.flatMap((p) => NAMES[p].flatMap((n) => [grant(5, p, n), revoke(1, p, n), has(1, p, n), has(5, p, n)])).concat(list(1), list(5)) },
  { ...base, name: 'histories of permissions', depth: q ? 2 : 4, alphabet: ['Minting', 'UpdateUploads', ...(q ? [] : ['ManageAuthorities'])].flatMap((p) => [grant(5, p), revoke(5, p), has(5, p)]).concat(list(5), grant(ME.principal, 'Minting'), revoke(ME.principal, 'ManageAuthorities'), revoke(ME.principal, 'Minting'), mint()) },
  { ...base, name: 'limits', init: { supply_cap: 2n, max_memo_size: 3n }, depth: 3, alphabet: [mint(), mint({ memo: 'abcd' }), mint({ memo: 'abc', sub: hex(3) }), revoke(ME.principal, 'Minting')] },
  { ...base, name: 'a call disturbed', depth: q ? 1 : 2, prefix: 1, alphabet: [...HOWS, 'revoked'].flatMap((how) => [mint, (o, m) => grant(5, 'Minting', 'minting', m), (o, m) => revoke(1, 'Minting', 'minting', m)].map((f) => f({}, { at: how === 'revoked' ? { k: 0, before: { ...L.ops.revoke?.(1, ME.principal, 'Minting') ?? { c: P(1), m: 'revoke_permission', a: [{ principal: ME.principal, permission: { Minting: null } }], label: 'Minting is taken from it' } } } : { k: 0, how } }))).concat(['refused', 'rejected', 'lost'].flatMap((how) => [has(1, 'Minting', 'minting', { at: { k: 0, how } }), list(1, { at: { k: 0, how } })])) },
]; } };
