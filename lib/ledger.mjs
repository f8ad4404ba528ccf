// Reference model of the NFT ledger (src/core_nft): a plain, sequential re-statement of what each call must answer
// and do.  It is used in lockstep with the real canister and never looks at it.
import { principalText, sha256 } from './candid.mjs';
export const P = (i) => principalText(Buffer.from([i, 1]));
export const ANON = principalText(Buffer.from([4]));
export const SELF = P(200);
export const sub = (n) => { const b = Buffer.alloc(32); b[31] = n; return b; };
export const acc = (p, s = null) => ({ owner: typeof p === 'number' ? P(p) : p, subaccount: s === null ? null : typeof s === 'number' ? sub(s) : s });
const zero = (s) => !s || s.every((b) => b === 0);
export const ak = (a) => a.owner + (zero(a.subaccount) ? '' : '.' + a.subaccount.toString('hex'));
export const same = (a, b) => ak(a) === ak(b);
const ANONACC = { owner: ANON, subaccount: null };
export const S_NS = 1_000_000_000n, MS = 1_000_000n;
export const ALLPERMS = ['Minting', 'ManageAuthorities', 'UpdateMetadata', 'UpdateCollectionMetadata', 'ReadUploads', 'UpdateUploads'];
export const T0 = 1_700_000_000n * S_NS;

// canonical text of any value (BigInt, Buffer, ...), for comparison and hashing
export function J(x) {
  return JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v.toString() + 'n' : v && v.type === 'Buffer' ? 'x' + Buffer.from(v.data).toString('hex') : v instanceof Uint8Array ? 'x' + Buffer.from(v).toString('hex') : v instanceof Map ? { $map: [...v] } : v instanceof Set ? { $set: [...v] } : v);
}
// error messages are free text: only the kind and the code matter
export function norm(r) {
  if (Array.isArray(r)) return r.map(norm);
  if (r && typeof r === 'object' && !Buffer.isBuffer(r)) {
    if (r.GenericError !== undefined) return { GenericError: 0 };
    if (r.StorageCanisterError !== undefined) return { StorageCanisterError: 1 };
    const o = {}; for (const k of Object.keys(r)) o[k] = norm(r[k]); return o;
  }
  return r;
}
export const Ok = (x) => ({ Ok: x }), E = (k, v = null) => ({ Err: { [k]: v } }), G = (c) => ({ Err: { GenericError: BigInt(c) } });
const TRAP = { trap: true };

// ---- ICRC-3 values ----
export const valText = (t) => ({ Text: t }), valNat = (n) => ({ Nat: n });
export function hashVal(v) {
  if ('Blob' in v) return sha256(v.Blob);
  if ('Text' in v) return sha256(Buffer.from(v.Text));
  if ('Nat' in v) return sha256(uleb(v.Nat));
  if ('Int' in v) return sha256(v.Int >= 0n ? uleb(v.Int) : sleb(v.Int)); // the ledger types crate hashes non-negative Ints like Nats
  if ('Array' in v) return sha256(Buffer.concat(v.Array.map(hashVal)));
  const es = v.Map.map(([k, x]) => [sha256(Buffer.from(k)), hashVal(x)]).sort((a, b) => Buffer.compare(a[0], b[0]) || Buffer.compare(a[1], b[1]));
  return sha256(Buffer.concat(es.flat()));
}
function uleb(n) { n = BigInt(n); const o = []; do { let b = Number(n & 127n); n >>= 7n; if (n) b |= 128; o.push(b); } while (n); return Buffer.from(o); }
function sleb(n) { n = BigInt(n); const o = []; for (;;) { const b = Number(n & 127n); n >>= 7n; if ((n === 0n && !(b & 64)) || (n === -1n && (b & 64))) { o.push(b); return Buffer.from(o); } o.push(b | 128); } }
export const mapOf = (o) => ({ Map: Object.keys(o).filter((k) => o[k] !== undefined && o[k] !== null).sort().map((k) => [k, o[k]]) });
export function sortVal(v) { if (v.Map) return { Map: v.Map.map(([k, x]) => [k, sortVal(x)]).sort((a, b) => (a[0] < b[0] ? -1 : 1)) }; if (v.Array) return { Array: v.Array.map(sortVal) }; return v; }

// ---- initial state ----
export function initArgs(o = {}) {
  return { test_mode: o.test_mode ?? false, version: { major: 0, minor: 0, patch: 1 }, commit_hash: 'c', permissions: { user_permissions: o.perms ?? [[P(1), ALLPERMS.map((x) => ({ [x]: null }))]] },
    description: o.description ?? null, symbol: o.symbol ?? 'S', name: o.name ?? 'N', logo: o.logo ?? null, supply_cap: o.supply_cap ?? null, max_query_batch_size: o.max_query_batch_size ?? null,
    max_update_batch_size: o.max_update_batch_size ?? null, max_take_value: o.max_take_value ?? null, default_take_value: o.default_take_value ?? null, max_memo_size: o.max_memo_size ?? null,
    atomic_batch_transfers: o.atomic_batch_transfers ?? null, tx_window: o.tx_window ?? null, permitted_drift: o.permitted_drift ?? null, max_canister_storage_threshold: o.max_canister_storage_threshold ?? null,
    collection_metadata: o.collection_metadata ?? [], approval_init: { max_approvals_per_token_or_collection: o.max_approvals ?? null, max_revoke_approvals: o.max_revoke ?? null } };
}
const CFG = ['description', 'symbol', 'name', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'max_take_value', 'default_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift', 'max_canister_storage_threshold'];
export function newState(args, installer) {
  const cfg = {}; for (const k of CFG) cfg[k] = args[k];
  const perms = args.permissions.user_permissions.map(([p, l]) => [p, l.map((x) => Object.keys(x)[0])]);
  const S = { now: T0, cfg, maxAppr: args.approval_init.max_approvals_per_token_or_collection, maxRevoke: args.approval_init.max_revoke_approvals,
    icrcWindow: args.tx_window ?? 0n, next: 1n, tok: new Map(), tapp: new Map(), capp: new Map(), blocks: [], win: [], rate: new Map(), perms: new Map(perms) };
  if (args.test_mode) for (const p of ['Minting', 'UpdateMetadata', 'UpdateCollectionMetadata', 'UpdateUploads', 'ManageAuthorities', 'ReadUploads']) grant(S, installer, p);
  return S;
}
const cloneMap = (m, f) => { const o = new Map(); for (const [k, v] of m) o.set(k, f(v)); return o; };
export function clone(S) {
  return { ...S, cfg: { ...S.cfg }, tok: new Map(S.tok), tapp: cloneMap(S.tapp, (l) => new Map(l)), capp: cloneMap(S.capp, (l) => new Map(l)), blocks: S.blocks.slice(), win: S.win.slice(), rate: cloneMap(S.rate, (l) => l.slice()), perms: cloneMap(S.perms, (l) => l.slice()) };
}
function grant(S, p, perm) { const l = S.perms.get(p); if (!l) S.perms.set(p, [perm]); else l.push(perm); }
export const has = (S, p, perm) => !!S.perms.get(p)?.includes(perm);

// ---- pieces ----
const d = (x, dflt) => x ?? dflt;
function rate(S, id) {
  const k = id.toString(); let l = (S.rate.get(k) ?? []).filter((t) => S.now - t < 60n * MS);
  if (l.length >= 5) { S.rate.set(k, l); return false; }
  l.push(S.now); S.rate.set(k, l); return true;
}
const memoOk = (S, m) => !m || BigInt(m.length) <= d(S.cfg.max_memo_size, 1_000_000n);
// log a transaction: {block} | {dup} | {throttled}
export function log(S, btype, tx) {
  const ts = S.now;
  if (S.blocks.length - (S.moved ?? 0) >= 1000) return { throttled: true }; // the log has no room
  let pruned = 0; while (S.win.length && pruned < 25 && S.win[0].ts + S.icrcWindow + 100n * MS < S.now) { S.win.shift(); pruned++; }
  if (!pruned && S.win.length >= 5) return { throttled: true };
  const txv = mapOf({ op: valText(btype), tid: tx.tid === undefined ? undefined : valNat(tx.tid), from: tx.from && valText(tx.from.owner), to: tx.to && valText(tx.to.owner), spender: tx.spender && valText(tx.spender.owner),
    exp: tx.exp === undefined || tx.exp === null ? undefined : valNat(tx.exp), memo: tx.memo ? { Blob: tx.memo } : undefined, meta: tx.meta, created_at_time: valNat(tx.at) });
  const key = hashVal(txv).toString('hex'), i = S.win.findIndex((e) => e.key === key);
  if (i >= 0) return { dup: BigInt(S.blocks.length - i - 1) };
  S.win.push({ ts, key }); S.blocks.push({ btype, ts, tx: txv });
  return { id: BigInt(S.blocks.length - 1) };
}
function move(S, id, to) { const t = S.tok.get(id); S.tok.set(id, { ...t, owner: to }); S.tapp.delete(id); }
const owns = (S, p) => { for (const t of S.tok.values()) if (t.owner.owner === p) return true; return false; };
const U64 = (x) => BigInt.asUintN(64, x);
function timing(S, at) { // ICRC-37
  const drift = d(S.cfg.permitted_drift, 50n * MS), win = d(S.cfg.tx_window, 10n * S_NS);
  if (at > S.now + drift) return E('CreatedInFuture', { ledger_time: S.now });
  if (at + win < S.now) return E('TooOld');
  return null;
}
const alive = (S, a) => !!a && (a.exp === null || a.exp > S.now);
const canSpend = (S, id, spender) => { const t = S.tok.get(id); return same(t.owner, spender) || alive(S, S.tapp.get(id)?.get(ak(spender))) || alive(S, S.capp.get(ak(t.owner))?.get(ak(spender))); };

// ---- calls ----
function transfer1(S, c, a) {
  if (!rate(S, a.token_id)) return G(0);
  const id = a.token_id, t = S.tok.get(id);
  if (!t) return E('NonExistingTokenId');
  if (!memoOk(S, a.memo)) return G(0);
  if (t.owner.owner !== c || a.to.owner === ANON || same(t.owner, a.to)) return E('InvalidRecipient');
  const at = a.created_at_time ?? S.now, drift = d(S.cfg.permitted_drift, 50n * MS), win = d(S.cfg.tx_window, 10n * S_NS);
  if (at > S.now + drift) return E('CreatedInFuture', { ledger_time: S.now });
  if (at < (S.now > win + drift ? S.now - (win + drift) : 0n)) return E('TooOld');
  const r = log(S, '7xfer', { tid: id, from: t.owner, to: a.to, memo: a.memo, at });
  if (r.dup !== undefined) return Ok(r.dup);
  if (r.id === undefined) return G(2);
  move(S, id, a.to); return Ok(r.id);
}
function transferFrom1(S, c, a) {
  if (!rate(S, a.token_id)) return G(0);
  if (a.created_at_time !== null && a.created_at_time !== undefined) { const e = timing(S, a.created_at_time); if (e) return e; }
  const id = a.token_id, t = S.tok.get(id); if (!t) return E('NonExistingTokenId');
  if (same(a.from, a.to) || same(a.to, ANONACC)) return E('InvalidRecipient');
  const sp = { owner: c, subaccount: a.spender_subaccount ?? null }, k = ak(sp);
  const may = same(t.owner, a.from) && canSpend(S, id, sp);
  // approvals found to have expired are dropped
  const ta = S.tapp.get(id); if (ta?.has(k) && !alive(S, ta.get(k))) ta.delete(k);
  const ca = S.capp.get(ak(t.owner)); if (ca?.has(k) && !alive(S, ca.get(k))) ca.delete(k);
  if (!may) return E('Unauthorized');
  const r = log(S, '37xfer', { tid: id, from: a.from, to: a.to, spender: sp, memo: a.memo, at: a.created_at_time ?? S.now });
  if (r.id === undefined) return G(1);
  move(S, id, a.to);
  if (!owns(S, a.from.owner)) S.capp.delete(ak(a.from));
  return Ok(r.id);
}
const maxAppr = (S) => d(S.maxAppr, 10n), maxRevoke = (S) => Number(d(S.maxRevoke, 10n));
function approve(S, c, info, id) {
  if (!rate(S, id ?? 0n)) return G(0);
  const e = timing(S, info.created_at_time); if (e) return e;
  const from = { owner: c, subaccount: info.from_subaccount ?? null };
  if (id !== null) {
    const t = S.tok.get(id); if (!t) return E('NonExistingTokenId');
    if (!same(t.owner, from)) return E('Unauthorized');
    if (same(info.spender, ANONACC)) return E('InvalidSpender');
  } else {
    if (same(info.spender, ANONACC)) return E('InvalidSpender');
    if (!owns(S, c)) return G(1);
  }
  const T = id !== null ? S.tapp : S.capp, k = id !== null ? id : ak(from), l = T.get(k) ?? new Map();
  if (BigInt(l.size) >= maxAppr(S)) return G(1);
  const r = log(S, id !== null ? '37approve' : '37approve_coll', { tid: id ?? undefined, from, spender: info.spender, exp: info.expires_at, memo: info.memo, at: info.created_at_time });
  if (r.id === undefined) return G(1);
  l.set(ak(info.spender), { spender: info.spender, fromSub: info.from_subaccount ?? null, exp: info.expires_at ?? null, at: S.now, memo: info.memo ?? null });
  T.set(k, l); return Ok(r.id);
}
function revoke(S, c, a, id) {
  if (id === null && !rate(S, 0n)) return G(0);
  if (a.created_at_time !== null && a.created_at_time !== undefined) { const e = timing(S, a.created_at_time); if (e) return e; }
  const from = { owner: c, subaccount: a.from_subaccount ?? null };
  if (id !== null) { const t = S.tok.get(id); if (!t) return E('NonExistingTokenId'); if (!same(t.owner, from)) return E('Unauthorized'); }
  const l = (id !== null ? S.tapp.get(id) : S.capp.get(ak(from)));
  if (!l || !l.size || (a.spender && !l.has(ak(a.spender)))) return E('ApprovalDoesNotExist');
  const r = log(S, id !== null ? '37revoke' : '37revoke_coll', { tid: id ?? undefined, from, spender: a.spender, memo: a.memo, at: a.created_at_time ?? S.now });
  if (r.id === undefined) return G(1);
  if (a.spender) l.delete(ak(a.spender)); else l.clear();
  return Ok(r.id);
}
function rollback(S, f) { const C = clone(S); const r = f(); if (r === TRAP) { Object.assign(S, C); } return r; }
const metaVal = (m) => ({ Map: [...m].sort((a, b) => (a[0] < b[0] ? -1 : 1)).map(([k, v]) => [k, v]) });

const CALLS = {
  icrc7_transfer(S, c, args) {
    if (!args.length) return [];
    const max = Number(d(S.cfg.max_update_batch_size, 100n));
    if (S.cfg.atomic_batch_transfers && args.length > max) return [G(0)];
    if (c === ANON) return [G(0)];
    return args.slice(0, max).map((a) => transfer1(S, c, a));
  },
  icrc37_transfer_from: (S, c, args) => Ok(args.map((a) => transferFrom1(S, c, a))),
  icrc37_approve_tokens: (S, c, args) => Ok(args.map((a) => approve(S, c, a.approval_info, a.token_id))),
  icrc37_approve_collection: (S, c, args) => Ok(args.map((a) => approve(S, c, a.approval_info, null))),
  icrc37_revoke_token_approvals(S, c, args) {
    if (!args.length) return Ok([]);
    if (!rate(S, args[0].token_id)) return G(0);
    return Ok(args.slice(0, maxRevoke(S)).map((a) => revoke(S, c, a, a.token_id)));
  },
  icrc37_revoke_collection_approvals: (S, c, args) => Ok(args.slice(0, maxRevoke(S)).map((a) => revoke(S, c, a, null))),
  mint(S, c, { mint_requests: q }) {
    if (!has(S, c, 'Minting')) return { reject: true };
    if (BigInt(q.length) > d(S.cfg.max_update_batch_size, 100n)) return E('ExceedMaxAllowedSupplyCap');
    if (BigInt(S.tok.size + q.length) > d(S.cfg.supply_cap, 10000n)) return E('ExceedMaxAllowedSupplyCap');
    if (q.some((r) => !memoOk(S, r.memo))) return E('InvalidMemo');
    return rollback(S, () => {
      for (let i = 0; i < q.length; i++) { const r = log(S, '7mint', { tid: S.next + BigInt(i), to: q[i].token_owner, memo: q[i].memo, at: S.now }); if (r.id === undefined) return i > 0 ? TRAP : E('StorageCanisterError', 1); }
      for (const r of q) { S.tok.set(S.next++, { owner: r.token_owner, meta: metaVal(new Map(r.metadata)) }); }
      return Ok(S.next - BigInt(q.length));
    });
  },
  burn_nft(S, c, id) {
    const t = S.tok.get(id); if (!t) return E('TokenDoesNotExist');
    if (t.owner.owner !== c) return E('NotTokenOwner');
    const r = log(S, '7burn', { tid: id, from: t.owner, at: S.now }); if (r.id === undefined) return E('StorageCanisterError', 1);
    S.tok.delete(id); S.tapp.delete(id); return Ok(null);
  },
  update_nft_metadata(S, c, { token_id: id, metadata }) {
    if (!has(S, c, 'UpdateMetadata')) return { reject: true };
    const t = S.tok.get(id); if (!t) return E('TokenDoesNotExist');
    const meta = metaVal(new Map(metadata));
    const r = log(S, '7update_token', { tid: id, from: { owner: c }, meta: mapOf({ 'icrc7:previous_metadata': t.meta, 'icrc7:new_metadata': meta }), at: S.now });
    if (r.id === undefined) return E('StorageCanisterError', 1);
    S.tok.set(id, { ...t, meta }); return Ok(id);
  },
  update_collection_metadata(S, c, req) {
    if (!has(S, c, 'UpdateCollectionMetadata')) return { reject: true };
    for (const k of CFG) if (req[k] !== null && req[k] !== undefined) S.cfg[k] = req[k];
    return Ok(null);
  },
  grant_permission(S, c, a) { if (!has(S, c, 'ManageAuthorities')) return { reject: true }; grant(S, a.principal, Object.keys(a.permission)[0]); return Ok(null); },
  revoke_permission(S, c, a) {
    if (!has(S, c, 'ManageAuthorities')) return { reject: true };
    const p = Object.keys(a.permission)[0], l = S.perms.get(a.principal);
    if (l) S.perms.set(a.principal, l.filter((x) => x !== p));
    return Ok(null);
  },
};
// op = {c, m, a: [args...], dt}
export function step(S, op) { if (op.dt) S.now += BigInt(op.dt); const r = CALLS[op.m](S, op.c, ...op.a); return r; }
export const hasCall = (m) => m in CALLS;

// ---- expected answers of queries ----
const ids = (S) => [...S.tok.keys()].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0));
const page = (S, l, prev, take) => {
  const max = d(S.cfg.max_take_value, 100n);
  if (take !== null && take > max) return TRAP;
  const n = take ?? d(S.cfg.default_take_value, 100n);
  return l.filter((i) => i > (prev ?? 0n)).slice(0, Number(n));
};
const batch = (S, l, f) => (BigInt(l.length) > d(S.cfg.max_query_batch_size, 100n) ? TRAP : l.map(f));
const approvals = (l, prev, take, wrap) => {
  const all = [...(l ?? new Map()).values()].sort((a, b) => (a.at < b.at ? 1 : a.at > b.at ? -1 : 0));
  let i = 0; if (prev) i = all.findIndex((x) => same(x.spender, prev.approval_info.spender)) + 1;
  return all.slice(i, i + Number(take ?? 10n)).map((x) => wrap({ memo: x.memo, from_subaccount: x.fromSub, created_at_time: x.at, expires_at: x.exp, spender: x.spender }));
};
export const blockVal = (b, phash) => mapOf({ btype: valText(b.btype), timestamp: valNat(b.ts), tx: b.tx, phash: { Blob: phash }, thash: { Blob: hashVal(b.tx) } });
const PH0 = Buffer.alloc(32), VALS = new WeakMap(); // block values already computed
export const QUERIES = {
  icrc7_owner_of: (S, l) => batch(S, l, (i) => S.tok.get(i)?.owner ?? null),
  icrc7_balance_of: (S, l) => batch(S, l, (a) => BigInt([...S.tok.values()].filter((t) => same(t.owner, a)).length)),
  icrc7_token_metadata: (S, l) => batch(S, l, (i) => S.tok.get(i)?.meta.Map ?? null),
  icrc7_tokens: (S, prev, take) => page(S, ids(S), prev, take),
  icrc7_tokens_of: (S, a, prev, take) => page(S, ids(S).filter((i) => same(S.tok.get(i).owner, a)), prev, take),
  icrc7_total_supply: (S) => BigInt(S.tok.size),
  icrc37_is_approved: (S, l) => l.map((a) => { const t = S.tok.get(a.token_id); return !!t && same(t.owner, { owner: t.owner.owner, subaccount: a.from_subaccount ?? null }) && canSpend(S, a.token_id, a.spender); }),
  icrc37_get_token_approvals: (S, id, prev, take) => (S.tok.has(id) ? approvals(S.tapp.get(id), prev, take, (x) => ({ token_id: id, approval_info: x })) : []),
  icrc37_get_collection_approvals: (S, a, prev, take) => approvals(S.capp.get(ak(a)), prev, take, (x) => ({ approval_info: x })),
  icrc37_max_approvals_per_token_or_collection: (S) => S.maxAppr, icrc37_max_revoke_approvals: (S) => S.maxRevoke,
  icrc3_get_blocks(S, args) {
    const out = []; let ph = PH0; const vals = S.blocks.map((b) => { let c = VALS.get(b); if (!c || c.ph !== ph) VALS.set(b, c = { ph, v: blockVal(b, ph), h: hashVal(b.tx) }); ph = c.h; return c.v; });
    for (const { start, length } of args) for (let i = start; i < start + length && i < BigInt(vals.length); i++) out.push({ id: i, block: vals[Number(i)] });
    return { log_length: BigInt(S.blocks.length), blocks: out, archived_blocks: [] };
  },
  get_all_storage_subcanisters: () => [], get_all_uploads: () => Ok([]), get_upload_status: () => E('UploadNotFound'), // a collection without uploads
  has_permission: (S, a) => Ok(has(S, a.principal, Object.keys(a.permission)[0])),
  get_user_permissions: (S, a) => (S.perms.has(a.principal) ? Ok(S.perms.get(a.principal).map((x) => ({ [x]: null }))) : E('UserNotFound')),
  icrc7_collection_metadata: (S) => {
    const m = { 'icrc7:symbol': valText(S.cfg.symbol), 'icrc7:name': valText(S.cfg.name), 'icrc7:total_supply': valNat(BigInt(S.tok.size)) };
    for (const k of ['description', 'logo']) if (S.cfg[k] !== null) m['icrc7:' + k] = valText(S.cfg[k]);
    for (const k of ['supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'tx_window', 'permitted_drift']) if (S.cfg[k] !== null) m['icrc7:' + k] = valNat(S.cfg[k]);
    if (S.cfg.atomic_batch_transfers !== null) m['icrc7:atomic_batch_transfers'] = valText(String(S.cfg.atomic_batch_transfers));
    return mapOf(m).Map;
  },
};
for (const k of ['symbol', 'name', 'description', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift']) QUERIES['icrc7_' + k] = (S) => S.cfg[k];
export const GATED = { get_user_permissions: 'ManageAuthorities', has_permission: 'ManageAuthorities', get_all_storage_subcanisters: 'ManageAuthorities', get_upload_status: 'ReadUploads', get_all_uploads: 'ReadUploads' };
export const isTrap = (r) => r === TRAP;

// ---- op constructors ----
const op = (c, m, ...a) => ({ c: typeof c === 'number' ? P(c) : c, m, a, dt: 200n * MS });
export const ops = {
  mint: (c, owners, o = {}) => op(c, 'mint', { mint_requests: owners.map((w) => ({ metadata: o.meta ?? [['n', { Text: 'x' }]], memo: o.memo ?? null, token_owner: w })) }),
  burn: (c, id) => op(c, 'burn_nft', BigInt(id)),
  xfer: (c, id, to, o = {}) => op(c, 'icrc7_transfer', [{ to, token_id: BigInt(id), memo: o.memo ?? null, from_subaccount: o.sub ?? null, created_at_time: o.at ?? null }]),
  xfers: (c, l) => op(c, 'icrc7_transfer', l.map(([id, to, o = {}]) => ({ to, token_id: BigInt(id), memo: o.memo ?? null, from_subaccount: null, created_at_time: o.at ?? null }))),
  xfrom: (c, id, from, to, o = {}) => op(c, 'icrc37_transfer_from', [{ spender_subaccount: o.sub ?? null, from, to, token_id: BigInt(id), memo: o.memo ?? null, created_at_time: o.at ?? null }]),
  apt: (c, id, spender, o = {}) => op(c, 'icrc37_approve_tokens', [{ token_id: BigInt(id), approval_info: { spender, from_subaccount: o.sub ?? null, expires_at: o.exp ?? null, memo: o.memo ?? null, created_at_time: o.at ?? 'now' } }]),
  apc: (c, spender, o = {}) => op(c, 'icrc37_approve_collection', [{ approval_info: { spender, from_subaccount: o.sub ?? null, expires_at: o.exp ?? null, memo: o.memo ?? null, created_at_time: o.at ?? 'now' } }]),
  rvt: (c, id, spender, o = {}) => op(c, 'icrc37_revoke_token_approvals', [{ spender, from_subaccount: o.sub ?? null, token_id: BigInt(id), memo: o.memo ?? null, created_at_time: o.at ?? null }]),
  rvc: (c, spender, o = {}) => op(c, 'icrc37_revoke_collection_approvals', [{ spender, from_subaccount: o.sub ?? null, memo: o.memo ?? null, created_at_time: o.at ?? null }]),
  umeta: (c, id, metadata) => op(c, 'update_nft_metadata', { token_id: BigInt(id), metadata }),
  ucol: (c, req) => op(c, 'update_collection_metadata', { description: null, symbol: null, name: null, logo: null, supply_cap: null, max_query_batch_size: null, max_update_batch_size: null, max_take_value: null, default_take_value: null, max_memo_size: null, atomic_batch_transfers: null, tx_window: null, permitted_drift: null, max_canister_storage_threshold: null, collection_metadata: null, ...req }),
  grant: (c, p, perm) => op(c, 'grant_permission', { principal: P(p), permission: { [perm]: null } }),
  revoke: (c, p, perm) => op(c, 'revoke_permission', { principal: P(p), permission: { [perm]: null } }),
};
// Times in arguments may be given relative to the ledger time at execution: 'now', or {now: ±delta}.
export function resolve(x, now) {
  if (x === 'now') return now;
  if (Array.isArray(x)) return x.map((y) => resolve(y, now));
  if (x && typeof x === 'object' && !Buffer.isBuffer(x)) { if ('now' in x) return now + BigInt(x.now); const o = {}; for (const k of Object.keys(x)) o[k] = resolve(x[k], now); return o; }
  return x;
}
