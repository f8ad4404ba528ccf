// Interfaces that the canisters do not publish: the management canister (the part used) and the HTTP gateway's.
import { parseDid, encode, decode, principalBytes } from './candid.mjs';
export const MGMT_DID = parseDid(`
type settings = record { controllers : opt vec principal; reserved_cycles_limit : opt nat };
service : {
  create_canister : (record { settings : opt settings; sender_canister_version : opt nat64 }) -> (record { canister_id : principal });
  install_code : (record { mode : variant { install; reinstall; upgrade : opt record { skip_pre_upgrade : opt bool } }; canister_id : principal; wasm_module : blob; arg : blob; sender_canister_version : opt nat64 }) -> ();
  canister_status : (record { canister_id : principal }) -> (record {
    status : variant { running; stopping; stopped }; module_hash : opt blob; memory_size : nat; cycles : nat; reserved_cycles : nat; idle_cycles_burned_per_day : nat;
    settings : record { controllers : vec principal; compute_allocation : nat; memory_allocation : nat; freezing_threshold : nat; reserved_cycles_limit : nat; log_visibility : variant { controllers; public; allowed_viewers : vec principal }; wasm_memory_limit : nat; wasm_memory_threshold : nat };
    memory_metrics : record { wasm_memory_size : nat; stable_memory_size : nat; global_memory_size : nat; wasm_binary_size : nat; custom_sections_size : nat; canister_history_size : nat; wasm_chunk_store_size : nat; snapshots_size : nat };
    query_stats : record { num_calls_total : nat; num_instructions_total : nat; request_payload_bytes_total : nat; response_payload_bytes_total : nat } });
  deposit_cycles : (record { canister_id : principal }) -> ();
}`);
export const HTTP_DID = parseDid(`
type HttpReq = record { method : text; url : text; headers : vec record { text; text }; body : blob; certificate_version : opt nat16 };
type HttpResp = record { status_code : nat16; headers : vec record { text; text }; body : blob; upgrade : opt bool };
service : { http_request : (HttpReq) -> (HttpResp) query; http_request_update : (HttpReq) -> (HttpResp) }`);
export const encArgs = (did, m, args) => encode(did, did.methods[m].args, args);
export const encRets = (did, m, rets) => encode(did, did.methods[m].rets, rets);
export const decArgs = (did, m, b) => decode(did, did.methods[m].args, b);
// GET url on a canister: {status, headers: Map, body} or {trap}
// several at once (one snapshot)
export function httpGets(w, can, urls, caller, method = 'GET') {
  const c = w.can(can), f = c.ex['canister_query http_request'], pre = c.preImage(1);
  const out = urls.map((url) => {
    const r = c.run(() => f(), { arg: encArgs(HTTP_DID, 'http_request', [{ method, url, headers: [['host', 'x.icp0.io']], body: Buffer.alloc(0), certificate_version: 2 }]), caller, query: true, keepPre: pre });
    if (r.trap !== undefined) return { trap: r.trap };
    const x = decode(HTTP_DID, HTTP_DID.methods.http_request.rets, r.out.reply)[0];
    return { status: x.status_code, headers: x.headers.map(([k, v]) => [k.toLowerCase(), v]), body: x.body, upgrade: x.upgrade === true };
  });
  c.restoreHeap(pre); return out;
}
export const httpGet = (w, can, url, caller, method) => httpGets(w, can, [url], caller, method)[0];
// the same, as the HTTP gateway does it: an answer asking for an upgrade to an update call is followed (this changes the canister)
export function httpFetch(w, can, url, caller) {
  const r = httpGet(w, can, url, principalBytes(caller)); if (r.trap || !r.upgrade) return r;
  const id = w.ingress(can, 'http_request_update', encArgs(HTTP_DID, 'http_request_update', [{ method: 'GET', url, headers: [['host', 'x.icp0.io']], body: Buffer.alloc(0), certificate_version: 2 }]), caller);
  w.drain(); const o = w.results.get(id); w.results.delete(id); if (o.reply === undefined) return { trap: o.trap ?? o.reject[1] };
  const x = decode(HTTP_DID, HTTP_DID.methods.http_request_update.rets, o.reply)[0]; return { status: x.status_code, headers: x.headers.map(([k, v]) => [k.toLowerCase(), v]), body: x.body, updated: true };
}
