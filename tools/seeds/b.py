C = 'core_nft/src/'; X = 'index_icrc7/src/'
MAXC = "L.ALLPERMS.map((x) => ({ [x]: null }))"
seed('dedup-exp', 'P07', [(C + 'updates/icrc37.rs', """            memo: memo_clone.clone(),
            created_at_time: Some(Nat::from(arg.approval_info.created_at_time)),
            spender: Some(arg.approval_info.spender),
            exp: arg.approval_info.expires_at.map(|e| Nat::from(e)),
        },
    );

    let index = match log_transaction(transaction) {
        Ok(log_length) => log_length - 1,
        Err(e) => {
            return ApproveTokenResult""", """            memo: memo_clone.clone(),
            created_at_time: Some(Nat::from(arg.approval_info.created_at_time)),
            spender: Some(arg.approval_info.spender),
            exp: arg
                .approval_info
                .expires_at
                .filter(|e| *e > current_time)
                .map(|e| Nat::from(e)),
        },
    );

    let index = match log_transaction(transaction) {
        Ok(log_length) => log_length - 1,
        Err(e) => {
            return ApproveTokenResult""")],
 'two approvals with the same creation time, one expired already and one without an expiry', 'approvals that differ in their expiry are taken for duplicates',
 """
const s = ledger({ tx_window: 60_000_000_000n }); s.must(ops.mint(1, [acc(1)])); const at = s.w.time + 100_000_000n;
s.must(ops.apt(1, 1, acc(3), { at, exp: 5n })); const r = s.do(ops.apt(1, 1, acc(3), { at })); ok('the other approval is granted', /"Ok"/.test(J(r)), r);
want('approved', s.q('icrc37_is_approved', [{ spender: acc(3), from_subaccount: null, token_id: 1n }]), [true]);
""")
seed('batch-stop', 'P09', [(C + 'updates/icrc37.rs', """        let result = transfer_from(arg, caller, current_time);
        results.push(Some(result));
    }""", """        results.push(Some(transfer_from(arg, caller, current_time)));
        if matches!(
            results.last(),
            Some(Some(icrc37_transfer_from::TransferFromResult::Err(
                icrc37_transfer_from::TransferFromError::TooOld
            )))
        ) {
            break;
        }
    }""")],
 'a batch of delegated transfers in which an item that is too old is followed by another', 'the items after a failing one are not executed',
 """
const s = ledger(); s.must(ops.mint(1, [acc(1), acc(1)])); s.w.advance(500_000_000n); const it = (t, at) => ({ spender_subaccount: null, from: acc(1), to: acc(2), token_id: t, memo: null, created_at_time: at });
const r = s.w.call(CAN, P(1), 'icrc37_transfer_from', [it(1n, 5n), it(2n, null)]).ok; ok('two results', r.Ok.length === 2, r); want('owner', s.q('icrc7_owner_of', [2n]), [acc(2)]);
""")
seed('page-gone', 'P10', [(C + 'queries/icrc7.rs', """        let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
        tokens.sort();
        let start_index = tokens
            .iter()
            .position(|id| id > &prev)
            .unwrap_or(tokens.len());""", """        let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
        tokens.sort();
        let start_index = tokens
            .iter()
            .position(|id| id == &prev)
            .map_or(0, |index| index + 1);""")],
 'the last token of a page is burned before the next page is asked for', 'paging starts again from the first token',
 """
const s = ledger(); s.must(ops.mint(1, [acc(1), acc(1), acc(1)])); want('page', s.q('icrc7_tokens', null, 2n), [1n, 2n]); s.must(ops.burn(1, 2)); want('next page', s.q('icrc7_tokens', 2n, 2n), [3n]);
""")
seed('take-limit', 'P10', [(C + 'queries/icrc7.rs', """    account: icrc7::icrc7_tokens_of::Args0,
    prev: icrc7::icrc7_tokens_of::Args1,
    take: icrc7::icrc7_tokens_of::Args2,
) -> icrc7::icrc7_tokens_of::Response {
    if take.is_some() {
        let icrc7_max_take_value = read_state(|state| state.data.max_take_value.clone());""", """    account: icrc7::icrc7_tokens_of::Args0,
    prev: icrc7::icrc7_tokens_of::Args1,
    take: icrc7::icrc7_tokens_of::Args2,
) -> icrc7::icrc7_tokens_of::Response {
    if take.is_some() {
        let icrc7_max_take_value = read_state(|state| {
            state
                .data
                .max_take_value
                .clone()
                .max(state.data.default_take_value.clone())
        });""")],
 'a default page size above the maximum, and a page of an account asked for with a size between them', 'the maximal page size is not enforced', """
const s = ledger({ max_take_value: 2n, default_take_value: 4n }); s.must(ops.mint(1, [acc(1), acc(1), acc(1)]));
const r = s.qAs(9, 'icrc7_tokens_of', acc(1), null, 3n); ok('refused', r.ok === undefined, r);
""")
seed('page-sub', 'P11', [(C + 'queries/icrc37.rs', """    let start_index = if let Some(prev_approval) = prev {
        all_approvals
            .iter()
            .position(|approval| {
                approval.approval_info.spender == prev_approval.approval_info.spender
            })""", """    let start_index = if let Some(prev_approval) = prev {
        all_approvals
            .iter()
            .position(|approval| {
                approval.approval_info.spender.owner == prev_approval.approval_info.spender.owner
            })""")],
 'two subaccounts of one spender approved for a collection, the page ending at the second of them', 'a page repeats an approval of the page before', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.must(ops.apc(1, acc(3, 1))); s.must(ops.apc(1, acc(3, 2)));
let seen = [], prev = null; for (let k = 0; k < 5; k++) { const l = s.q('icrc37_get_collection_approvals', acc(1), prev, 1n); if (!l.length) break; seen.push(J(l[0].approval_info.spender)); prev = l[0]; }
want('pages', seen, [J(acc(3, 2)), J(acc(3, 1))]);
""")
seed('rate-edge', 'P12', [(C + 'guards.rs', "            current_time.saturating_sub(timestamp) < SLIDING_WINDOW_DURATION_NS\n", "            current_time.saturating_sub(timestamp) <= SLIDING_WINDOW_DURATION_NS\n")],
 'a call exactly 60 ms after the first of five', 'a call is refused although the interval has passed', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.w.advance(1_000_000_000n); for (let k = 0; k < 5; k++) s.do({ ...ops.xfer(1, 1, acc(1)), dt: 0n });
const r = s.do({ ...ops.xfer(1, 1, acc(2)), dt: 60_000_000n }); ok('accepted', /"Ok"/.test(J(r)), r);
""")
seed('guard-swap', 'P13', [(C + 'updates/management.rs', """#[query(guard = "caller_has_read_uploads_permission")]
pub fn get_all_uploads(""", """#[query(guard = "caller_has_update_uploads_permission")]
pub fn get_all_uploads(""")],
 'a principal with the permission to read uploads but not to change them', 'the list of uploads is refused to a holder of the permission and given to others', """
const s = ledger({ perms: [[P(2), [{ ReadUploads: null }]], [P(3), [{ UpdateUploads: null }]]] });
ok('a reader', s.qAs(2, 'get_all_uploads', null, null).ok !== undefined); ok('not a reader', s.qAs(3, 'get_all_uploads', null, null).ok === undefined);
""")
seed('path-inner', 'P16', [(C + 'updates/management.rs', """    let path = if media_path.starts_with('/') {
        media_path.clone()""", """    let path = if media_path.contains('/') {
        media_path.clone()""")],
 'a file whose path has directories and does not begin with a slash', 'the uploaded file is not served', """
const s = storage(ledger()), b = Buffer.from('hello'); s.raw(1, 'init_upload', { file_path: 'd/f', file_hash: hex(b), file_size: 5n, chunk_size: null }); s.raw(1, 'store_chunk', { file_path: 'd/f', chunk_id: 0n, chunk_data: b });
ok('finalised', /"Ok"/.test(J(s.raw(1, 'finalize_upload', { file_path: 'd/f' })))); const r = fetch(s, '/d/f'); ok('served', r.status === 200 && Buffer.from(r.body).equals(b), r);
""")
seed('up-single', 'P17', [(C + 'lifecycle/post_upgrade.rs', "            bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);\n", """            let test_mode = state.env.is_test_mode();
            bity_ic_canister_logger::init_with_logs(test_mode, logs, traces);
            state
                .data
                .tokens_list_by_owner
                .retain(|_, tokens| tokens.len() > 1);
""")],
 'an upgrade while an account holds exactly one token', 'the balance of the account is lost by the upgrade', """
const s = ledger(); s.must(ops.mint(1, [acc(1), acc(2), acc(2)])); s.up(); want('balances', s.q('icrc7_balance_of', [acc(1), acc(2)]), [1n, 2n]);
""")
seed('redir-key', 'P18', [(C + 'updates/management.rs', """            .media_redirections
            .insert(path.clone(), redirection_url);""", """            .media_redirections
            .insert(media_path.clone(), redirection_url);""")],
 'a finalised upload whose path has no leading slash, then an upgrade', 'the redirection to the file is lost by the upgrade', """
const s = storage(ledger()), b = Buffer.from('hello'); s.raw(1, 'init_upload', { file_path: 'f', file_hash: hex(b), file_size: 5n, chunk_size: null }); s.raw(1, 'store_chunk', { file_path: 'f', chunk_id: 0n, chunk_data: b });
ok('finalised', /"Ok"/.test(J(s.raw(1, 'finalize_upload', { file_path: 'f' })))); s.up(); const r = http(s, '/f'); ok('redirected', r.status === 307, r);
""")
seed('meta-empty', 'P19', [(C + 'types/metadata.rs', """        self.data
            .remove(&WrappedNat(nft_id.clone().unwrap_or(Nat::from(0u64))));

        for""", """        if !datas.is_empty() {
            self.data
                .remove(&WrappedNat(nft_id.clone().unwrap_or(Nat::from(0u64))));
        }

        for""")],
 'the metadata of a token is set to nothing', 'the previous metadata stays', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.must(ops.umeta(1, 1, [])); want('metadata', s.q('icrc7_token_metadata', [1n]), [[]]);
""")
seed('cfg-drift', 'P20', [(C + 'updates/management.rs', """        mutate_state(|state| {
            state.data.permitted_drift = Some(permitted_drift);
        });""", """        mutate_state(|state| {
            if state.data.permitted_drift.is_some() {
                state.data.permitted_drift = Some(permitted_drift);
            } else {
                state.data.permitted_drift = state.data.tx_window.clone().and(Some(permitted_drift));
            }
        });""")],
 'the permitted drift is set for the first time in a collection without a transaction window', 'the setting is silently ignored', """
const s = ledger(); s.must(ops.ucol(1, { permitted_drift: 7n })); want('drift', s.q('icrc7_permitted_drift'), 7n);
""")
seed('gc-touch', 'P23', [(C + 'updates/management.rs', """            InternalFilestorageData {
                init_timestamp: init_timestamp,
                state: UploadState::InProgress,""", """            InternalFilestorageData {
                init_timestamp: init_timestamp.max(ic_cdk::api::time()),
                state: UploadState::InProgress,""")],
 'an upload begun a day before the clean-up whose last chunk is younger', 'an abandoned upload is not collected in time', """
const s = scripted(ledger(), (m) => m === 'create_canister' ? [{ canister_id: P(50) }] : m === 'install_code' ? [] : m === 'get_storage_size' ? [0n] : [{ Ok: {} }]), w = s.w, H = 3_600_000_000_000n;
const D = 24n * H; s.raw(1, 'init_upload', { file_path: 'a', file_hash: 'h', file_size: 10n, chunk_size: null }); let cancelled = -1;
for (let k = 0; k < 100 && cancelled < 0; k++) { w.tick(H); if (k === 12) s.raw(1, 'store_chunk', { file_path: 'a', chunk_id: 0n, chunk_data: Buffer.from('x') }); if (s.log.includes('cancel_upload')) cancelled = k; }
ok('collected by the first clean-up after a day', cancelled >= 0 && cancelled <= 30, cancelled);
""")
seed('idx-cache-ahead', 'P30', [(X + 'blocks.rs', """    // If all blocks were found in cache, return early
    if uncached_block_ids.is_empty() {""", """    // If all blocks were found in cache, return early
    if uncached_block_ids.is_empty() || (sort_by.is_none() && !ret_blocks.is_empty()) {""")],
 'a query reads a block before the periodic fetch has indexed the one before it', 'indexing stops at the gap before the block that was read', """
const s = index([blk('7mint', { t: 1, o: 1 }), blk('7xfer', { t: 1, f: 1, o: 2 }), blk('7xfer', { t: 1, f: 2, o: 3 })]); s.get([], { start: 1, length: 2 }); s.round(10); want('blocks', s.ids([kT(1)]), [0, 1, 2]);
""")
seed('idx-third-filter', 'P31', [(X + 'update/get_blocks.rs', """        for filter_result in filter_results.iter().skip(1) {
            result.retain(|id| filter_result.contains(id));
        }""", """        if let Some(filter_result) = filter_results.last() {
            result.retain(|id| filter_result.contains(id));
        }""")],
 'a query with three filters, the second of which excludes a block the others match', 'a block that does not match all filters is answered', """
const s = index([blk('7mint', { t: 1, o: 1 }), blk('7xfer', { t: 1, f: 1, o: 2 }), blk('7xfer', { t: 1, f: 2, o: 3 })]); s.round(3); want('blocks', s.ids([kT(1), kB('7xfer'), kA(1)]), [1]); want('blocks', s.ids([kT(1), kA(1), kB('7xfer')]), [1]);
""")
seed('idx-up-back', 'P32', [(X + 'lifecycle/post_upgrade.rs', "            init_canister(state);\n", """            // fetch the block the upgrade may have interrupted again
            let next = state.data.last_block_id.saturating_sub(1);
            init_canister(RuntimeState {
                data: crate::state::Data {
                    last_block_id: next,
                    ..state.data
                },
                ..state
            });
""")],
 'an upgrade of the index after it has indexed blocks', 'the last block is indexed twice', """
const s = index([blk('7mint', { t: 1, o: 1 }), blk('7xfer', { t: 1, f: 1, o: 2 })]); s.round(3); s.up(); s.round(3); want('blocks', s.ids([kB('7xfer')]), [1]);
""")
seed('consent-count', 'P21', [(C + 'queries/icrc21.rs', """                fields.push(("Token ID".to_string(), arg.token_id.to_string()));
                push_approval_info(&mut fields, &arg.approval_info);""", """                fields.push((
                    "Token ID".to_string(),
                    u64::try_from(arg.token_id.0.clone())
                        .unwrap_or(u64::MAX)
                        .to_string(),
                ));
                push_approval_info(&mut fields, &arg.approval_info);""")],
 'a token id above 2^64', 'two approvals of different tokens share a message', """
const s = ledger(); s.must(ops.mint(1, [acc(1)]));
const m = (t) => J(s.qAs(9, 'icrc21_canister_call_consent_message', { method: 'icrc37_approve_tokens', arg: I.encArgs(s.c.did, 'icrc37_approve_tokens', ops.apt(1, t, acc(3), { at: 1n }).a), user_preferences: { metadata: { language: 'en', utc_offset_minutes: null }, device_spec: null } }));
ok('a message', /ConsentMessage|Message/.test(m(1n)), m(1n));
ok('different', m(2n ** 70n) !== m(2n ** 71n), m(2n ** 70n));
""")
