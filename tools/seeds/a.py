C = 'core_nft/src/'; X = 'index_icrc7/src/'
seed('own-sub-push', 'P01', [(C + 'updates/icrc37.rs', """            .entry(arg.to.clone())
            .or_insert(vec![])
            .push(nft.token_id.clone());""", """            .entry(Account::from(arg.to.owner))
            .or_insert(vec![])
            .push(nft.token_id.clone());""")],
 'a delegated transfer (icrc37_transfer_from) to an account with a subaccount', 'the balance index is updated for the default account of the recipient, so balances disagree with ownership',
 """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.must(ops.xfrom(1, 1, acc(1), acc(2, 5)));
want('owner', s.q('icrc7_owner_of', [1n]), [acc(2, 5)]);
want('balances', s.q('icrc7_balance_of', [acc(1), acc(2), acc(2, 5)]), [0n, 0n, 1n]);
""")
seed('own-burn-sub', 'P01', [(C + 'updates/icrc7.rs', """                    .entry(previous_owner)
                    .or_insert(vec![])
                    .retain(|id| *id != nft.token_id.clone());""", """                    .entry(previous_owner)
                    .or_insert(vec![])
                    .pop_if(|id| *id == nft.token_id.clone());""")],
 'a transfer of a token that is not the one its owner got last', 'the previous owner keeps the token in the balance index',
 """
const s = ledger(); s.must(ops.mint(1, [acc(1), acc(1)])); s.must(ops.xfer(1, 1, acc(2)));
want('balances', s.q('icrc7_balance_of', [acc(1), acc(2)]), [1n, 1n]);
""")
seed('mint-id-reuse', 'P02', [(C + 'updates/management.rs', """    let current_token_id = read_state(|state| state.data.last_token_id.clone());
    let token_list""", """    let current_token_id = read_state(|state| match state.data.tokens_list.keys().max() {
        Some(id) => id.clone() + Nat::from(1u64),
        None => state.data.last_token_id.clone(),
    });
    let token_list""")],
 'the token minted last is burned while others remain, then another is minted', 'a token id is used a second time', """
const s = ledger(); s.must(ops.mint(1, [acc(1), acc(1)])); s.must(ops.burn(1, 2));
want('id', s.must(ops.mint(1, [acc(1)])), { Ok: 3n });
""")
seed('mint-cap-live', 'P02', [(C + 'updates/management.rs', "    if token_list.len() + req.mint_requests.len() > supply_cap {", "    if token_list.len() >= supply_cap {")],
 'a batch mint that starts below the supply cap and ends above it', 'a batch exceeds the supply cap', """
const s = ledger({ supply_cap: 2n }); s.must(ops.mint(1, [acc(1)])); const r = s.do(ops.mint(1, [acc(1), acc(1)]));
ok('a mint beyond the cap is refused', /Err/.test(J(r)), r); want('supply', s.q('icrc7_total_supply'), 1n);
""")
seed('auth-is-owner', 'P03', [(C + 'updates/icrc37.rs', "    let is_caller_token_holder = spender_account == arg.from;", "    let is_caller_token_holder = spender_account.owner == nft.token_owner.owner;"),
  (C + 'updates/icrc37.rs', "    let is_owner = nft.token_owner == arg.from;", "    let is_owner = nft.token_owner.owner == arg.from.owner;")],
 'a transfer_from naming another subaccount of the same principal as the source', 'a token is moved although the account named as its holder does not hold it', """
const s = ledger(); s.must(ops.mint(1, [acc(1, 3)])); const r = s.do(ops.xfrom(1, 1, acc(1), acc(2)));
ok('refused', /Unauthorized/.test(J(r)), r); want('owner', s.q('icrc7_owner_of', [1n]), [acc(1, 3)]);
""")
seed('appr-survives', 'P04', [(C + 'updates/icrc37.rs', """    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
        token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
    });

    let has_nfts""", """    if has_token_approval {
        __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
            token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
        });
    }

    let has_nfts""")],
 'a token with a token approval is moved under a collection approval by another spender', 'the approval given by the previous owner lets its spender take the token from the new owner', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.must(ops.apt(1, 1, acc(3))); s.must(ops.apc(1, acc(4))); s.must(ops.xfrom(4, 1, acc(1), acc(2)));
const r = s.do(ops.xfrom(3, 1, acc(2), acc(3))); ok('refused', /Unauthorized/.test(J(r)), r);
""")
seed('appr-spender-sub', 'P04', [(C + 'updates/icrc37.rs', "            if let Some(approval) = approval_map.get(&WrappedAccount::from(spender_account)) {", """            if let Some(approval) = approval_map
                .get(&WrappedAccount::from(spender_account))
                .or_else(|| approval_map.get(&WrappedAccount::from(Account::from(caller))))
            {""")],
 'a spender approved for its default account calls with a subaccount', 'an approval of one account lets another account of the spender move the token', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.must(ops.apt(1, 1, acc(3)));
const r = s.do(ops.xfrom(3, 1, acc(1), acc(2), { sub: L.sub(7) })); ok('refused', /Unauthorized/.test(J(r)), r);
""")
seed('isappr-coll-expiry', 'P05', [(C + 'queries/icrc37.rs', "                        expires_at > current_time\n", "                        expires_at >= current_time\n")],
 'asking exactly at the nanosecond a token approval expires', 'icrc37_is_approved says yes for an approval that can no longer be used', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); const t = s.w.time + 1_000_000_000n; s.must(ops.apt(1, 1, acc(3), { exp: t }));
s.w.time = t; want('approved', s.q('icrc37_is_approved', [{ spender: acc(3), from_subaccount: null, token_id: 1n }]), [false]);
""")
seed('block-from-sub', 'P06', [(C + 'updates/icrc37.rs', """            op: "37revoke_coll".to_string(),
            tid: None,
            from: Some(from_account.clone()),
            to: None,
            memo: arg.memo,
            created_at_time: created_at_time,
            spender: arg.spender.clone(),""", """            op: "37revoke_coll".to_string(),
            tid: None,
            from: Some(from_account.clone()),
            to: None,
            memo: None,
            created_at_time: created_at_time,
            spender: arg.spender.clone(),""")],
 'a collection revocation with a memo', 'the memo is missing from the block', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.must(ops.apc(1, acc(3))); s.must(ops.rvc(1, acc(3), { memo: Buffer.from('m') }));
want('memo', s.tx(2).memo, { Blob: Buffer.from('m') });
""")
seed('xfer-block-after', 'P06', [(C + 'updates/icrc7.rs', """            from: Some(nft.token_owner.clone()),
            to: Some(arg.to.clone()),
            meta: None,
            memo: arg.memo.clone(),""", """            from: Some(nft.token_owner.clone()),
            to: Some(arg.to.clone()),
            meta: None,
            memo: arg.memo.clone().filter(|memo| !memo.is_empty()),""")],
 'a transfer with an empty memo', 'the block has no memo although one was given', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.must(ops.xfer(1, 1, acc(2), { memo: Buffer.alloc(0) }));
want('memo', s.tx(1).memo, { Blob: Buffer.alloc(0) });
""")
seed('win-drift', 'P08', [(C + 'updates/icrc37.rs', """            .tx_window
            .clone()
            .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))""", """            .tx_window
            .clone()
            .map_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW), |window| {
                window + crate::types::icrc7::DEFAULT_PERMITTED_DRIFT
            })""")],
 'a collection revocation whose creation time lies between the window and the window plus the default drift in the past', 'a revocation that is too old is accepted', """
const s = ledger({ tx_window: 10_000_000_000n }); s.must(ops.mint(1, [acc(1)])); s.must(ops.apc(1, acc(3))); const r = s.do(ops.rvc(1, acc(3), { at: { now: -10_020_000_000n } }));
ok('too old', /TooOld/.test(J(r)), r);
""")
seed('rate-same-time', 'P12', [(C + 'guards.rs', """        call_history.push(current_time);""", """        if call_history.last() != Some(&current_time) {
            call_history.push(current_time);
        }""")],
 'more than five calls for one token in the same round (same ledger time)', 'the rate limit does not see calls executed at the same time', """
const s = ledger(); s.must(ops.mint(1, [acc(1)])); s.w.advance(1_000_000_000n);
const l = [1, 2, 1, 2, 1, 2].map((x, i) => i); const r = l.map(() => J(s.do({ ...ops.xfer(1, 1, acc(1)), dt: 0n })));
ok('the sixth call is refused for the rate', /Rate limit/.test(r[5]) && !/Rate limit/.test(r[4]), r);
""")
seed('perm-dup-grant', 'P13', [(C + 'types/permissions.rs', """            permissions.retain(|p| p != permission);""", """            if let Some(index) = permissions.iter().position(|p| p == permission) {
                permissions.remove(index);
            }""")],
 'a permission granted twice and then revoked', 'the permission is still held after its revocation', """
const s = ledger(); s.must(ops.grant(1, 2, 'Minting')); s.must(ops.grant(1, 2, 'Minting')); s.must(ops.revoke(1, 2, 'Minting'));
const r = s.do(ops.mint(2, [acc(2)])); ok('refused', r.ok === undefined, r);
""")
seed('guard-per-caller', 'P14', [(C + 'guards.rs', """            if s.principal_guards.len() >= MAX_CONCURRENT {""", """            if s.principal_guards.contains(&principal)
                || s.principal_guards.len() > MAX_CONCURRENT
            {""")],
 'two principals with permissions, the second calling while the first waits for a storage canister', 'a second management call is executed while one is under way', """
const s = ledger({ perms: [[P(1), L.ALLPERMS.map((x) => ({ [x]: null }))], [P(2), L.ALLPERMS.map((x) => ({ [x]: null }))]] });
s.w.start(CAN, P(1), 'init_upload', { file_path: 'a', file_hash: 'h', file_size: 1n, chunk_size: null });
const r = s.w.start(CAN, P(2), 'mint', { mint_requests: [] }); ok('refused', /Concurrent/.test(J(s.w.result(CAN, 'mint', r))), s.w.result(CAN, 'mint', r));
""")
seed('fin-early-redirect', 'P15', [(C + 'updates/management.rs', """    match canister.finalize_upload(data.clone()).await {
        Ok(_) => {}
        Err(e) => {""", """    match canister.finalize_upload(data.clone()).await {
        Ok(_) | Err(finalize_upload::FinalizeUploadError::UploadAlreadyFinalized) => {}
        Err(e) => {""")],
 'the storage canister answers finalize_upload with UploadAlreadyFinalized for an upload the collection considers open', 'an upload is taken as finalised although the step failed', """
const s = scripted(ledger(), (m) => m === 'create_canister' ? [{ canister_id: P(50) }] : m === 'install_code' ? [] : m === 'get_storage_size' ? [0n] : m === 'finalize_upload' ? [{ Err: { UploadAlreadyFinalized: null } }] : [{ Ok: {} }]);
s.raw(1, 'init_upload', { file_path: 'a', file_hash: 'h', file_size: 1n, chunk_size: null }); s.raw(1, 'store_chunk', { file_path: 'a', chunk_id: 0n, chunk_data: Buffer.from('x') });
const r = s.raw(1, 'finalize_upload', { file_path: 'a' }); want('answer', r.ok, { Err: { UploadAlreadyFinalized: null } }); want('status', s.qAs(1, 'get_upload_status', 'a').ok, { Ok: { InProgress: null } });
""")
seed('gc-stop', 'P23', [(C + 'jobs/upload_garbage_collector.rs', """                    info!("Failed to cancel upload for file {}: {:?}", file_path, err);""", """                    info!("Failed to cancel upload for file {}: {:?}", file_path, err);
                    return;"""), (C + 'jobs/upload_garbage_collector.rs', """    let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());""", """    let all_files: std::collections::BTreeMap<String, InternalFilestorageData> =
        read_state(|state| state.internal_filestorage.get_all_files().clone())
            .into_iter()
            .collect();""")],
 'two abandoned uploads, the cancellation of the first (by path) of which keeps failing', 'one upload that cannot be cancelled keeps the other from ever being cleaned up', """
const s = scripted(ledger(), (m, a) => m === 'create_canister' ? [{ canister_id: P(50) }] : m === 'install_code' ? [] : m === 'get_storage_size' ? [0n] : m === 'cancel_upload' && a.file_path === 'a' ? { reject: true } : [{ Ok: {} }]), w = s.w;
for (const p of ['a', 'b']) s.raw(1, 'init_upload', { file_path: p, file_hash: 'h', file_size: 1n, chunk_size: null });
const D = 86_400_000_000_000n; for (let k = 0; k < 4; k++) w.tick(D + 1n);
ok('the upload that can be cancelled is gone', !/"Ok"/.test(J(s.qAs(1, 'get_upload_status', 'b'))), s.qAs(1, 'get_upload_status', 'b'));
""")
