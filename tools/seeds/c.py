T = 'cmdline/src/'; C = 'core_nft/src/'
seed('tool-fin-again', 'P40', [(T + 'calls/uploads.rs', """    let url = candid::decode_one::<finalize_upload::Response>(&response)?
        .map_err(|e| anyhow::anyhow!("Finalize upload failed: {:?}", e))?;

    Ok(Url::parse(&url.url)?)
""", """    let destination = args.file_path.trim_start_matches('/');
    match candid::decode_one::<finalize_upload::Response>(&response)? {
        Ok(url) => Ok(Url::parse(&url.url)?),
        Err(core_nft::types::management::finalize_upload::FinalizeUploadError::UploadAlreadyFinalized) => {
            Ok(Url::parse(&format!("https://{}.raw.icp0.io/{}", canister_id, destination))?)
        }
        Err(e) => Err(anyhow::anyhow!("Finalize upload failed: {:?}", e)),
    }
""")],
 'somebody else replaces and finalises the upload just before the tool does', 'the tool reports success for a file that is not the one served',
 """
const s = collection(); const other = (m, a) => { s.w.advance(200_000_000n); const r = s.w.call(CAN, P(1), m, a); if (!r.ok || r.ok.Err) throw new Error('setup ' + m + J(r)); };
const mine = Buffer.from('mine'), theirs = Buffer.from('theirs'), hash = (b) => sha256(b).toString('hex');
const r = tool(s, ['upload-file', 'f.bin', 'a'], { files: { 'f.bin': mine }, before: (q) => { if (q.method !== 'finalize_upload') return; other('cancel_upload', { file_path: 'a' }); other('init_upload', { file_path: 'a', file_hash: hash(theirs), file_size: 6n, chunk_size: null }); other('store_chunk', { file_path: 'a', chunk_id: 0n, chunk_data: theirs }); other('finalize_upload', { file_path: 'a' }); } });
const f = fetch(s, CAN, '/a'); ok('theirs is served', J(f).length > 0); ok('the tool does not report success', !r.ok, r.out);
""")
seed('tool-revoke-err', 'P41', [(T + 'calls/permissions.rs', """    candid::decode_one::<revoke_permission::Response>(&response)?
        .map_err(|e| anyhow!("Revoke permission failed: {:?}", e))?;
    Ok(())""", """    match candid::decode_one::<revoke_permission::Response>(&response)? {
        Err(revoke_permission::RevokePermissionError::DefaultError(e)) => {
            Err(anyhow!("Revoke permission failed: {:?}", e))
        }
        _ => Ok(()),
    }""")],
 'a revocation while another management call is under way', 'the tool reports a revocation that was refused',
 """
const s = collection();
const r = tool(s, ['permissions', 'revoke', '--principal', P(1), '--permission', 'minting'], { before: (q) => { s.w.env = null; s.w.advance(200_000_000n); s.w.start(CAN, P(1), 'init_upload', { file_path: 'a', file_hash: 'h', file_size: 3n, chunk_size: null }); } });
want('still allowed', s.qAs(1, 'has_permission', { principal: P(1), permission: { Minting: null } }).ok, { Ok: true }); ok('the tool does not report success', !r.ok, r.out);
""")
seed('tool-memo-empty', 'P41', [(T + 'calls/mint.rs', """            memo: memo.map(|m| serde_bytes::ByteBuf::from(m.as_bytes())),""", """            memo: memo
                .filter(|m| m.is_ascii())
                .map(|m| serde_bytes::ByteBuf::from(m.as_bytes())),""")],
 'a mint with a memo outside ASCII', 'the memo given on the command line is not recorded',
 """
const s = collection(); const r = tool(s, ['mint', '--owner', P(5), '--name', 'n', '--memo', '\u00e9']); ok('minted', r.ok, r.r.err);
ok('memo in the block', J(s.blocks()).includes(Buffer.from('\u00e9').toString('hex')) || J(s.tx(0)).includes('c3a9'), s.tx(0));
""")
seed('tool-kind-null', 'P42', [(T + 'metadata.rs', """            if let Some(display_type) = attr_obj.get("display_type") {
                if !display_type.is_string() {""", """            if let Some(display_type) = attr_obj.get("display_type") {
                if !display_type.is_string() && !display_type.is_null() {""")],
 'a document with an attribute whose display_type is null', 'an invalid document is accepted',
 """
const s = collection(); const go = (d) => tool(s, ['validate-metadata', 'd.json'], { files: { 'd.json': Buffer.from(d) } }).ok;
ok('valid document', go('{"attributes":[{"trait_type":"t","value":1}]}')); ok('null display type', !go('{"attributes":[{"trait_type":"t","value":1,"display_type":null}]}'));
""")
seed('tool-same-trait', 'P42', [(T + 'metadata.rs', """    if !attributes.is_empty() {
        let attrs: Vec<Value> = attributes
            .into_iter()
            .map(|""", """    if !attributes.is_empty() {
        let mut seen = std::collections::HashSet::new();
        let attrs: Vec<Value> = attributes.into_iter().filter(|a| seen.insert(a.0.clone()))
            .map(|""")],
 'two attributes of the same trait type, one after the other', 'one of the attributes is not written',
 """
const s = collection(); const r = tool(s, ['create-metadata', '--output', 'o.json', '--name', 'n', '--description', 'd', '--attribute', 'a:x', '--attribute', 'a:y']); ok('created', r.ok, r.r.err);
want('attributes', JSON.parse(r.file('o.json')).attributes.map((a) => a.value), ['x', 'y']);
""")
seed('iface-notfound', 'P24', [(C + 'types/management.rs', """    pub enum GetUploadStatusError {
        UploadNotFound,""", """    pub enum GetUploadStatusError {
        #[serde(rename = "NotFound")] UploadNotFound,""")],
 'a client asking for the status of an unknown upload', 'the answer has an alternative no client knows',
 """
import { parseDid, encode, decode } from './candid.mjs';
const s = ledger(); const d = parseDid('type R = variant { Ok : variant { Init; InProgress; Finalized }; Err : variant { UploadNotFound; StorageCanisterError : text } }; service : { f : (text) -> (R) query }');
const r = s.c.run(() => s.c.ex['canister_query get_upload_status'](), { arg: encode(d, d.methods.f.args, ['nope']), caller: principalBytes(P(1)), query: true });
want('status', decode(d, d.methods.f.rets, r.out.reply)[0], { Err: { UploadNotFound: null } });
""")
