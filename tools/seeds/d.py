C = 'core_nft/src/'; X = 'index_icrc7/src/'
seed('fund-low', 'P25', [(C + 'types/sub_canister.rs', """                    .with_min_cycles(1_000_000_000_000)
""", """                    .with_min_cycles(1_000_000_000)
""")],
 'a storage canister that runs low without being quite out of cycles, and no upgrade since it was created', 'a storage canister low on cycles is not given any',
 """
const s = funded(ledger()); const r = s.raw(1, 'init_upload', { file_path: 'a', file_hash: 'h', file_size: 3n, chunk_size: null }); want('upload', r.ok, { Ok: {} });
for (const k of s.bal.keys()) s.bal.set(k, 900_000_000_000n); s.w.tick(60_000_000_000n); want('given', s.gifts.map(String), ['2000000000000']);
""")
seed('fund-slow', 'P25', [(C + 'types/fund_manager.rs', """        .with_interval_secs(60)
""", """        .with_interval_secs(60 * 60)
""")],
 'an upgrade, and a storage canister that runs low some minutes after it', 'a storage canister low on cycles is not given any for most of an hour',
 """
const s = funded(ledger()); const r = s.raw(1, 'init_upload', { file_path: 'a', file_hash: 'h', file_size: 3n, chunk_size: null }); want('upload', r.ok, { Ok: {} });
s.up(); s.w.tick(0n); s.w.tick(1_000_000_000n);
for (const k of s.bal.keys()) s.bal.set(k, 900_000_000_000n); s.w.tick(60_000_000_000n); want('given', s.gifts.map(String), ['2000000000000']);
""")
seed('fund-none', 'P25', [(C + 'types/fund_manager.rs', """    for canister_id in canister_id_lst {
        fund_manager.register(""", """    if let Some(&canister_id) = canister_id_lst.first() {
        fund_manager.register(""")],
 'two storage canisters, and an upgrade', 'after an upgrade only one of the storage canisters is given cycles',
 """
const s = funded(ledger()), up = (p) => s.raw(1, 'init_upload', { file_path: p, file_hash: 'h', file_size: 3n, chunk_size: null }); want('upload', up('a').ok, { Ok: {} });
const env = s.w.env, first = [...s.bal.keys()][0], real = s.w.deliver.bind(s.w); s.w.deliver = (i, x) => { const m = s.w.pending[i]; return real(i, m.kind === 'req' && m.callee === first ? { reject: [2, 'full'] } : x); };
want('second upload', up('b').ok, { Ok: {} }); s.w.deliver = real; want('canisters', s.bal.size, 2);
s.up(); s.w.tick(0n); s.w.tick(1_000_000_000n);
for (const k of s.bal.keys()) s.bal.set(k, 900_000_000_000n); s.w.tick(60_000_000_000n); want('given', s.gifts.map(String), ['2000000000000', '2000000000000']);
""")
seed('comp-straddle', 'P33', [(X + 'blocks.rs', """        for archive in blocks.archived_blocks {
            let archive_blocks""", """        let only_archived = blocks.blocks.is_empty();
        for archive in blocks.archived_blocks.into_iter().filter(|_| only_archived) {
            let archive_blocks""")],
 'a range of blocks, some of which are archived and some not, none of them in the cache', 'the archived blocks of the range are missing from the answer',
 """
const b = [blk('7mint', { t: 1, o: 1 }), blk('7mint', { t: 2, o: 1 }), blk('7xfer', { t: 1, f: 1, o: 2 }), blk('7xfer', { t: 1, f: 2, o: 3 })];
const s = index([]); s.blocks = b; s.arch = 2; want('all blocks', s.get([], { length: 4 }).ok.blocks.map((b) => Number(b.id)), [0, 1, 2, 3]);
""")

REL = """
const s = ledger({}, 'released'), meta = [['a', { Text: 'x' }], ['b', { Blob: Buffer.from([0, 255]) }]]; s.must(ops.mint(1, [acc(1)], { meta }));
const read = () => J(s.q('icrc7_token_metadata', [1n])); const before = read(); s.up(); want('metadata', read(), before);
"""
seed('rel-memory', 'P26', [(C + 'memory.rs', 'pub const METADATA: MemoryId = MemoryId::new(3);', 'pub const METADATA: MemoryId = MemoryId::new(4);')],
 'an upgrade from the version released before (not from this one to itself)', 'the metadata of all tokens is lost by the upgrade', REL)
seed('rel-tags', 'P26', [(C + 'types/value_custom.rs', """                e.array(2)?.u8(0)?.bytes(b)?;
            }
            Value::Text(t) => {
                e.array(2)?.u8(1)?.str(t)?;""", """                e.array(2)?.u8(1)?.bytes(b)?;
            }
            Value::Text(t) => {
                e.array(2)?.u8(0)?.str(t)?;"""), (C + 'types/value_custom.rs', """            0 => {
                let bytes = d.bytes()?.to_vec();
                Value::Blob(bytes.into())
            }
            1 => {""", """            1 => {
                let bytes = d.bytes()?.to_vec();
                Value::Blob(bytes.into())
            }
            0 => {""")],
 'an upgrade from the version released before, and a token with metadata', 'the metadata stored by the released version cannot be read any more', REL)

seed('rel-deadline', 'P26', [(C + 'types/icrc37.rs', """    #[n(2)]
    pub expires_at: Option<TimestampNanos>,
    #[n(3)]
    pub created_at""", """    #[n(3)]
    pub expires_at: Option<TimestampNanos>,
    #[n(2)]
    pub created_at""")],
 'an upgrade from the version released before, and an approval that expires', 'deadlines and creation times of approvals are exchanged by the upgrade: approvals in force end', """
const s = ledger({}, 'released'); s.must(ops.mint(1, [acc(1)])); s.must(ops.apt(1, 1, acc(3), { exp: L.T0 + 10n ** 13n, at: L.T0 })); s.up();
const a = s.q('icrc37_get_token_approvals', 1n, null, null); want('deadline', a && a.map((x) => x.approval_info.expires_at), [L.T0 + 10n ** 13n]);
""")
seed('rel-index', 'P26', [(X + 'index.rs', """    #[n(0)]
    Account(""", """    #[n(1)]
    Account("""), (X + 'index.rs', """    #[n(1)]
    BlockType(""", """    #[n(0)]
    BlockType(""")],
 'an index that indexed blocks under the version released before', 'after the upgrade blocks are not found any more by account or by kind', """
const s = index([blk('7mint', { t: 1, o: 1 }), blk('7xfer', { t: 1, f: 1, o: 2 })], 'released'); s.round(3); s.up(); s.round(2);
want('blocks of P2', s.ids([kA(2)]), [1]); want('mints', s.ids([kB('7mint')]), [0]);
""")
