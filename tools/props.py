MIC = 'Every execution is one of the real canister code, built from the working tree; exhaustive over all sequences of the listed actions up to the depth of each scenario (reported in the evidence). Trusted: microIC (lib/mic.mjs) as a model of the Internet Computer, and the reference model (lib/ledger.mjs).'
p('P01', 'Every view of token ownership agrees', 'After any history of mints, burns, transfers and delegated transfers, each live token has exactly one owner, and the owner query, the balance of every account, the list of all tokens, the list of tokens per account and the total supply all describe the same assignment. An operation that was refused or failed half way shows in none of them.',
  ['histories', 'inputs'], 'all interleavings of mint, burn, transfer and delegated transfer over several accounts and subaccounts, including operations refused by the transaction log', 'The tests check one view after one transfer; no test compares the views after a longer history, or after a failed operation.',
  [C+'state.rs', C+'types/nft.rs', C+'updates/icrc7.rs', C+'updates/icrc37.rs', C+'updates/management.rs', C+'queries/icrc7.rs'],
  [('tokens_list and the per-account index are updated together', C+'types/nft.rs, '+C+'updates/icrc7.rs, '+C+'updates/management.rs'), ('supply counted from the live tokens', C+'queries/icrc7.rs')], MIC,
  [('tokens_list / tokens_list_by_owner', 'live tokens, and the tokens of each account', C+'state.rs')])
p('P02', 'Minting allocates fresh ids, within its limits, all or nothing', 'A mint is executed only for a principal with the minting permission and within the supply cap, the batch limit and the memo limit; it gives each requested token the next never-used id and answers the first of them. A mint that is refused, or that cannot be recorded completely, leaves no token, no supply and no block behind.',
  ['histories', 'inputs', 'configurations'], 'all histories of mints (valid and invalid batches), burns and failures, for several cap and batch limit settings', 'Tests mint valid batches and one over-limit batch from a fresh canister; burned ids, partial failure of the log and sequences near the cap are not reached.',
  [C+'updates/management.rs', C+'types/nft.rs', C+'state.rs', C+'guards.rs'],
  [('limits checked and blocks written before any token is inserted', C+'updates/management.rs mint'), ('next_token_id only grows', C+'state.rs')], MIC)
p('P03', 'Only the owner or an approved spender moves a token', 'A token changes hands or is burned only on a call by the principal that owns it, or by a spender holding a live approval for it or for the account it is in; any other attempt is refused. A refused attempt changes no owner, no balance and no approval.',
  ['histories', 'inputs'], 'every caller (owner, strangers, anonymous) tries every operation, on every token, in every state reached by up to n operations', 'Tests try a handful of (caller, operation) pairs from one fixed state.',
  [C+'updates/icrc7.rs', C+'updates/icrc37.rs', C+'updates/management.rs', C+'types/icrc37.rs', C+'types/nft.rs'],
  [('owner and recipient checks', C+'updates/icrc7.rs transfer_single'), ('spender check', C+'updates/icrc37.rs'), ('owner check on burn', C+'updates/management.rs burn_nft')], MIC)
p('P04', 'An approval gives its spender exactly the granted authority', 'A spender can move a token exactly while a live approval for that token, or for the whole account holding it, names him: from the moment it is granted until it expires, is revoked, or the token it was given for leaves the account or is burned. An approval of one account, subaccount or spender never lets anybody move the tokens of another.',
  ['histories', 'inputs'], 'all histories of grants, revocations, transfers, delegated transfers, burns and passing time over token and collection approvals and several subaccounts', 'Tests follow a few straight-line stories (approve, transfer_from); stale approvals after transfer, burn, expiry or subaccount mix-ups need specific sequences.',
  [C+'updates/icrc37.rs', C+'types/icrc37.rs', C+'updates/icrc7.rs', C+'updates/management.rs', C+'types/nft.rs'],
  [('approval tables consulted with expiry', C+'updates/icrc37.rs transfer_from_single, '+C+'types/icrc37.rs'), ('token approvals dropped when a token moves', C+'updates/icrc7.rs, '+C+'updates/icrc37.rs, '+C+'updates/management.rs')], MIC,
  [('token_approvals / collection_approvals', 'live approvals by token and by account', C+'types/icrc37.rs')])
p('P05', 'Approval queries report exactly the approvals in force', 'In every reachable state, the approval check query answers yes exactly when a delegated transfer by that spender would be authorised, and the approval listings contain exactly the approvals granted and not yet revoked, dropped or superseded, with the expiry, memo and subaccount they were given with. Queries answer (never trap) for unknown tokens, accounts and spenders.',
  ['histories', 'inputs'], 'all token × spender × subaccount questions in every state reached by histories of approval operations, transfers and burns', 'Tests ask one question per story; agreement between what is reported and what is enforced is not tested.',
  [C+'queries/icrc37.rs', C+'types/icrc37.rs'], [('is_approved and the listings read the tables used by transfer_from', C+'queries/icrc37.rs')], MIC)
p('P06', 'The transaction log is exactly the history', 'Every operation that succeeded has exactly one block, in execution order, with its kind, parties, token, memo, expiry and times; an operation that failed has none. The blocks are numbered without gaps, each carries the hash linking it to its predecessor, and a block once written never changes.',
  ['histories', 'inputs'], 'all histories of every operation kind, successful and failing, including bursts refused by the log itself', 'Tests look at the block of a single operation; that failures log nothing and that the chain is intact after arbitrary histories is not tested.',
  [C+'types/transaction.rs' if os.path.exists('/repo/'+C+'types/transaction.rs') else C+'utils.rs', C+'updates/icrc7.rs', C+'updates/icrc37.rs', C+'updates/management.rs', C+'queries/icrc3.rs', C+'state.rs'],
  [('each operation records its transaction before its effect', C+'updates/*.rs'), ('hash chain', 'the ICRC-3 library, driven from '+C+'state.rs')], MIC)
p('P07', 'A repeated transaction takes effect once; distinct ones all do', 'Within the deduplication window a call repeated with the same arguments and creation time has no second effect and no second block, even after an upgrade. Calls that differ in any argument, or that give no creation time, are never taken for duplicates.',
  ['histories', 'inputs', 'crash_points'], 'all histories of repeated and slightly different calls with passing time, before and after upgrades', 'Tests repeat one transfer; other operations, other fields and the window boundary are not covered.',
  [C+'updates/icrc7.rs', C+'updates/icrc37.rs', C+'state.rs', C+'lifecycle/init.rs'], [('transactions handed to the log with their creation time', C+'updates/icrc7.rs, '+C+'updates/icrc37.rs'), ('window configured at init', C+'state.rs')], MIC)
p('P08', 'Only creation times inside the permitted window are accepted', 'A call giving a creation time is executed only if that time is no further in the future than the permitted drift and no further in the past than the transaction window (plus, for plain transfers, the drift); otherwise it answers that it is too old or created in the future, and changes nothing. The configured values decide, including changed ones.',
  ['inputs', 'configurations', 'histories'], 'boundary creation times (±1 ns around every limit) for every operation under several window and drift settings', 'Tests use one far-past and one far-future value with the default configuration.',
  [C+'updates/icrc7.rs', C+'updates/icrc37.rs', C+'lifecycle/init.rs', C+'state.rs'], [('time checks', C+'updates/icrc7.rs, '+C+'updates/icrc37.rs')], MIC)
p('P09', 'A batch equals its items executed in order', 'A batch call answers one result per item, in order, and its results and effects are those of the items executed one after the other; one failing item does not disturb the others. The batch size limits are honoured and an empty batch answers an empty list.',
  ['inputs', 'histories', 'configurations'], 'all batches up to length 3 over pools of valid, invalid and conflicting items, for every batch operation, in several states and configurations', 'Tests send one valid and one mixed batch; interactions inside a batch (same token twice, approve then spend) are not tested.',
  [C+'updates/icrc7.rs', C+'updates/icrc37.rs'], [('per-item loop', C+'updates/icrc7.rs icrc7_transfer, '+C+'updates/icrc37.rs')], MIC)
p('P10', 'Paging through token lists enumerates each token once', 'Following the pages of the token list or of an account\'s token list, with any page size, yields every such token exactly once, in ascending order. Page sizes and query batches above the configured limits are refused, and the configured defaults apply when none is given.',
  ['inputs', 'histories', 'configurations'], 'all (cursor, page size) pairs in every state reached by mints, burns and transfers, for several limit settings', 'Tests page through one fixed list with one page size.',
  [C+'queries/icrc7.rs', C+'state.rs'], [('prev/take logic', C+'queries/icrc7.rs')], MIC)
p('P11', 'Paging through approvals, and the approval limits', 'Following the pages of a token\'s or account\'s approvals yields every approval exactly once, newest first. No token or account ever has more approvals than the configured maximum, and one call revokes at most the configured number.',
  ['inputs', 'histories', 'configurations'], 'all (cursor, page size) pairs in every state reached by grants, revocations and transfers, for several maxima', 'Tests page once with default limits; the maxima are hardly exercised.',
  [C+'queries/icrc37.rs', C+'types/icrc37.rs', C+'updates/icrc37.rs'], [('prev/take logic', C+'queries/icrc37.rs'), ('limits', C+'updates/icrc37.rs')], MIC)
p('P12', 'The per-token rate limit neither leaks nor sticks', 'Of the transfer and approval calls touching one token at most five are processed in any 60 ms; the next is refused without effect, other tokens are unaffected, and once the interval has passed calls are accepted again. Collection-wide approval calls share one such limit.',
  ['histories'], 'all sequences of calls on one and two tokens with all spacings from a small set around the limit', 'Tests send one burst; spacing patterns (sliding window) and interplay between operations are not covered.',
  [C+'utils.rs', C+'state.rs', C+'updates/icrc7.rs', C+'updates/icrc37.rs'], [('sliding window per token', C+'utils.rs check_rate_limit')], MIC)
p('P13', 'Management is done only by holders of the permission', 'Each management call (minting, metadata, settings, permissions, uploads, storage listing) is executed only for a principal that currently holds the permission it needs, and is refused without effect for everybody else, including the anonymous principal. Permissions change only by grants and revocations made by a principal allowed to manage them, and take effect at once.',
  ['histories', 'inputs'], 'all sequences of grants, revocations and management calls by holders, former holders and strangers, over every permission', 'Tests check a few (permission, method) pairs right after a grant.',
  [C+'guards.rs', C+'types/permissions.rs', C+'updates/management.rs', C+'queries/management.rs' if os.path.exists('/repo/'+C+'queries/management.rs') else C+'guards.rs'], [('caller guards', C+'guards.rs'), ('permission table', C+'types/permissions.rs')], MIC)
ASY = 'Every interleaving of the started calls, message deliveries and injected answers (reply, error, rejection) up to the bounds of each scenario is executed on the real canister code built from the working tree. Trusted: microIC (lib/mic.mjs) as a model of message passing on the Internet Computer, and the reference in the check.'
p('P14', 'Overlapping management calls exclude each other and release', 'While a management call waits for another canister, every other management call is refused as concurrent and has no effect; ledger calls and queries keep being served and see a consistent state. When the call ends, however it ends (answer, error, rejection or trap of any callee), management is possible again.',
  ['schedules', 'fault_sequences'], 'all interleavings of two or three management calls with every delivery order and every answer of the management and storage canisters', 'Tests run one call at a time against healthy canisters; no test interleaves or makes a callee fail.',
  [C+'guards.rs', C+'updates/management.rs', C+'types/management.rs', C+'types/sub_canister.rs'], [('guard taken before and dropped after each management call', C+'guards.rs GuardManagement')], ASY)
p('P15', 'Uploads follow their life cycle under any storage answers', 'An upload is begun once per path, receives chunks only after it was begun and before it is finalised or cancelled, and is served (redirected to) only once it was finalised; a cancelled one is gone and its path may be used again. Whatever the storage canister answers, a step that failed leaves the upload as it was, and at most one storage canister is created per need. The pages of the listing of uploads together contain each upload exactly once, also when an upgrade falls between them.',
  ['histories', 'fault_sequences', 'schedules'], 'all sequences of begin, store, finalise and cancel on colliding paths, with every answer (success, typed error, rejection, no cycles) of every call to the storage and management canisters', 'Tests upload one file on a healthy storage canister; failures of storage calls and wrong orders are mostly untested.',
  [C+'updates/management.rs', C+'types/management.rs', C+'types/sub_canister.rs', C+'types/http.rs', C+'state.rs'], [('upload state machine', C+'updates/management.rs init_upload, store_chunk, finalize_upload, cancel_upload'), ('storage canister allocation', C+'types/sub_canister.rs')], ASY,
  [('internal_filestorage', 'state and path of each upload', C+'types/management.rs'), ('sub_canister_manager', 'storage canisters created', C+'types/sub_canister.rs')])
p('P16', 'An uploaded file is served byte for byte, or not at all', 'For every way of cutting a file into chunks and every order of sending them, a file that was finalised is answered by the storage location the canister redirects to, with exactly its bytes. Missing, altered or surplus chunks make finalisation fail and nothing is served under that path; files survive upgrades.',
  ['inputs', 'histories', 'crash_points'], 'all sequences of chunk submissions (permuted, repeated, missing, wrong size, wrong hash) for small files on the real storage canister', 'Tests upload images with chunks in order.',
  [C+'updates/management.rs', C+'types/sub_canister.rs', C+'types/http.rs', 'wasm/storage_canister.wasm.gz'], [('chunk forwarding, hash and size', C+'updates/management.rs, '+C+'types/sub_canister.rs')], ASY)
p('P17', 'An upgrade at any point changes nothing observable', 'At any point of any history the canister can be upgraded, and afterwards every query answers what it answered before; later calls, deadlines (expiry, deduplication, time windows) and permissions behave as if no upgrade had happened. Numbers and values of any size survive.',
  ['crash_points', 'histories', 'inputs'], 'an upgrade inserted at every point of every history of up to n operations over all operation kinds and settings', 'Tests upgrade once after a short fixed history and compare a few fields.',
  [C+'lifecycle/pre_upgrade.rs' if os.path.exists('/repo/'+C+'lifecycle/pre_upgrade.rs') else C+'state.rs', C+'lifecycle/post_upgrade.rs' if os.path.exists('/repo/'+C+'lifecycle/post_upgrade.rs') else C+'state.rs', C+'state.rs', C+'types/value_custom.rs', C+'memory.rs' if os.path.exists('/repo/'+C+'memory.rs') else C+'state.rs'], [('state serialised to stable memory and back', C+'lifecycle, '+C+'state.rs'), ('value encodings', C+'types/value_custom.rs')], MIC)
p('P18', 'HTTP answers are right and verify against the certified state', 'A request for a finalised upload is redirected to the storage location of exactly that file, the built-in pages are served with current content, and a request for any other path is refused, never redirected. Every certified answer carries a certificate proof that leads to the root hash the canister has certified at that moment, after any history of uploads, cancellations and upgrades.',
  ['histories', 'inputs', 'crash_points'], 'all sequences of upload steps, failures, cancellation, clean-up and upgrade, with every path of interest requested in every state', 'Tests fetch one uploaded file; certification after upgrades and for the other pages is not verified.',
  [C+'queries/http_request.rs', C+'types/http.rs', C+'state.rs', C+'lifecycle/post_upgrade.rs' if os.path.exists('/repo/'+C+'lifecycle/post_upgrade.rs') else C+'state.rs'], [('response tree and certified data', C+'types/http.rs'), ('routing', C+'queries/http_request.rs')], ASY)
p('P19', 'Token metadata reads back exactly as last set', 'For every shape and size of value, the metadata of a live token is exactly what its mint or latest successful update set, also after upgrades; only a holder of the permission changes it, and each change is recorded with the previous and the new metadata. A change that fails leaves the metadata as it was; a burned or unknown token has none.',
  ['inputs', 'histories'], 'all values of a grammar up to nesting 3 with boundary numbers, in all histories of mints, updates, burns, transfers and upgrades', 'Tests use text values and one update.',
  [C+'types/metadata.rs', C+'types/value_custom.rs', C+'updates/management.rs', C+'types/nft.rs', C+'queries/icrc7.rs'], [('metadata store keyed by token', C+'types/metadata.rs'), ('value encoding', C+'types/value_custom.rs')], MIC)
p('P20', 'Collection settings read back, and are the ones enforced', 'Every setting reads back as it was installed or last updated, an update changes exactly the settings it names, and limits reported by queries are the limits enforced by calls. Settings never given report none and the documented default is enforced.',
  ['configurations', 'histories', 'inputs'], 'all single and pairwise settings at installation and in updates, followed by operations at the limit', 'Tests read each setting once after install with all settings given.',
  [C+'lifecycle/init.rs', C+'updates/management.rs', C+'queries/icrc7.rs', C+'state.rs'], [('settings copied one by one at init and update', C+'lifecycle/init.rs, '+C+'updates/management.rs, '+C+'state.rs')], MIC)
p('P21', 'Consent messages describe the call the user is asked to sign', 'For every supported call and every argument, the consent message names the operation, the tokens, the counterparties, and the time and subaccount constraints that are actually in the argument; two calls with different effect never share a message because a field was ignored. Malformed or unsupported requests are answered with an error, never a trap.',
  ['inputs'], 'all argument combinations (each optional field present or absent, several ids, accounts and subaccounts, batch lengths 0 to 3) of every supported call', 'Tests ask for the message of one call with one argument.',
  [C+'queries/icrc21.rs'], [('message builders', C+'queries/icrc21.rs')], MIC)
p('P22', 'Archived blocks stay readable, in order and unchanged', 'However many blocks have been moved to archive canisters, and wherever the movement was interrupted (refused creation, failed or delayed call), every block remains readable, from the ledger or from the archive the ledger points to, exactly once and with its original content. The reported log length and the answers to ranges across the boundary are right. The movement goes on: after a refused or failed call, or an upgrade, every block that is old enough is moved once the requests succeed again.',
  ['histories', 'fault_sequences', 'schedules'], 'all interleavings of logging, archiving rounds, failures of archive creation or append, and upgrades, with every range requested', 'No test of the repository fills the log far enough to archive.',
  [C+'queries/icrc3.rs', C+'state.rs', C+'types/icrc3.rs'], [('archiving job and block lookup', 'the ICRC-3 library, driven from '+C+'state.rs and '+C+'types/icrc3.rs')], ASY)
p('P23', 'Only abandoned uploads are collected, and all of them are', 'The periodic clean-up cancels exactly the uploads that were begun and not finalised within the allowed age; it never touches finalised files or recent uploads, and an upload whose cancellation failed is tried again. It does not disturb or get disturbed by user calls that run at the same time.',
  ['histories', 'schedules', 'fault_sequences'], 'all interleavings of uploads at different stages and ages, clean-up rounds, user calls and storage answers', 'No test waits for the clean-up.',
  [C+'jobs/upload_garbage_collector.rs', C+'types/management.rs', C+'updates/management.rs'], [('age check and cancellation', C+'jobs/upload_garbage_collector.rs')], ASY)
IDX = 'Every interleaving of index timer rounds, ledger replies (batches, errors, delays) and ledger growth up to the bounds of each scenario is executed on the real index canister (against a scripted ledger and, in one scenario, the real ledger and archive). Trusted: microIC and the reference in the check.'
p('P30', 'The index contains every ledger block exactly once', 'Whatever the timing of the periodic fetch and of the ledger\'s answers (late, overlapping, failing, truncated, redirected to archives), after the ledger has been answered successfully often enough every block is found under each account, kind and token it involves, and no block is found twice. A failed or partial fetch loses nothing.',
  ['schedules', 'fault_sequences', 'histories'], 'all interleavings of timer rounds, delayed and failing replies, and ledger growth', 'Tests wait for one quiet fetch round.',
  [I+'jobs.rs', I+'index.rs', I+'state.rs', I+'blocks.rs'], [('fetch job and last indexed block', I+'jobs.rs'), ('index tables', I+'index.rs')], IDX)
p('P31', 'Index queries return exactly the matching blocks, in order', 'A query answers exactly the blocks that match all its filters (account, block kind, token), in the requested order, and the pages of a filtered query together contain each matching block exactly once. Each block is answered with its original content, whether it comes from the cache, the ledger or an archive.',
  ['inputs', 'histories'], 'all combinations of up to three filters, both orders and all (start, length) pages over a ledger containing every block kind', 'Tests use one filter at a time and one page.',
  [I+'update/get_blocks.rs', I+'index.rs', I+'blocks.rs', I+'cache.rs', I+'wrapped_values.rs'], [('filter intersection, sorting, paging', I+'update/get_blocks.rs'), ('block cache', I+'cache.rs')], IDX)
p('P32', 'Upgrading the index at any point loses and repeats nothing', 'At any point, also while a fetch is waiting for the ledger, the index can be upgraded; afterwards every query answers what it answered before, and indexing goes on to contain every block exactly once.',
  ['crash_points', 'schedules', 'histories'], 'an upgrade at every point of every interleaving of fetch rounds and ledger growth', 'No test upgrades the index.',
  [I+'lifecycle', I+'state.rs', I+'index.rs', I+'jobs.rs'], [('stable structures and saved state', I+'lifecycle, '+I+'state.rs'), ('timers restarted after upgrade', I+'lifecycle')], IDX)
p('P33', 'The index finds what the ledger really logged', 'Whatever the history of the collection, the movement of its blocks to archives and the timing and failures of fetches and upgrades, an index set up over the collection (from the start or late) ends up finding every block of the log exactly once, with unchanged content, under the kind, the token and each account the logged operation names, and under nothing else.',
  ['histories', 'schedules', 'fault_sequences'], 'all histories of ledger operations of every kind, movements of blocks to archives, fetch rounds (also refused, or late), reads and upgrades of the index', 'The tests of the index run one short story of transfers and approvals; what it makes of the other kinds of blocks, of archived ones, and of blocks moved while it is fetching is never tested.',
  [I+'index.rs', I+'blocks.rs', I+'jobs.rs', I+'cache.rs', C+'updates', C+'queries/icrc3.rs', C+'types/transaction.rs' if os.path.exists('/repo/'+C+'types/transaction.rs') else C+'state.rs'], [('what a block is filed under', I+'index.rs'), ('following the archives named by the ledger', I+'blocks.rs'), ('what the ledger writes into a block', C+'updates/icrc7.rs, '+C+'updates/icrc37.rs, '+C+'updates/management.rs')], 'Every execution is one of the real ledger, the real archive it installs and the real index together, built from the working tree; exhaustive over all sequences of the listed actions and message deliveries up to the depth of each scenario. Trusted: microIC (lib/mic.mjs) and the reference ledger (lib/ledger.mjs), compared with the real log by content.')
p('P24', 'The published interface is what the canisters do', 'Every method in the published Candid interface exists in the mode it is published with, accepts every argument its published type allows, and answers only values of its published result type, whatever the state, the caller and the outcome (success, each typed error). The interface stays usable for clients written against it: methods, accepted arguments and possible answers are those they know, and the announced standards are there.',
  ['inputs', 'histories'], 'every method x values of its argument types (each alternative of every variant, each optional present and absent, empty and repeated vectors, boundary numbers) x callers x prepared states, and all pairs of calls', 'Tests decode with the Rust types of the crate itself, so a wrong published type is never noticed; the interface text is not tested at all.',
  [C+'lib.rs', C+'types/management.rs', C+'updates/management.rs', C+'queries', I+'lib.rs'], [('interface generated from the types named in lib.rs', C+'lib.rs export_candid, '+I+'lib.rs'), ('argument and result types', C+'types')], 'Every call is a message to the real canister; the type of each answer is read off the wire and compared by a strict subtype check (lib/candid.mjs) with the interface embedded in the canister and with the pinned one (lib/published). Depth of values and sequences as in the evidence.')
p('P25', 'Storage and archive canisters are kept funded', 'Every canister the collection created (to store files or to archive blocks, also one whose installation failed) is created with more than 1T cycles, and within a minute of its free balance being at or below 1T it is given 2T, provided that the management canister answers and the collection\'s own balance stays above 1T. A refused check or deposit is made up for in the next minute. Cycles are given to nobody else, not to canisters that have enough, and never so many that the collection itself is left at or below 1T. The same holds after any upgrade, also while an upload waits.',
  ['histories', 'fault_sequences', 'schedules', 'crash_points'], 'all histories of uploads, archiving, balances running low, minutes passing, refused checks and deposits, failed installations and upgrades', 'Nothing in the tests looks at cycles: they run on a replica that gives canisters all they need.',
  [C+'types/sub_canister.rs', C+'types/fund_manager.rs' if os.path.exists('/repo/'+C+'types/fund_manager.rs') else C+'types/sub_canister.rs', C+'lifecycle/post_upgrade.rs', C+'updates/management.rs'], [('canisters created and handed to the fund manager', C+'types/sub_canister.rs'), ('funding resumed after an upgrade', C+'lifecycle/post_upgrade.rs')], 'Every execution is one of the real canister wasm with the real storage and archive canisters it installs; cycles, deposits and status checks are accounted for by microIC. Balances are set from a few values around the two levels.')
p('P26', 'A canister running the released version can be upgraded to this one', 'Upgrading a collection or an index that runs the released version (the wasm shipped in src/*/wasm) to this version succeeds at any point of its life and carries over everything it holds: tokens, owners, metadata, approvals, the transaction log, permissions and settings, uploads at any stage and finished files, and what was indexed. Every query answers right after the upgrade what it answered right before it, and later calls find the tokens, approvals, log, uploads and indexed blocks as they were. (Queries whose meaning was corrected since are judged by what they now mean; blocks holding an Int are a known finding.)',
  ['histories', 'crash_points'], 'all histories of calls to the released version up to a depth, followed by the upgrade and by further calls to this version', 'The tests upgrade this version to itself at most: a change of how data is stored passes them, and loses the data of every canister in use.',
  [C+'memory.rs', C+'lifecycle/post_upgrade.rs', C+'state.rs', C+'types/nft.rs', C+'types/wrapped_types.rs', C+'types/value_custom.rs', 'src/index_icrc7/src/memory.rs', 'src/index_icrc7/src/index.rs', 'src/index_icrc7/src/wrapped_values.rs'], [('stable memory layout', C+'memory.rs, src/index_icrc7/src/memory.rs'), ('state decoded after an upgrade', C+'lifecycle/post_upgrade.rs, '+C+'state.rs')], MIC.replace('Every execution is one of the real canister code, built from the working tree', 'Every execution begins on the released wasm (a copy in lib/published) and goes on, after the upgrade, on the wasm built from the working tree'))
T = 'cmdline/src/'
TOOLN = 'Every execution is one of the real command-line tool (native binary) speaking HTTP to a replica stand-in that runs the real canister wasm: real CBOR envelopes, certificates and signatures. Exhaustive over the listed command lines, inputs and disturbed calls. Trusted: microIC, the replica stand-in (lib/replica.mjs) and the reference in the check.'
p('P40', 'A file the tool reports as uploaded is served with exactly its bytes', 'When the command-line tool reports success for an upload, the file it was given is served, byte for byte, at the destination and at the address it prints; when anything went wrong (an unreadable file, a refused, lost, rejected or failed call, somebody else interfering) it reports failure and never success. It sends nothing when it was given nothing valid to send.',
  ['inputs', 'fault_sequences', 'schedules'], 'all files of a set x all chunk sizes around the file and chunk limits x destinations; each call of an upload disturbed in each way; other users acting before each call; runs after one another', 'The tool has no tests.',
  [T+'calls/uploads.rs', T+'commands.rs', T+'utils.rs', T+'main.rs'], [('file cut into chunks and sent one by one', T+'calls/uploads.rs'), ('commands', T+'commands.rs')], TOOLN)
p('P41', 'The tool mints, grants and reports exactly what it was asked', 'For every command line, the tool asks the collection for exactly the mint or the permission change given there (owner, subaccount, memo, each metadata entry with its kind; principal and permission), or, when the command line makes no sense, fails and asks for nothing. It reports success and prints the token, permission or list only if that is what the collection answered.',
  ['inputs', 'histories', 'fault_sequences'], 'all combinations of owners, subaccounts, memos, metadata entries, permission names and malformed arguments; histories of grants, revocations and mints; each call disturbed in each way', 'The tool has no tests.',
  [T+'calls/mint.rs', T+'calls/permissions.rs', T+'commands.rs', T+'utils.rs', T+'prompts.rs'], [('arguments parsed', T+'commands.rs, '+T+'utils.rs'), ('calls', T+'calls')], TOOLN)
p('P42', 'Metadata documents are written as described and judged correctly', 'A metadata document written by the tool contains exactly the name, description, links and attributes it was given (from flags or answers to its questions), and is valid; when an attribute cannot be understood it says so and writes nothing. A document is accepted as valid exactly if it is one.',
  ['inputs'], 'all combinations of fields, attribute values and kinds given by flags and by answers; all documents of a grammar of field kinds', 'The tool has no tests.',
  [T+'metadata.rs', T+'commands.rs', T+'prompts.rs'], [('document built and validated', T+'metadata.rs'), ('attributes parsed', T+'commands.rs')], 'Every execution is one of the real command-line tool (native binary). Exhaustive over the listed command lines, answers and documents.')
NA = {}
TECH = {'': 'explicit-state model checking: exhaustive bounded exploration of call sequences on the real canister wasm, in lockstep with a reference model'}
for k in ['P14', 'P15', 'P16', 'P18', 'P22', 'P23', 'P25', 'P30', 'P32', 'P33']: TECH[k] = 'explicit-state model checking: exhaustive exploration of call sequences, message interleavings and injected answers on the real canister wasm'
for k in ['P40', 'P41', 'P42']: TECH[k] = 'explicit-state model checking: exhaustive bounded exploration of command lines, inputs, call sequences and injected faults on the real tool and canister code, in lockstep with a reference model'
