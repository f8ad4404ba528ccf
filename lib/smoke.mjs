import fs from 'fs'; import { World, compile, principalText } from './mic.mjs';
const code = compile(fs.readFileSync('/repo/target/wasm32-unknown-unknown/release/core_nft.wasm'));
const P = (i) => principalText(Buffer.from([i, 1]));
const w = new World(); w.time = 1_700_000_000_000_000_000n;
const c = w.add(P(100), code);
let t=performance.now();
const all=['Minting','ManageAuthorities','UpdateMetadata','UpdateCollectionMetadata','ReadUploads','UpdateUploads'].map(x=>({[x]:null}));
const init={ test_mode:false, version:{major:0,minor:0,patch:1}, commit_hash:'c', permissions:{user_permissions:[[P(1),all]]}, symbol:'S', name:'N', collection_metadata:[], approval_init:{max_approvals_per_token_or_collection:null,max_revoke_approvals:null}};
console.log(w.init(c,[{Init:init}],P(1)), performance.now()-t);
console.log('mem', c.ex.memory.buffer.byteLength, 'stable', c.stablePages, c.stable.size, 'timer', c.timer-w.time, w.pending.length);
w.tick(0); 
const acc=(i,s)=>({owner:P(i),subaccount:s??null});
console.log(w.call(P(100),P(1),'mint',{mint_requests:[{metadata:[['a',{Text:'x'}]],memo:null,token_owner:acc(1)}]}));
t=performance.now();
console.log(w.call(P(100),P(1),'icrc7_transfer',[{to:acc(2),token_id:1n,memo:null,from_subaccount:null,created_at_time:null}])?.ok?.[0]);
console.log(performance.now()-t,w.queries(P(100),P(2),[['icrc7_owner_of',[1n]],['icrc7_balance_of',[acc(1),acc(2)]],['icrc3_get_blocks',[{start:0n,length:100n}]]]).map(x=>JSON.stringify(x,(k,v)=>typeof v==='bigint'?v+'n':v)));
for (let k=0;k<3;k++){ t=performance.now(); const s=w.snap(); const t1=performance.now(); const N=1500; let last;
for(let i=0;i<N;i++){ w.restore(s); w.call(P(100),P(2),'icrc7_transfer',[{to:acc(1),token_id:1n,memo:null,from_subaccount:null,created_at_time:null}]); last=w.queries(P(100),P(2),[['icrc7_owner_of',[1n]],['icrc7_balance_of',[acc(1),acc(2)]],['icrc3_get_blocks',[{start:0n,length:100n}]]]); }
console.log('per step ms',(performance.now()-t1)/N,'snap',t1-t, 'mem', c.ex.memory.buffer.byteLength); }
t=performance.now(); console.log(w.upgrade(c,[{Upgrade:{version:{major:0,minor:0,patch:2},commit_hash:'d'}}],P(1)), performance.now()-t);
console.log(w.queries(P(100),P(2),[['icrc7_owner_of',[1n]]]));
t=performance.now(); c.fresh(); console.log('fresh',performance.now()-t);
