From 34e9615fd4f6cdd0cbc29308839670290af28ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 01/46] fix: do not swap permitted_drift and
 max_canister_storage_threshold at init

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..6bdf194 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -84,8 +84,8 @@ fn init(args: Args) {
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
                 init_args.tx_window.clone(),
-                init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
+                init_args.permitted_drift,
                 init_args.approval_init.clone(),
             );
 
-- 
2.43.0


From 73c6a7fcf15bdb5f01d960d8f979e47bca08f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 02/46] fix: a burned token no longer counts in its last
 owner's balance

---
 src/core_nft/src/updates/management.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..80120c0 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -365,6 +365,9 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(tokens) = state.data.tokens_list_by_owner.get_mut(&token.token_owner) {
+            tokens.retain(|id| *id != token_id);
+        }
     });
 
     Ok(())
-- 
2.43.0


From f561515c21fb1f8f171266d315d03f397940a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 03/46] fix: burning a token drops its token approvals

---
 src/core_nft/src/updates/management.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 80120c0..0f7b5b6 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,6 +7,8 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::__TOKEN_APPROVALS;
 use crate::types::{icrc7, management, nft};
 use crate::utils::{check_memo, trace};
 
@@ -370,6 +372,10 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
         }
     });
 
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id));
+    });
+
     Ok(())
 }
 
-- 
2.43.0


From bcbd0cdf31aa3d389b4dc80127529eecd51dd4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 04/46] fix: icrc7_transfer drops the token approvals of the
 previous owner

---
 src/core_nft/src/updates/icrc7.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..f25345c 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -2,7 +2,7 @@ use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
-    types::icrc7,
+    types::{icrc7, WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
 use candid::{Nat, Principal};
@@ -99,6 +99,10 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            // Approvals were granted by the previous owner: they do not follow the token.
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
-- 
2.43.0


From a748083ae97faf42837efb670ee23d12feed4e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 05/46] fix: transfer_from keeps the collection approvals of an
 owner who still has NFTs

---
 src/core_nft/src/updates/icrc37.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..0c2658c 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -835,10 +835,12 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
+    let has_nfts = read_state(|state| {
+        state
+            .data
+            .tokens_list
+            .iter()
+            .any(|(_, token)| token.token_owner.owner == arg.from.owner)
     });
 
     if !has_nfts {
-- 
2.43.0


From f945450953fb03b9fa5822339a36189679a6b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 06/46] fix: icrc37_revoke_collection_approvals honours
 from_subaccount

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 0c2658c..b3ac87e 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -583,7 +583,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From 8863473896657f013b31c1356ae0f83d6501c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 07/46] fix: approval listings report the subaccount the
 approval was given from

---
 src/core_nft/src/queries/icrc37.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..f87d7b3 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -30,11 +30,11 @@ fn icrc37_get_token_approvals(
             .0
             .iter()
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -94,10 +94,10 @@ fn icrc37_get_collection_approvals(
             .unwrap_or(HashMap::new())
             .iter()
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
-- 
2.43.0


From be6d45252daad527d5b6aa7cef282a4d6c7e8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 08/46] fix: icrc37_revoke_token_approvals answers an empty
 batch instead of trapping

---
 src/core_nft/src/updates/icrc37.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index b3ac87e..093c6ff 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -382,6 +382,10 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
+    if args.is_empty() {
+        return Ok(vec![]);
+    }
+
     match guard_sliding_window(args[0].token_id.clone()) {
         Err(e) => {
             return icrc37_revoke_token_approvals::Response::Err(
-- 
2.43.0


From 8624ec5defe85280cd6bef2957959235c6885953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 09/46] fix: revoking an approval that does not exist is an
 error and is not logged

---
 src/core_nft/src/updates/icrc37.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 093c6ff..5713dba 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -476,7 +476,16 @@ fn revoke_token_approvals(
     let mut approval_map = token_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeTokenApprovalResponse::Err(
+                RevokeTokenApprovalError::ApprovalDoesNotExist,
+            );
+        }
+    } else if approval_map.is_empty() {
+        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::ApprovalDoesNotExist);
     } else {
         approval_map.clear();
     };
@@ -603,7 +612,18 @@ fn revoke_collection_approvals(
     let mut approval_map = collection_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeCollectionApprovalResult::Err(
+                RevokeCollectionApprovalError::ApprovalDoesNotExist,
+            );
+        }
+    } else if approval_map.is_empty() {
+        return RevokeCollectionApprovalResult::Err(
+            RevokeCollectionApprovalError::ApprovalDoesNotExist,
+        );
     } else {
         approval_map.clear();
     }
-- 
2.43.0


From 4915cfce26228c0251bdd3473883796fa42fef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 10/46] fix: icrc37_is_approved reports what
 icrc37_transfer_from would allow

---
 src/core_nft/src/queries/icrc37.rs | 49 +++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index f87d7b3..62c550c 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -143,11 +143,6 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
         for arg in args {
             let spender_account = arg.spender.clone();
-            let from_account = Account {
-                owner: arg.spender.owner,
-                subaccount: arg.from_subaccount,
-            };
-
             let current_time = ic_cdk::api::time();
 
             let has_token_approval = if let Some(token_approvals) = __TOKEN_APPROVALS
@@ -178,29 +173,47 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             trace(&format!("has_token_approval: {:?}", has_token_approval));
 
-            let has_collection_approval = __COLLECTION_APPROVALS
-                .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
+            // The approval has to come from the account that holds the token.
+            let owner = state.data.owner_of(&arg.token_id);
+            let is_held_by_from_account = owner.is_some_and(|owner| {
+                owner
+                    == Account {
+                        owner: owner.owner,
+                        subaccount: arg.from_subaccount,
+                    }
+            });
+
+            let has_collection_approval = owner
+                .and_then(|owner| {
+                    __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
+                        collection_approvals.get(&WrappedAccount::from(owner))
+                    })
                 })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
-                });
+                .and_then(|approval_map| {
+                    approval_map
+                        .0
+                        .get(&WrappedAccount::from(spender_account))
+                        .map(|approval| {
+                            approval
+                                .expires_at
+                                .map_or(true, |expires_at| expires_at > current_time)
+                        })
+                })
+                .unwrap_or(false);
 
             trace(&format!(
                 "has_collection_approval: {:?}",
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
-            let is_owner = owner == Some(from_account);
+            let is_owner = owner == Some(spender_account);
 
             trace(&format!("is_owner: {:?}", is_owner));
 
-            response.push(is_owner || has_token_approval || has_collection_approval);
+            response.push(
+                is_held_by_from_account
+                    && (is_owner || has_token_approval || has_collection_approval),
+            );
         }
 
         response
-- 
2.43.0


From 979e4057cd22f1968f60ad279117260913fbec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 11/46] fix: a mint batch that cannot be logged completely
 leaves nothing behind

---
 src/core_nft/src/updates/management.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 0f7b5b6..34f3ae4 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -172,9 +172,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -194,10 +192,14 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (i, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
+                // A mint is all or nothing: trapping rolls back the blocks already logged.
+                if i > 0 {
+                    ic_cdk::trap(&format!("Failed to log mint transaction: {}", e));
+                }
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
@@ -205,6 +207,10 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         }
     }
 
+    for ((_, new_token, _), mint_request) in new_tokens.iter_mut().zip(req.mint_requests.iter()) {
+        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+    }
+
     mutate_state(|state| {
         let new_last_token_id =
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
-- 
2.43.0


From b24ccc7280ee593955077635f132ae3fee3fc77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 12/46] fix: update_nft_metadata keeps the old metadata when
 the change cannot be logged

---
 src/core_nft/src/updates/management.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 34f3ae4..bafbf44 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -260,6 +260,8 @@ pub fn update_nft_metadata(
             let new_metadata =
                 __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
 
+            let metadata_to_restore = previous_metadata.clone().unwrap_or_default();
+
             let mut metadata_map = BTreeMap::new();
 
             metadata_map.insert(
@@ -306,6 +308,9 @@ pub fn update_nft_metadata(
             match icrc3_add_transaction(transaction) {
                 Ok(_) => {}
                 Err(e) => {
+                    __METADATA.with_borrow_mut(|m| {
+                        m.replace_all_data(Some(token_name_hash.clone()), metadata_to_restore)
+                    });
                     return Err(management::update_nft_metadata::UpdateNftMetadataError::StorageCanisterError(
                         e.to_string(),
                     ));
-- 
2.43.0


From c92e4692dabd03a3b0f4b408c891ee4760b9ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 13/46] fix: ICRC-37 calls without created_at_time are not
 deduplicated

---
 src/core_nft/src/updates/icrc37.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 5713dba..e1fd726 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -490,7 +490,8 @@ fn revoke_token_approvals(
         approval_map.clear();
     };
 
-    let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
+    // Without a creation time nothing is a duplicate: the log gets the ledger time, as for icrc7_transfer.
+    let created_at_time = Some(Nat::from(arg.created_at_time.unwrap_or(current_time)));
 
     let transaction = ICRC37Transaction::new(
         "37revoke".to_string(),
@@ -628,7 +629,8 @@ fn revoke_collection_approvals(
         approval_map.clear();
     }
 
-    let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
+    // Without a creation time nothing is a duplicate: the log gets the ledger time, as for icrc7_transfer.
+    let created_at_time = Some(Nat::from(arg.created_at_time.unwrap_or(current_time)));
 
     let transaction = ICRC37Transaction::new(
         "37revoke_coll".to_string(),
@@ -806,7 +808,8 @@ fn transfer_from(
             from: Some(arg.from.clone()),
             to: Some(arg.to.clone()),
             memo: arg.memo,
-            created_at_time: arg.created_at_time.map(Nat::from),
+            // Without a creation time nothing is a duplicate: the log gets the ledger time, as for icrc7_transfer.
+            created_at_time: Some(Nat::from(arg.created_at_time.unwrap_or(current_time))),
             spender: Some(spender_account),
             exp: None,
         },
-- 
2.43.0


From fc3a2fb6d691552d7acadfc246cb0a0b858ddf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 14/46] fix: tx_window is in nanoseconds for the deduplication
 window too

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 6bdf194..394f9e0 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -105,7 +105,7 @@ fn init(args: Args) {
             }
 
             let _tx_window = match init_args.tx_window {
-                Some(tx_window) => Duration::from_millis(u64::try_from(tx_window.0).unwrap()),
+                Some(tx_window) => Duration::from_nanos(u64::try_from(tx_window.0).unwrap()),
                 None => Duration::from_secs(0),
             };
 
-- 
2.43.0


From ea370fd7c8fd3dd2b28629edf5aedc5b42f39ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 15/46] fix: /metrics and /logs are certified again after an
 upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..0021a26 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,7 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -53,6 +53,7 @@ fn post_upgrade(args: Args) {
             init_canister(state.clone());
             replace_icrc3(icrc3);
             start_default_archive_job();
+            certify_all_assets();
 
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
             for (path, redirection_url) in media_redirections {
-- 
2.43.0


From 30d15f228677211c7c57389007dd7bc1184c5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 16/46] fix: /logs and /traces carry their own certification,
 not that of /metrics

---
 src/core_nft/src/queries/http_request.rs | 20 ++++++++++----------
 src/core_nft/src/types/http.rs           |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/queries/http_request.rs b/src/core_nft/src/queries/http_request.rs
index 1749e87..6b4a082 100644
--- a/src/core_nft/src/queries/http_request.rs
+++ b/src/core_nft/src/queries/http_request.rs
@@ -17,16 +17,16 @@ fn http_request(req: HttpRequest) -> HttpResponse {
     let path = req.get_path().expect("Failed to parse request path");
 
     match path.as_str() {
-        "/logs" => serve_logs(bity_ic_canister_logger::export_logs()),
-        "/traces" => serve_logs(bity_ic_canister_logger::export_traces()),
+        "/logs" => serve_logs("/logs", bity_ic_canister_logger::export_logs()),
+        "/traces" => serve_logs("/traces", bity_ic_canister_logger::export_traces()),
         "/metrics" => serve_metrics(),
         _ => serve_asset(&req),
     }
 }
 
-fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
+fn serve_logs(path: &str, logs: Vec<LogEntry>) -> HttpResponse<'static> {
     ASSET_ROUTER.with_borrow(|_| {
-        let body = serde_json::to_vec(&logs).expect("Failed to serialize metrics");
+        let body = serde_json::to_vec(&logs).expect("Failed to serialize logs");
         let headers = get_asset_headers(vec![
             (
                 CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(),
@@ -47,15 +47,15 @@ fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
         HTTP_TREE.with(|tree| {
             let tree = tree.borrow();
 
-            let metrics_tree_path = HttpCertificationPath::exact("/metrics");
-            let metrics_certification = HttpCertification::skip();
-            let metrics_tree_entry =
-                HttpCertificationTreeEntry::new(&metrics_tree_path, metrics_certification);
+            let logs_tree_path = HttpCertificationPath::exact(path);
+            let logs_certification = HttpCertification::skip();
+            let logs_tree_entry =
+                HttpCertificationTreeEntry::new(&logs_tree_path, logs_certification);
             add_v2_certificate_header(
                 &data_certificate().expect("No data certificate available"),
                 &mut response,
-                &tree.witness(&metrics_tree_entry, "/metrics").unwrap(),
-                &metrics_tree_path.to_expr_path(),
+                &tree.witness(&logs_tree_entry, path).unwrap(),
+                &logs_tree_path.to_expr_path(),
             );
 
             response
diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index bdff63a..17c93dd 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -94,7 +94,7 @@ pub fn certify_all_assets() {
         let logs_tree_entry = HttpCertificationTreeEntry::new(logs_tree_path, logs_certification);
         tree.insert(&logs_tree_entry);
 
-        let trace_tree_path = HttpCertificationPath::exact("/trace");
+        let trace_tree_path = HttpCertificationPath::exact("/traces");
         let trace_certification = HttpCertification::skip();
         let trace_tree_entry =
             HttpCertificationTreeEntry::new(trace_tree_path, trace_certification);
-- 
2.43.0


From fca92e81a3b1dd7a65e1978709c5841498bb87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 17/46] fix: the consent message for an empty
 icrc37_approve_collection is an error, not a trap

---
 src/core_nft/src/queries/icrc21.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index ff62ad3..47ff895 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -144,7 +144,13 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ));
             }
 
-            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", approve_args.first().unwrap().approval_info.spender.owner);
+            let Some(first) = approve_args.first() else {
+                return create_error_response(
+                    "No approve_collection arguments provided".to_string(),
+                );
+            };
+
+            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", first.approval_info.spender.owner);
 
             create_consent_info(generic_message, args.user_preferences.metadata)
         }
-- 
2.43.0


From 67ca79fc0fb04232135bce909c04a7a31e758f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 18/46] fix: a failed init_upload keeps the storage canister it
 created

---
 src/core_nft/src/updates/management.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bafbf44..a8b3446 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -406,6 +406,8 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
         Ok((_, canister)) => canister,
         Err(e) => {
             trace(&format!("Error inserting data: {:?}", e));
+            // A storage canister created on the way is not lost with the upload.
+            mutate_state(|state| state.data.sub_canister_manager = sub_canister_manager);
             return Err(init_upload::InitUploadError::StorageCanisterError(e));
         }
     };
-- 
2.43.0


From 98234bdbe9fe74c8cbaeb02b36bd31dfa83e0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 19/46] fix: two uploads cannot take the same URL with and
 without a leading slash

---
 src/core_nft/src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index 10524b6..a76314b 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -310,7 +310,11 @@ impl InternalFilestorage {
     }
 
     pub fn contains_path(&self, path: &str) -> bool {
-        self.map.values().any(|data| data.path == path)
+        // "file" and "/file" are served under the same URL.
+        let url_path = |path: &str| path.strip_prefix('/').unwrap_or(path).to_string();
+        self.map
+            .values()
+            .any(|data| url_path(&data.path) == url_path(path))
     }
 
     pub fn get_all_files(&self) -> Vec<(String, InternalFilestorageData)> {
-- 
2.43.0


From 74c459640e661937e7c3bdcde9d890b684c23145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 20/46] fix: approval queries on any unknown token id answer
 instead of trapping

---
 src/core_nft/src/queries/icrc37.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 62c550c..fe4b579 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -23,6 +23,10 @@ fn icrc37_get_token_approvals(
         .map(|n| usize::try_from(n.0).unwrap_or(10))
         .unwrap_or(10);
 
+    if read_state(|state| state.data.owner_of(&token_id)).is_none() {
+        return response;
+    }
+
     if let Some(approvals_map) = __TOKEN_APPROVALS
         .with_borrow(|token_approvals| token_approvals.get(&WrappedNat::from(token_id.clone())))
     {
@@ -145,6 +149,11 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
             let spender_account = arg.spender.clone();
             let current_time = ic_cdk::api::time();
 
+            if state.data.owner_of(&arg.token_id).is_none() {
+                response.push(false);
+                continue;
+            }
+
             let has_token_approval = if let Some(token_approvals) = __TOKEN_APPROVALS
                 .with_borrow(|token_approvals| {
                     token_approvals.get(&WrappedNat::from(arg.token_id.clone()))
-- 
2.43.0


From 0b6983648df50a807c79ce5946d2cfe87c65b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 21/46] fix: the upload garbage collector cancels abandoned
 uploads, not fresh ones

---
 .../src/jobs/upload_garbage_collector.rs       | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 64aac02..938e491 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -2,10 +2,13 @@ use std::time::Duration;
 
 use bity_ic_canister_time::{run_interval, DAY_IN_MS};
 use bity_ic_storage_canister_api::cancel_upload;
+use bity_ic_storage_canister_api::types::storage::UploadState;
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
-use crate::state::read_state;
+use crate::state::{mutate_state, read_state, InternalFilestorageData};
+
+const DAY_IN_NS: u64 = DAY_IN_MS * 1_000_000;
 
 pub fn start_job() {
     run_interval(
@@ -22,7 +25,7 @@ async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
     for (file_path, file) in all_files {
-        if file.init_timestamp + DAY_IN_MS > ic_cdk::api::time() {
+        if is_abandoned(&file) {
             let result = cancel_upload(
                 file.canister,
                 cancel_upload::Args {
@@ -33,6 +36,12 @@ async fn upload_garbage_collector() {
 
             match result {
                 Ok(_) => {
+                    mutate_state(|state| {
+                        let files = &mut state.internal_filestorage;
+                        if files.get(&file_path).is_some_and(is_abandoned) {
+                            files.remove(&file_path);
+                        }
+                    });
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
                 Err(err) => {
@@ -42,3 +51,8 @@ async fn upload_garbage_collector() {
         }
     }
 }
+
+/// An upload that was started more than a day ago and never finalized.
+fn is_abandoned(file: &InternalFilestorageData) -> bool {
+    file.state != UploadState::Finalized && file.init_timestamp + DAY_IN_NS <= ic_cdk::api::time()
+}
-- 
2.43.0


From f334a49760712161e5258ae591d191f869aaa780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 22/46] fix: overlapping index updates do not index a block
 twice

---
 src/index_icrc7/src/jobs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..792d45f 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -43,7 +43,16 @@ async fn update_index() {
     let blocks = get_all_blocks(block_ids, None).await;
     match blocks {
         Ok(blocks) => {
+            // Another run may have advanced the index while this one was waiting for the ledger.
+            last_block_id = read_state(|state| state.data.last_block_id);
+
             for block in blocks {
+                if block.id < last_block_id {
+                    continue;
+                }
+                if block.id > last_block_id {
+                    break;
+                }
                 match add_block_to_index(&block) {
                     Ok(_) => {
                         last_block_id += 1;
-- 
2.43.0


From e92865c079c4de53e6ce5023d277c59ca4e7218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 23/46] fix: 37xfer blocks are found by their token id

---
 src/index_icrc7/src/blocks.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..838b99c 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,20 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        match data {
+            ICRC3Value::Map(map) => {
+                if let Some(ICRC3Value::Map(tx)) = map.get("tx") {
+                    if let Some(ICRC3Value::Nat(token_id)) = tx.get("tid") {
+                        Ok(Some(WrappedNat(token_id.clone())))
+                    } else {
+                        Err("Missing or invalid token ID field".to_string())
+                    }
+                } else {
+                    Err("Invalid transaction data".to_string())
+                }
+            }
+            _ => Err("TransferFrom transaction data must be a map".to_string()),
+        }
     }
 }
 
-- 
2.43.0


From d0b7f1579506a8d2dcc9874953794fd1e770e2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 24/46] fix: 37approve_coll blocks are found by their spender

---
 src/index_icrc7/src/blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 838b99c..99f8a65 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -418,6 +418,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From 0365bbef85733b1737fe4a644baa24063cb0e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 25/46] fix: a block in which an account has several roles is
 indexed for it once

---
 src/index_icrc7/src/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..52cb643 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -106,6 +106,10 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
                 .get(&account_key)
                 .map(|v| v.0.clone())
                 .unwrap_or_default();
+            // The same account can take part in a block in several roles.
+            if account_values.first() == Some(&block_id) {
+                continue;
+            }
             let mut d: VecDeque<_> = account_values.into();
             d.push_front(block_id);
             let account_values: Vec<_> = d.into();
-- 
2.43.0


From b0d2bcce517165ecac8357d737262fbb3987b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 26/46] fix: a filtered page with a large start or length does
 not wrap around

---
 src/index_icrc7/src/update/get_blocks.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 1bc0ff6..dc2ecfc 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -67,14 +67,14 @@ async fn get_blocks_with_filters(
 
     combined_block_ids.sort();
 
-    let start_idx = start as usize;
-    let end_idx = (start + length) as usize;
+    let total = combined_block_ids.len() as u64;
 
-    if start_idx >= combined_block_ids.len() {
+    if start >= total {
         return Vec::new();
     }
 
-    let end_idx = end_idx.min(combined_block_ids.len());
+    let start_idx = start as usize;
+    let end_idx = start.saturating_add(length).min(total) as usize;
     let paginated_block_ids = &combined_block_ids[start_idx..end_idx];
 
     let block_range: Vec<u64> = paginated_block_ids.to_vec();
-- 
2.43.0


From 2004e18846e3b7b273cb823f86a019324373c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 27/46] fix: filtered pages in descending order start at the
 newest block

---
 src/index_icrc7/src/update/get_blocks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index dc2ecfc..92e66df 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -66,6 +66,9 @@ async fn get_blocks_with_filters(
     };
 
     combined_block_ids.sort();
+    if *sort_by == SortBy::Descending {
+        combined_block_ids.reverse();
+    }
 
     let total = combined_block_ids.len() as u64;
 
-- 
2.43.0


From 93a008c695d41cc9351574264351da4fceecc664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 28/46] fix: the daily cache cleanup does not trap on its own
 borrow

---
 src/index_icrc7/src/cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..4d1262a 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,16 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
+        let old_keys = cache
             .borrow()
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect::<Vec<_>>();
+
+        for key in old_keys {
+            cache.borrow_mut().remove(&key);
+        }
 
         true
     })
-- 
2.43.0


From c459bd5ce702dc6a6b4d05941d77cc3ada7a61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 29/46] fix: transfers, approvals and revocations answer with
 the index of their own block

---
 src/core_nft/src/updates/icrc37.rs | 10 +++++-----
 src/core_nft/src/updates/icrc7.rs  |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e1fd726..5a83e2e 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -179,7 +179,7 @@ fn approve_token(
     );
 
     let index = match icrc3_add_transaction(transaction) {
-        Ok(index) => index,
+        Ok(log_length) => log_length - 1,
         Err(e) => {
             return ApproveTokenResult::Err(ApproveTokenError::GenericError {
                 error_code: Nat::from(1u64),
@@ -347,7 +347,7 @@ fn approve_collection(
     );
 
     let index = match icrc3_add_transaction(transaction) {
-        Ok(index) => index,
+        Ok(log_length) => log_length - 1,
         Err(e) => {
             return ApproveCollectionResult::Err(ApproveCollectionError::GenericError {
                 error_code: Nat::from(1u64),
@@ -509,7 +509,7 @@ fn revoke_token_approvals(
     );
 
     let index = match icrc3_add_transaction(transaction) {
-        Ok(index) => index,
+        Ok(log_length) => log_length - 1,
         Err(e) => {
             return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::GenericError {
                 error_code: Nat::from(1u64),
@@ -648,7 +648,7 @@ fn revoke_collection_approvals(
     );
 
     let index = match icrc3_add_transaction(transaction) {
-        Ok(index) => index,
+        Ok(log_length) => log_length - 1,
         Err(e) => {
             return RevokeCollectionApprovalResult::Err(
                 RevokeCollectionApprovalError::GenericError {
@@ -816,7 +816,7 @@ fn transfer_from(
     );
 
     let index = match icrc3_add_transaction(transaction) {
-        Ok(index) => index,
+        Ok(log_length) => log_length - 1,
         Err(e) => match e {
             Icrc3Error::Icrc3Error(e) => {
                 if e.to_lowercase().contains("duplicate") {
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index f25345c..d742ece 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -103,7 +103,8 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
             __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
                 token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
             });
-            Ok(Nat::from(transaction_id))
+            // The log answers with its length after the insertion.
+            Ok(Nat::from(transaction_id - 1))
         }
         Err(e) => {
             if let bity_ic_icrc3::types::Icrc3Error::DuplicateTransaction { duplicate_of } = e {
-- 
2.43.0


From f5cc734a88b6fa43b520d45e462e372b86d8fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 30/46] fix: token metadata holds numbers of any size

---
 src/core_nft/src/types/value_custom.rs | 41 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/types/value_custom.rs b/src/core_nft/src/types/value_custom.rs
index a95fe58..7239c5a 100644
--- a/src/core_nft/src/types/value_custom.rs
+++ b/src/core_nft/src/types/value_custom.rs
@@ -1,4 +1,4 @@
-use candid::CandidType;
+use candid::{CandidType, Int, Nat};
 use ic_stable_structures::{storable::Bound, Storable};
 use icrc_ledger_types::icrc::generic_value::ICRC3Value as Value;
 use minicbor::Encoder;
@@ -36,14 +36,26 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(n.0.clone()) {
+                    Ok(small) => e.u64(small)?,
+                    Err(_) => {
+                        let mut leb = Vec::new();
+                        n.encode(&mut leb).map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&leb)?
+                    }
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(i.0.clone()) {
+                    Ok(small) => e.i64(small)?,
+                    Err(_) => {
+                        let mut leb = Vec::new();
+                        i.encode(&mut leb).map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&leb)?
+                    }
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -86,12 +98,19 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 Value::Text(s)
             }
             2 => {
-                let n = d.u64()?;
-                Value::Nat(n.into())
+                // numbers that do not fit 64 bits are stored as LEB128 bytes
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    Value::Nat(Nat::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?)
+                } else {
+                    Value::Nat(d.u64()?.into())
+                }
             }
             3 => {
-                let i = d.i64()?;
-                Value::Int(i.into())
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    Value::Int(Int::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?)
+                } else {
+                    Value::Int(d.i64()?.into())
+                }
             }
             4 => {
                 let array_len = d.array()?.unwrap();
-- 
2.43.0


From d438b6c85e670832f26c4337ab98d743e41204e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 31/46] fix: an integer in a block does not keep the canister
 from being upgraded

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 21 ++++++++++++++++++---
 src/core_nft/src/lifecycle/pre_upgrade.rs  | 10 ++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 0021a26..6802591 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -12,7 +12,9 @@ use bity_ic_types::BuildVersion;
 
 use candid::CandidType;
 use ic_cdk_macros::post_upgrade;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 use serde::{Deserialize, Serialize};
+use serde_bytes::ByteBuf;
 use tracing::info;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
@@ -21,6 +23,16 @@ pub struct UpgradeArgs {
     pub commit_hash: String,
 }
 
+/// What pre_upgrade leaves in stable memory. Versions before the ledger was kept apart wrote four parts.
+#[derive(Deserialize)]
+struct StableState(
+    RuntimeState,
+    Vec<LogEntry>,
+    Vec<LogEntry>,
+    ICRC3,
+    #[serde(default)] Option<ByteBuf>,
+);
+
 #[post_upgrade]
 #[trace]
 fn post_upgrade(args: Args) {
@@ -34,9 +46,12 @@ fn post_upgrade(args: Args) {
             let reader = get_reader(&memory);
 
             // uncomment these lines if you want to do a normal upgrade
-            let (mut state, logs, traces, icrc3): (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3) = bity_ic_serializer
-                ::deserialize(reader)
-                .unwrap();
+            let StableState(mut state, logs, traces, mut icrc3, ledger) =
+                bity_ic_serializer::deserialize(reader).unwrap();
+            if let Some(ledger) = ledger {
+                let blocks: Vec<ICRC3Value> = candid::decode_one(&ledger).unwrap();
+                icrc3.ledger = blocks.into();
+            }
 
             // uncomment these lines if you want to do an upgrade with migration
             // let (runtime_state_v0, logs, traces): (
diff --git a/src/core_nft/src/lifecycle/pre_upgrade.rs b/src/core_nft/src/lifecycle/pre_upgrade.rs
index 6947fad..c9cfe3b 100644
--- a/src/core_nft/src/lifecycle/pre_upgrade.rs
+++ b/src/core_nft/src/lifecycle/pre_upgrade.rs
@@ -5,6 +5,7 @@ use crate::{
 use bity_ic_canister_tracing_macros::trace;
 use bity_ic_stable_memory::get_writer;
 use ic_cdk_macros::pre_upgrade;
+use serde_bytes::ByteBuf;
 use tracing::info;
 
 #[pre_upgrade]
@@ -13,12 +14,17 @@ fn pre_upgrade() {
     info!("Pre upgrade.");
 
     let runtime_state = take_state();
-    let icrc3 = take_icrc3();
+    let mut icrc3 = take_icrc3();
+    // serde cannot read back the integers a block may hold (token metadata): candid can
+    let ledger = icrc3.as_mut().map(|icrc3| {
+        let blocks = Vec::from(std::mem::take(&mut icrc3.ledger));
+        ByteBuf::from(candid::encode_one(blocks).unwrap())
+    });
 
     let logs = bity_ic_canister_logger::export_logs();
     let traces = bity_ic_canister_logger::export_traces();
 
-    let stable_state = (runtime_state, logs, traces, icrc3);
+    let stable_state = (runtime_state, logs, traces, icrc3, ledger);
 
     let mut memory = get_upgrades_memory();
     let writer = get_writer(&mut memory);
-- 
2.43.0


From 615f81a60b5ca5c50377605c6b1c20b1eeb3dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:09 +0000
Subject: [PATCH 32/46] fix: the index caches and looks up numbers of any size

---
 src/index_icrc7/src/wrapped_values.rs | 62 +++++++++++++++++++++------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/index_icrc7/src/wrapped_values.rs b/src/index_icrc7/src/wrapped_values.rs
index cbd2a30..09c78fc 100644
--- a/src/index_icrc7/src/wrapped_values.rs
+++ b/src/index_icrc7/src/wrapped_values.rs
@@ -1,4 +1,4 @@
-use candid::{CandidType, Nat, Principal};
+use candid::{CandidType, Int, Nat, Principal};
 use ic_stable_structures::{storable::Bound, Storable};
 use icrc_ledger_types::icrc::generic_value::ICRC3Value as Value;
 use icrc_ledger_types::icrc1::account::Account;
@@ -48,7 +48,16 @@ impl<C> minicbor::Encode<C> for WrappedNat {
         e: &mut Encoder<W>,
         _ctx: &mut C,
     ) -> Result<(), minicbor::encode::Error<W::Error>> {
-        e.u64(u64::try_from(self.0 .0.clone()).unwrap())?;
+        match u64::try_from(self.0 .0.clone()) {
+            Ok(small) => e.u64(small)?,
+            Err(_) => {
+                let mut leb = Vec::new();
+                self.0
+                    .encode(&mut leb)
+                    .map_err(minicbor::encode::Error::message)?;
+                e.bytes(&leb)?
+            }
+        };
         Ok(())
     }
 }
@@ -58,8 +67,12 @@ impl<'b, C> minicbor::Decode<'b, C> for WrappedNat {
         d: &mut minicbor::Decoder<'b>,
         _ctx: &mut C,
     ) -> Result<Self, minicbor::decode::Error> {
-        let nat = d.u64()?;
-        Ok(WrappedNat(Nat::from(nat)))
+        let nat = if d.datatype()? == minicbor::data::Type::Bytes {
+            Nat::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?
+        } else {
+            Nat::from(d.u64()?)
+        };
+        Ok(WrappedNat(nat))
     }
 }
 
@@ -181,14 +194,26 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(n.0.clone()) {
+                    Ok(small) => e.u64(small)?,
+                    Err(_) => {
+                        let mut leb = Vec::new();
+                        n.encode(&mut leb).map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&leb)?
+                    }
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(i.0.clone()) {
+                    Ok(small) => e.i64(small)?,
+                    Err(_) => {
+                        let mut leb = Vec::new();
+                        i.encode(&mut leb).map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&leb)?
+                    }
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -231,12 +256,21 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 Value::Text(s)
             }
             2 => {
-                let n = d.u64()?;
-                Value::Nat(n.into())
+                // numbers that do not fit 64 bits are stored as LEB128 bytes
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    let n = Nat::decode(&mut d.bytes()?);
+                    Value::Nat(n.map_err(minicbor::decode::Error::message)?)
+                } else {
+                    Value::Nat(d.u64()?.into())
+                }
             }
             3 => {
-                let i = d.i64()?;
-                Value::Int(i.into())
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    let i = Int::decode(&mut d.bytes()?);
+                    Value::Int(i.map_err(minicbor::decode::Error::message)?)
+                } else {
+                    Value::Int(d.i64()?.into())
+                }
             }
             4 => {
                 let array_len = d.array()?.unwrap();
-- 
2.43.0


From c4b03842e111f7c0d2725d8066e33d00bc8065a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 33/46] fix: an upload the storage canister has dropped can be
 cancelled

---
 src/core_nft/src/updates/management.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index a8b3446..d4617e6 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -646,6 +646,8 @@ pub async fn cancel_upload(data: cancel_upload::Args) -> cancel_upload::Response
 
     match canister.cancel_upload(data.clone()).await {
         Ok(_) => {}
+        // The storage canister has dropped the upload already, after a failed finalize_upload.
+        Err(cancel_upload::CancelUploadError::UploadNotInitialized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             return Err(e);
-- 
2.43.0


From 272e257796fd8697c43cdde530c19e72fb8ff82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 34/46] fix: an invalid chunk size does not create a storage
 canister

---
 src/core_nft/src/types/sub_canister.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index 1de966b..b355e63 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -85,6 +85,12 @@ impl StorageSubCanisterManager {
                             trace(&format!("Initialized upload"));
                             return Ok((init_upload::InitUploadResp {}, canister.canister_id()));
                         }
+                        // Every storage canister refuses it, a new one as well.
+                        Err(init_upload::InitUploadError::StorageCanisterError(e))
+                            if e == "InvalidChunkSize" =>
+                        {
+                            return Err(e);
+                        }
                         Err(_) => {
                             continue;
                         }
-- 
2.43.0


From 3a8d342371d963ddcf620818a921e1fc8fb14271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 35/46] fix: file paths that no request can reach are refused
 before the upload

---
 src/core_nft/src/types/http.rs         | 14 +++++++++++++-
 src/core_nft/src/updates/management.rs |  7 ++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index 17c93dd..3682cb7 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -2,7 +2,7 @@ use ic_asset_certification::{AssetConfig, AssetRedirectKind, AssetRouter};
 use ic_cdk::api::certified_data_set;
 use ic_http_certification::{
     HeaderField, HttpCertification, HttpCertificationPath, HttpCertificationTree,
-    HttpCertificationTreeEntry,
+    HttpCertificationTreeEntry, HttpRequest,
 };
 use std::{cell::RefCell, rc::Rc};
 
@@ -57,6 +57,18 @@ pub fn add_redirection(from_url: String, to_url: String) -> Option<()> {
     Some(())
 }
 
+/// Whether a request for the file reaches its redirection: its path is not changed by the parsing of the URL, and is not
+/// the one of a page the canister serves itself.
+pub fn can_redirect_from(file_path: &str) -> bool {
+    let path = match file_path.starts_with('/') {
+        true => file_path.to_string(),
+        false => format!("/{}", file_path),
+    };
+    let request = HttpRequest::get(path.as_str()).build();
+    request.get_path().is_ok_and(|parsed| parsed == path)
+        && !["/metrics", "/logs", "/traces"].contains(&path.as_str())
+}
+
 pub fn remove_redirection(from_url: String, to_url: String) -> Option<()> {
     let asset_configs = vec![AssetConfig::Redirect {
         from: from_url,
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index d4617e6..31b78ad 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -4,7 +4,7 @@ use crate::guards::{
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
 use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, can_redirect_from};
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
 use crate::types::wrapped_types::WrappedNat;
@@ -399,6 +399,11 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
     if read_state(|state| state.internal_filestorage.contains_path(&data.file_path)) {
         return Err(init_upload::InitUploadError::FileAlreadyExists);
     }
+    if !can_redirect_from(&data.file_path) {
+        return Err(init_upload::InitUploadError::StorageCanisterError(
+            "The file path cannot be used in a URL".to_string(),
+        ));
+    }
 
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
-- 
2.43.0


From e85e734ecced84100de923874b233dacb9b6c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:18 +0000
Subject: [PATCH 36/46] fix: consent messages name the tokens, parties and
 constraints of the call

The fields of the message were collected for the first item only and then dropped: every transfer,
approval or revocation of the same size was described by the same sentence.
---
 src/core_nft/src/queries/icrc21.rs | 134 +++++++++++++++++------------
 1 file changed, 79 insertions(+), 55 deletions(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index 47ff895..fa31e1f 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -7,6 +7,7 @@ pub use crate::types::icrc37;
 pub use crate::types::icrc7;
 pub use crate::types::management;
 
+use icrc_ledger_types::icrc1::account::Account;
 use icrc_ledger_types::icrc21::errors::{ErrorInfo, Icrc21Error};
 use icrc_ledger_types::icrc21::requests::ConsentMessageMetadata;
 use icrc_ledger_types::icrc21::responses::{ConsentInfo, ConsentMessage};
@@ -26,9 +27,15 @@ pub fn icrc21_canister_call_consent_message(args: icrc21::Args) -> icrc21::Respo
 
 fn create_consent_info(
     generic_message: String,
+    fields: Vec<(String, String)>,
     metadata: ConsentMessageMetadata,
 ) -> icrc21::Response {
-    let consent_message = ConsentMessage::GenericDisplayMessage(generic_message);
+    let details: String = fields
+        .iter()
+        .map(|(name, value)| format!("\n{}: {}", name, value))
+        .collect();
+    let consent_message =
+        ConsentMessage::GenericDisplayMessage(format!("{}\n{}", generic_message, details));
 
     let consent_info = ConsentInfo {
         consent_message,
@@ -38,11 +45,37 @@ fn create_consent_info(
     icrc21::Response::Ok(consent_info)
 }
 
+fn push_opt<T: ToString>(fields: &mut Vec<(String, String)>, name: &str, value: Option<T>) {
+    if let Some(value) = value {
+        fields.push((name.to_string(), value.to_string()));
+    }
+}
+
 fn create_error_response(description: String) -> icrc21::Response {
     let error_info = ErrorInfo { description };
     icrc21::Response::Err(Icrc21Error::UnsupportedCanisterCall(error_info))
 }
 
+fn push_approval_info(fields: &mut Vec<(String, String)>, info: &icrc37::ApprovalInfo) {
+    fields.push(("Spender".to_string(), info.spender.to_string()));
+    let from_subaccount = info.from_subaccount.as_ref().map(|bytes| to_hex(bytes));
+    push_opt(fields, "From Subaccount", from_subaccount);
+    push_opt(fields, "Expires At", info.expires_at);
+    push_opt(fields, "Memo", info.memo.as_ref().map(|bytes| to_hex(bytes)));
+    fields.push(("Created At".to_string(), info.created_at_time.to_string()));
+}
+
+fn to_hex(bytes: &[u8]) -> String {
+    bytes.iter().map(|byte| format!("{:02x}", byte)).collect()
+}
+
+fn spender_to_revoke(spender: &Option<Account>) -> String {
+    match spender {
+        Some(spender) => spender.to_string(),
+        None => "all spenders".to_string(),
+    }
+}
+
 fn handle_transfer_consent(args: icrc21::Args) -> icrc21::Response {
     match Decode!(&args.arg, icrc7::icrc7_transfer::Args) {
         Ok(transfer_args) => {
@@ -54,15 +87,16 @@ fn handle_transfer_consent(args: icrc21::Args) -> icrc21::Response {
             let token_count = transfer_args.len();
             fields.push(("Number of NFTs".to_string(), token_count.to_string()));
 
-            if let Some(arg) = transfer_args.first() {
+            for arg in &transfer_args {
                 fields.push(("Token ID".to_string(), arg.token_id.to_string()));
-                fields.push(("To".to_string(), format!("{}", arg.to.owner)));
-                if let Some(memo) = &arg.memo {
-                    fields.push(("Memo".to_string(), format!("{:?}", memo)));
-                }
+                fields.push(("To".to_string(), arg.to.to_string()));
+                let from_subaccount = arg.from_subaccount.as_ref().map(|bytes| to_hex(bytes));
+                push_opt(&mut fields, "From Subaccount", from_subaccount);
+                push_opt(&mut fields, "Memo", arg.memo.as_ref().map(|bytes| to_hex(bytes)));
+                push_opt(&mut fields, "Created At", arg.created_at_time);
             }
 
-            let generic_message = if token_count > 1 {
+            let generic_message = if token_count != 1 {
                 format!(
                     "You are about to transfer {} NFTs. Method: icrc7_transfer",
                     token_count
@@ -71,7 +105,7 @@ fn handle_transfer_consent(args: icrc21::Args) -> icrc21::Response {
                 "You are about to transfer an NFT. Method: icrc7_transfer".to_string()
             };
 
-            create_consent_info(generic_message, args.user_preferences.metadata)
+            create_consent_info(generic_message, fields, args.user_preferences.metadata)
         }
         Err(_) => create_error_response("Failed to decode transfer arguments".to_string()),
     }
@@ -88,18 +122,12 @@ fn handle_approve_tokens_consent(args: icrc21::Args) -> icrc21::Response {
             let token_count = approve_args.len();
             fields.push(("Number of NFTs".to_string(), token_count.to_string()));
 
-            if let Some(arg) = approve_args.first() {
+            for arg in &approve_args {
                 fields.push(("Token ID".to_string(), arg.token_id.to_string()));
-                fields.push((
-                    "Spender".to_string(),
-                    format!("{}", arg.approval_info.spender.owner),
-                ));
-                if let Some(expires_at) = arg.approval_info.expires_at {
-                    fields.push(("Expires At".to_string(), expires_at.to_string()));
-                }
+                push_approval_info(&mut fields, &arg.approval_info);
             }
 
-            let generic_message = if token_count > 1 {
+            let generic_message = if token_count != 1 {
                 format!(
                     "You are about to approve {} NFTs for transfer. Method: icrc37_approve_tokens",
                     token_count
@@ -109,7 +137,7 @@ fn handle_approve_tokens_consent(args: icrc21::Args) -> icrc21::Response {
                     .to_string()
             };
 
-            create_consent_info(generic_message, args.user_preferences.metadata)
+            create_consent_info(generic_message, fields, args.user_preferences.metadata)
         }
         Err(_) => create_error_response("Failed to decode approve_tokens arguments".to_string()),
     }
@@ -126,22 +154,8 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ),
             ];
 
-            if let Some(arg) = approve_args.first() {
-                fields.push((
-                    "Spender".to_string(),
-                    format!("{}", arg.approval_info.spender.owner),
-                ));
-                if let Some(expires_at) = arg.approval_info.expires_at {
-                    fields.push(("Expires At".to_string(), expires_at.to_string()));
-                }
-
-                let token_of_owner =
-                    read_state(|state| state.data.tokens_balance_of(&arg.approval_info.spender));
-
-                fields.push((
-                    "Total NFTs owned in Collection".to_string(),
-                    token_of_owner.to_string(),
-                ));
+            for arg in &approve_args {
+                push_approval_info(&mut fields, &arg.approval_info);
             }
 
             let Some(first) = approve_args.first() else {
@@ -150,9 +164,12 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 );
             };
 
-            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", first.approval_info.spender.owner);
+            let generic_message = match approve_args.len() {
+                1 => format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", first.approval_info.spender.owner),
+                count => format!("You are about to approve {} spenders to transfer all your nft available in the collection. Method: icrc37_approve_collection", count),
+            };
 
-            create_consent_info(generic_message, args.user_preferences.metadata)
+            create_consent_info(generic_message, fields, args.user_preferences.metadata)
         }
         Err(_) => {
             create_error_response("Failed to decode approve_collection arguments".to_string())
@@ -174,21 +191,23 @@ fn handle_revoke_token_approvals_consent(args: icrc21::Args) -> icrc21::Response
             let token_count = revoke_args.len();
             fields.push(("Number of NFTs".to_string(), token_count.to_string()));
 
-            if let Some(arg) = revoke_args.first() {
+            for arg in &revoke_args {
                 fields.push(("Token ID".to_string(), arg.token_id.to_string()));
-                if let Some(spender) = &arg.spender {
-                    fields.push(("Spender".to_string(), format!("{}", spender.owner)));
-                }
+                fields.push(("Spender".to_string(), spender_to_revoke(&arg.spender)));
+                let from_subaccount = arg.from_subaccount.as_ref().map(|bytes| to_hex(bytes));
+                push_opt(&mut fields, "From Subaccount", from_subaccount);
+                push_opt(&mut fields, "Memo", arg.memo.as_ref().map(|bytes| to_hex(bytes)));
+                push_opt(&mut fields, "Created At", arg.created_at_time);
             }
 
-            let generic_message = if token_count > 1 {
+            let generic_message = if token_count != 1 {
                 format!("You are about to revoke approvals for {} NFTs. Method: icrc37_revoke_token_approvals", token_count)
             } else {
                 "You are about to revoke approval for an NFT. Method: icrc37_revoke_token_approvals"
                     .to_string()
             };
 
-            create_consent_info(generic_message, args.user_preferences.metadata)
+            create_consent_info(generic_message, fields, args.user_preferences.metadata)
         }
         Err(_) => {
             create_error_response("Failed to decode revoke_token_approvals arguments".to_string())
@@ -210,11 +229,15 @@ fn handle_revoke_collection_approvals_consent(args: icrc21::Args) -> icrc21::Res
                 ),
             ];
 
-            if let Some(arg) = revoke_args.first() {
-                if let Some(spender) = &arg.spender {
-                    fields.push(("Spender".to_string(), format!("{}", spender.owner)));
-                }
+            for arg in &revoke_args {
+                fields.push(("Spender".to_string(), spender_to_revoke(&arg.spender)));
+                let from_subaccount = arg.from_subaccount.as_ref().map(|bytes| to_hex(bytes));
+                push_opt(&mut fields, "From Subaccount", from_subaccount);
+                push_opt(&mut fields, "Memo", arg.memo.as_ref().map(|bytes| to_hex(bytes)));
+                push_opt(&mut fields, "Created At", arg.created_at_time);
+            }
 
+            if !revoke_args.is_empty() {
                 let collection_info = read_state(|state| {
                     (
                         state.data.name.clone(),
@@ -234,7 +257,7 @@ fn handle_revoke_collection_approvals_consent(args: icrc21::Args) -> icrc21::Res
 
             let generic_message = "You are about to revoke collection approvals. Method: icrc37_revoke_collection_approvals".to_string();
 
-            create_consent_info(generic_message, args.user_preferences.metadata)
+            create_consent_info(generic_message, fields, args.user_preferences.metadata)
         }
         Err(_) => create_error_response(
             "Failed to decode revoke_collection_approvals arguments".to_string(),
@@ -253,23 +276,24 @@ fn handle_transfer_from_consent(args: icrc21::Args) -> icrc21::Response {
             let token_count = transfer_args.len();
             fields.push(("Number of NFTs".to_string(), token_count.to_string()));
 
-            if let Some(arg) = transfer_args.first() {
+            for arg in &transfer_args {
                 fields.push(("Token ID".to_string(), arg.token_id.to_string()));
-                fields.push(("From".to_string(), format!("{}", arg.from.owner)));
-                fields.push(("To".to_string(), format!("{}", arg.to.owner)));
-                if let Some(memo) = &arg.memo {
-                    fields.push(("Memo".to_string(), format!("{:?}", memo)));
-                }
+                fields.push(("From".to_string(), arg.from.to_string()));
+                fields.push(("To".to_string(), arg.to.to_string()));
+                let spender_subaccount = arg.spender_subaccount.as_ref().map(|bytes| to_hex(bytes));
+                push_opt(&mut fields, "Spender Subaccount", spender_subaccount);
+                push_opt(&mut fields, "Memo", arg.memo.as_ref().map(|bytes| to_hex(bytes)));
+                push_opt(&mut fields, "Created At", arg.created_at_time);
             }
 
-            let generic_message = if token_count > 1 {
+            let generic_message = if token_count != 1 {
                 format!("You are about to transfer {} NFTs using approval. Method: icrc37_transfer_from", token_count)
             } else {
                 "You are about to transfer an NFT using approval. Method: icrc37_transfer_from"
                     .to_string()
             };
 
-            create_consent_info(generic_message, args.user_preferences.metadata)
+            create_consent_info(generic_message, fields, args.user_preferences.metadata)
         }
         Err(_) => create_error_response("Failed to decode transfer_from arguments".to_string()),
     }
-- 
2.43.0


From c4aac7316e8eee6e8dcbbde07c4e90e98a577c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:50 +0000
Subject: [PATCH 37/46] fix: a full log refuses transactions before it counts
 them

---
 src/core_nft/src/state.rs              | 19 +++++++++++++++++++
 src/core_nft/src/updates/icrc37.rs     | 12 ++++++------
 src/core_nft/src/updates/icrc7.rs      |  4 ++--
 src/core_nft/src/updates/management.rs |  8 ++++----
 4 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index a76314b..66aa65a 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -26,6 +26,25 @@ const STORAGE_WASM: &[u8] = include_bytes!("../../../wasm/storage_canister.wasm.
 icrc3_state!();
 canister_state!(RuntimeState);
 
+/// Adds a transaction to the log. While the log has no room (the blocks could not be archived) it is refused here:
+/// the library notices only after it has counted the block.
+pub fn log_transaction<T: TransactionType>(transaction: T) -> Result<u64, Icrc3Error> {
+    let is_full = ICRC3_INSTANCE
+        .read()
+        .unwrap()
+        .as_ref()
+        .is_some_and(|icrc3| {
+            let blockchain = &icrc3.blockchain;
+            blockchain.local_transactions.len() as u128 >= blockchain.max_unarchived_transactions
+        });
+    if is_full {
+        return Err(Icrc3Error::Icrc3Error(
+            "Local transactions limit reached".to_string(),
+        ));
+    }
+    icrc3_add_transaction(transaction)
+}
+
 #[derive(Serialize, Deserialize, Clone)]
 pub struct RuntimeState {
     pub env: CanisterEnv,
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 5a83e2e..efb7935 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -1,4 +1,4 @@
-use crate::state::{icrc3_add_transaction, mutate_state, read_state};
+use crate::state::{log_transaction, mutate_state, read_state};
 pub use crate::types::icrc37::{
     icrc37_approve_collection, icrc37_approve_tokens, icrc37_revoke_collection_approvals,
     icrc37_revoke_token_approvals, icrc37_transfer_from, Approval,
@@ -178,7 +178,7 @@ fn approve_token(
         },
     );
 
-    let index = match icrc3_add_transaction(transaction) {
+    let index = match log_transaction(transaction) {
         Ok(log_length) => log_length - 1,
         Err(e) => {
             return ApproveTokenResult::Err(ApproveTokenError::GenericError {
@@ -346,7 +346,7 @@ fn approve_collection(
         },
     );
 
-    let index = match icrc3_add_transaction(transaction) {
+    let index = match log_transaction(transaction) {
         Ok(log_length) => log_length - 1,
         Err(e) => {
             return ApproveCollectionResult::Err(ApproveCollectionError::GenericError {
@@ -508,7 +508,7 @@ fn revoke_token_approvals(
         },
     );
 
-    let index = match icrc3_add_transaction(transaction) {
+    let index = match log_transaction(transaction) {
         Ok(log_length) => log_length - 1,
         Err(e) => {
             return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::GenericError {
@@ -647,7 +647,7 @@ fn revoke_collection_approvals(
         },
     );
 
-    let index = match icrc3_add_transaction(transaction) {
+    let index = match log_transaction(transaction) {
         Ok(log_length) => log_length - 1,
         Err(e) => {
             return RevokeCollectionApprovalResult::Err(
@@ -815,7 +815,7 @@ fn transfer_from(
         },
     );
 
-    let index = match icrc3_add_transaction(transaction) {
+    let index = match log_transaction(transaction) {
         Ok(log_length) => log_length - 1,
         Err(e) => match e {
             Icrc3Error::Icrc3Error(e) => {
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index d742ece..d984b22 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -1,7 +1,7 @@
 use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
-    state::{icrc3_add_transaction, mutate_state, read_state},
+    state::{log_transaction, mutate_state, read_state},
     types::{icrc7, WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
@@ -81,7 +81,7 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     let previous_owner = nft.token_owner.clone();
 
     // this is safe to do this as they is no await in the method, meaning state is committed at the end of the icrc7_transfer method.
-    match icrc3_add_transaction(transaction.clone()) {
+    match log_transaction(transaction.clone()) {
         Ok(transaction_id) => {
             nft.transfer(arg.to.clone());
             mutate_state(|state| {
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 31b78ad..9c00b4e 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -3,7 +3,7 @@ use crate::guards::{
     caller_has_read_uploads_permission, caller_has_update_collection_metadata_permission,
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
-use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
+use crate::state::{log_transaction, mutate_state, read_state, InternalFilestorageData};
 use crate::types::http::{add_redirection, can_redirect_from};
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
@@ -193,7 +193,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     }
 
     for (i, transaction) in transactions.into_iter().enumerate() {
-        match icrc3_add_transaction(transaction) {
+        match log_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
                 // A mint is all or nothing: trapping rolls back the blocks already logged.
@@ -305,7 +305,7 @@ pub fn update_nft_metadata(
                 },
             );
 
-            match icrc3_add_transaction(transaction) {
+            match log_transaction(transaction) {
                 Ok(_) => {}
                 Err(e) => {
                     __METADATA.with_borrow_mut(|m| {
@@ -367,7 +367,7 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
         },
     );
 
-    match icrc3_add_transaction(transaction) {
+    match log_transaction(transaction) {
         Ok(_) => {}
         Err(e) => {
             return Err(management::burn_nft::BurnNftError::StorageCanisterError(
-- 
2.43.0


From 5a096490af7bbcca3c88615e4efc1ebd42c3b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:16 +0000
Subject: [PATCH 38/46] fix: approvals granted in one call are paged in a fixed
 order

---
 src/core_nft/src/queries/icrc37.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index fe4b579..35adecb 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -47,10 +47,12 @@ fn icrc37_get_token_approvals(
             )
             .collect();
 
+        // Those granted in one call have the same time: the spender decides, so that pages never overlap.
         all_approvals.sort_by(|a, b| {
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -110,10 +112,12 @@ fn icrc37_get_collection_approvals(
             )
             .collect();
 
+    // Those granted in one call have the same time: the spender decides, so that pages never overlap.
     all_approvals.sort_by(|a, b| {
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0


From 9a0d494a28240d5cde3c96bba81a776f04579181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:34 +0000
Subject: [PATCH 39/46] fix: upload commands report refusals of the canister
 instead of ignoring them

---
 cmdline/src/calls/uploads.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 9abc29e..322c58d 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -9,11 +9,14 @@ use url::Url;
 
 pub async fn init(agent: &Agent, canister_id: &Principal, args: init_upload::Args) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "init_upload")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<init_upload::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("Init upload failed: {:?}", e))?;
     Ok(())
 }
 
@@ -23,11 +26,14 @@ pub async fn store(
     args: store_chunk::Args,
 ) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "store_chunk")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<store_chunk::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("Store chunk failed: {:?}", e))?;
     Ok(())
 }
 
-- 
2.43.0


From 8189e07d87366813fa55e9d4d088626aaf4d9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:34 +0000
Subject: [PATCH 40/46] fix: mint keeps everything after the first colon of a
 metadata entry and rejects entries without one

---
 cmdline/src/commands.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index c789f69..fbf7d8b 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -184,25 +184,17 @@ pub async fn handle_mint(
         let mut metadata = Vec::new();
         if let Some(entries) = sub_matches.get_many::<String>("metadata") {
             for entry in entries {
-                let parts: Vec<&str> = entry.split(':').collect();
-                if parts.len() >= 2 {
-                    let key = parts[0].to_string();
-                    let value_str = parts[1];
-                    let value = if let Ok(num) = value_str.parse::<u64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(
-                            num,
-                        ))
-                    } else if let Ok(int) = value_str.parse::<i64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(
-                            int,
-                        ))
-                    } else {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(
-                            value_str.to_string(),
-                        )
-                    };
-                    metadata.push((key, value));
-                }
+                let (key, value_str) = entry.split_once(':').ok_or_else(|| {
+                    anyhow!("Invalid metadata entry '{}' (expected key:value)", entry)
+                })?;
+                let value = if let Ok(num) = value_str.parse::<u64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(num))
+                } else if let Ok(int) = value_str.parse::<i64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(int))
+                } else {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(value_str.to_string())
+                };
+                metadata.push((key.to_string(), value));
             }
         }
         metadata
-- 
2.43.0


From 640a867613282aa4017e0406aa5da5e12dc631f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:34 +0000
Subject: [PATCH 41/46] fix: attributes that cannot be represented are refused
 or kept as text instead of dropped or nulled

---
 cmdline/src/commands.rs | 25 ++++++++++++-------------
 cmdline/src/metadata.rs |  7 +++----
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index fbf7d8b..f47cfd4 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -80,20 +80,19 @@ pub async fn handle_create_metadata(sub_matches: &ArgMatches) -> Result<()> {
         if let Some(attrs) = sub_matches.get_many::<String>("attribute") {
             for attr in attrs {
                 let parts: Vec<&str> = attr.split(':').collect();
-                if parts.len() >= 2 {
-                    let trait_type = parts[0].to_string();
-                    let value = if let Ok(num) = parts[1].parse::<f64>() {
-                        serde_json::json!(num)
-                    } else {
-                        serde_json::json!(parts[1])
-                    };
-                    let display_type = if parts.len() > 2 {
-                        Some(parts[2].to_string())
-                    } else {
-                        None
-                    };
-                    attributes.push((trait_type, value, display_type));
+                if parts.len() < 2 || parts.len() > 3 {
+                    return Err(anyhow!(
+                        "Invalid attribute '{}' (expected trait_type:value[:display_type])",
+                        attr
+                    ));
                 }
+                let trait_type = parts[0].to_string();
+                let value = match parts[1].parse::<f64>() {
+                    Ok(num) if num.is_finite() => serde_json::json!(num),
+                    _ => serde_json::json!(parts[1]),
+                };
+                let display_type = parts.get(2).map(|s| s.to_string());
+                attributes.push((trait_type, value, display_type));
             }
         }
 
diff --git a/cmdline/src/metadata.rs b/cmdline/src/metadata.rs
index 2945e23..f029fdc 100644
--- a/cmdline/src/metadata.rs
+++ b/cmdline/src/metadata.rs
@@ -181,10 +181,9 @@ pub fn create_metadata_interactive() -> Result<Value> {
             }
 
             let value_str = prompt_input("Value");
-            let (value, is_number) = if let Ok(num) = value_str.parse::<f64>() {
-                (json!(num), true)
-            } else {
-                (json!(value_str), false)
+            let (value, is_number) = match value_str.parse::<f64>() {
+                Ok(num) if num.is_finite() => (json!(num), true),
+                _ => (json!(value_str), false),
             };
 
             let display_type = prompt_display_type(is_number);
-- 
2.43.0


From f6c92911a20becd6d582f473b7cb4ab70c65c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:34 +0000
Subject: [PATCH 42/46] fix: the published interface declares the management
 calls' own error types

---
 src/core_nft/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core_nft/src/lib.rs b/src/core_nft/src/lib.rs
index 06d8964..b53c278 100644
--- a/src/core_nft/src/lib.rs
+++ b/src/core_nft/src/lib.rs
@@ -4,11 +4,8 @@ pub use crate::types::icrc10;
 pub use crate::types::icrc21;
 pub use crate::types::icrc7;
 pub use crate::types::management;
+pub use crate::types::management::{cancel_upload, finalize_upload, init_upload, store_chunk};
 pub use bity_ic_icrc3::transaction::ICRC7Transaction;
-pub use bity_ic_storage_canister_api::updates::cancel_upload;
-pub use bity_ic_storage_canister_api::updates::finalize_upload;
-pub use bity_ic_storage_canister_api::updates::init_upload;
-pub use bity_ic_storage_canister_api::updates::store_chunk;
 
 mod guards;
 mod jobs;
-- 
2.43.0


From fd05847df1c34d5bc82cc45e9ba532c72e62cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:08 +0000
Subject: [PATCH 43/46] fix: a transaction window or drift beyond 64 bits does
 not break or stop transfers and approvals

---
 src/core_nft/src/updates/icrc37.rs | 8 ++------
 src/core_nft/src/updates/icrc7.rs  | 8 ++++----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index efb7935..4a3eef3 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -23,11 +23,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
         .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT));
 
     if created_at_time
-        > current_time
-            + permited_drift
-                .0
-                .try_into()
-                .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT)
+        > current_time.saturating_add(permited_drift.0.try_into().unwrap_or(u64::MAX))
     {
         return Err((true, current_time));
     }
@@ -40,7 +36,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
     });
 
-    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {
+    if created_at_time.saturating_add(tx_window.0.try_into().unwrap_or(u64::MAX)) < current_time {
         return Err((false, 0));
     }
 
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index d984b22..6c780c3 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -47,20 +47,20 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     });
 
     let drift = permitted_drift
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if time > current_time + drift {
+    if time > current_time.saturating_add(drift) {
         return Err(icrc7::icrc7_transfer::TransferError::CreatedInFuture {
             ledger_time: Nat::from(current_time),
         });
     }
 
     let tx_window = tx_window
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_TX_WINDOW);
 
-    if time < current_time.saturating_sub(tx_window + drift) {
+    if time < current_time.saturating_sub(tx_window.saturating_add(drift)) {
         return Err(icrc7::icrc7_transfer::TransferError::TooOld);
     }
 
-- 
2.43.0


From c3c09c70dd3fb25c7799d382d18410a5a6cd972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:08 +0000
Subject: [PATCH 44/46] fix: limits and page sizes beyond 32 bits mean what
 they say instead of trapping or falling back to the defaults

---
 src/core_nft/src/queries/icrc37.rs |  4 ++--
 src/core_nft/src/queries/icrc7.rs  | 10 +++++-----
 src/core_nft/src/updates/icrc37.rs |  8 ++++----
 src/core_nft/src/updates/icrc7.rs  |  2 +-
 src/core_nft/src/utils.rs          |  2 +-
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 35adecb..84c780c 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -20,7 +20,7 @@ fn icrc37_get_token_approvals(
     let mut response = Vec::new();
 
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     if read_state(|state| state.data.owner_of(&token_id)).is_none() {
@@ -88,7 +88,7 @@ fn icrc37_get_collection_approvals(
 ) -> icrc37_get_collection_approvals::Response {
     let mut response = Vec::new();
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     let mut all_approvals: Vec<icrc37_get_collection_approvals::CollectionApproval> =
diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index 87283a4..f757748 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -184,7 +184,7 @@ pub fn icrc7_token_metadata(
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -218,7 +218,7 @@ pub fn icrc7_owner_of(token_ids: icrc7::icrc7_owner_of::Args) -> icrc7::icrc7_ow
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -244,7 +244,7 @@ pub fn icrc7_balance_of(
 
     if accounts.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -290,7 +290,7 @@ pub fn icrc7_tokens(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
         tokens.sort();
@@ -333,7 +333,7 @@ pub fn icrc7_tokens_of(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
         tokens.sort();
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 4a3eef3..84d6e5a 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -128,7 +128,7 @@ fn approve_token(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let memo_clone = arg.approval_info.memo.clone();
 
@@ -306,7 +306,7 @@ fn approve_collection(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let would_exceed_max_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
         collection_approvals
@@ -407,7 +407,7 @@ fn icrc37_revoke_token_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
@@ -543,7 +543,7 @@ fn icrc37_revoke_collection_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 6c780c3..4921b71 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -135,7 +135,7 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
         )
     });
 
-    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap();
+    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX);
 
     if atomic_batch_transfers && args.len() > max_batch_size {
         return vec![Some(Err(
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index c548667..ca5f32a 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -14,7 +14,7 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
             })
             .0,
         )
-        .unwrap();
+        .unwrap_or(usize::MAX);
 
         trace(&format!("Memo Size: {}", memo.len()));
         trace(&format!("Max Memo Size: {}", max_memo_size));
-- 
2.43.0


From 99f0b08ed777b771f64b0ae605fd34a88891ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:07 +0000
Subject: [PATCH 45/46] fix: the pages of get_all_uploads do not depend on the
 layout of the map, and numbers beyond the word size are not taken for others

---
 src/core_nft/src/updates/management.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 9c00b4e..2aecbc1 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -597,17 +597,21 @@ pub fn get_all_uploads(
     take: Option<Nat>,
 ) -> management::get_all_uploads::Response {
     trace(&format!("prev: {:?}, take: {:?}", prev, take));
-    let all_uploads = read_state(|state| state.internal_filestorage.clone());
-    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
-    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
+    // in the order of the paths, so that the pages do not depend on the layout of the map
+    let mut all_uploads: Vec<(String, UploadState)> = read_state(|state| {
+        state
+            .internal_filestorage
+            .map
+            .iter()
+            .map(|(path, status)| (path.clone(), status.state.clone()))
+            .collect()
+    });
+    all_uploads.sort_by(|a, b| a.0.cmp(&b.0));
+    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(usize::MAX);
+    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(usize::MAX);
     trace(&format!("start: {:?}, end: {:?}", start, end));
-    let filtered_uploads: HashMap<String, UploadState> = all_uploads
-        .map
-        .iter()
-        .skip(start)
-        .take(end)
-        .map(|(path, status)| (path.clone(), status.state.clone()))
-        .collect();
+    let filtered_uploads: HashMap<String, UploadState> =
+        all_uploads.into_iter().skip(start).take(end).collect();
 
     Ok(filtered_uploads)
 }
-- 
2.43.0


From ec5cbdd29c04224bb8fff5a5b9db5825ffb92241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:12 +0000
Subject: [PATCH 46/46] fix: storage and archive canisters are funded after an
 upgrade as before it

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 12 +++++++++++-
 src/core_nft/src/types/fund_manager.rs     |  8 ++++++++
 src/core_nft/src/types/sub_canister.rs     |  5 +++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 6802591..e4f70ec 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,6 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
+use crate::types::fund_manager::resume_funding;
 use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
@@ -65,7 +66,16 @@ fn post_upgrade(args: Args) {
             state.env.set_commit_hash(upgrade_args.commit_hash);
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
-            init_canister(state.clone());
+            state.data.sub_canister_manager.resume_funding();
+            resume_funding(
+                &mut icrc3
+                    .blockchain
+                    .archive_canister_manager
+                    .write()
+                    .unwrap()
+                    .sub_canister_manager,
+            );
+            init_canister(state);
             replace_icrc3(icrc3);
             start_default_archive_job();
             certify_all_assets();
diff --git a/src/core_nft/src/types/fund_manager.rs b/src/core_nft/src/types/fund_manager.rs
index e69fcb9..f94aa86 100644
--- a/src/core_nft/src/types/fund_manager.rs
+++ b/src/core_nft/src/types/fund_manager.rs
@@ -7,6 +7,7 @@ use canfund::{
     operations::fetch::FetchCyclesBalanceFromCanisterStatus,
     FundManager,
 };
+use bity_ic_subcanister_manager::{Canister, SubCanisterManager};
 use std::sync::Arc;
 
 use crate::utils::trace;
@@ -41,3 +42,10 @@ pub fn add_canisters_to_fund_manager(
 
     fund_manager.start();
 }
+
+/// Goes on funding the canisters of a manager read from stable memory, which keeps neither the configuration nor the timer.
+pub fn resume_funding<T: Canister + Clone + Send>(manager: &mut SubCanisterManager<T>) {
+    let canister_ids = manager.list_canisters_ids();
+    add_canisters_to_fund_manager(&mut manager.fund_manager, canister_ids);
+    manager.funding_config = manager.fund_manager.get_options();
+}
diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index b355e63..db71bc6 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use crate::types::fund_manager::resume_funding;
 use crate::types::management::{cancel_upload, finalize_upload, init_upload, store_chunk};
 use crate::utils::trace;
 use bity_ic_storage_canister_c2c::{
@@ -68,6 +69,10 @@ impl StorageSubCanisterManager {
         }
     }
 
+    pub fn resume_funding(&mut self) {
+        resume_funding(&mut self.sub_canister_manager);
+    }
+
     pub async fn init_upload(
         &mut self,
         data: init_upload::Args,
-- 
2.43.0

