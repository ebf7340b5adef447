From be08555adbcdea0b448c3822a0b858687513872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 01/40] fix: order versions of the same slot by write version
 when promoting

promote_slot_commitment compared only the slot, so a newer write of the same
slot never replaced an older one that had already been confirmed.
---
 account_storage/src/account_data_by_commitment.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..0e5c169 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -184,6 +184,12 @@ impl AccountDataByCommitment {
         }
         updated
     }
+
+    // several versions of an account can share a slot, they are ordered by write version
+    fn is_older(current: &AccountData, new: &AccountData) -> bool {
+        (current.updated_slot, current.write_version) < (new.updated_slot, new.write_version)
+    }
+
     // this method will promote processed account to confirmed account to finalized account
     // returns promoted account
     pub fn promote_slot_commitment(
@@ -199,7 +205,7 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if Self::is_older(&prev_account_data, account_data) {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +222,7 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if Self::is_older(confirmed_account, account_data) {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +233,7 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if Self::is_older(&prev_account_data, account_data) {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
-- 
2.43.0


From 6e9ce77b4a496e0effda26720a6811e72244fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 02/40] fix: slot status must not regress and must learn the
 slot's parent

process_slot_data overwrote a finalized slot's status when a confirmed
notification arrived later (also for ancestors of a confirmed slot), and it
never recorded the parent of a slot that already had account updates, so its
ancestors were not promoted with it.
---
 account_storage/src/inmemory_account_store.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..89080e6 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -356,14 +356,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 current_slot = None;
                 match lk.get_mut(&slot) {
                     Some(status) => {
-                        if status.commitment == commitment {
-                            // slot already processed for the commitment
-                            break;
-                        }
-                        status.commitment = commitment;
+                        let parent_already_known = status.parent.is_some();
                         if parent.is_some() {
                             status.parent = parent;
                         }
+                        let is_new_link = parent.is_some() && !parent_already_known;
+                        if status.commitment >= commitment && !is_new_link {
+                            // slot already processed for the commitment
+                            break;
+                        }
+                        status.commitment = status.commitment.max(commitment);
                         for account in &status.accounts_updated {
                             match writable_accounts.entry(*account) {
                                 std::collections::hash_map::Entry::Occupied(_) => {
-- 
2.43.0


From 44a8aefaae3d2479fcac5ff206d98af73b5dbee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 03/40] fix: promote ancestors of slots that have no account
 updates

process_slot_data stopped at a notified slot without status, leaving its
ancestors unpromoted, and gave unknown ancestors the parent of the notified
slot.
---
 account_storage/src/inmemory_account_store.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 89080e6..1ef0626 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -395,18 +395,21 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         } else if commitment == Commitment::Finalized {
                             log::debug!("slot status not found for {} for commitment finalized, could be normal if the entry is already removed or during startup", slot,);
                         }
-                        if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Processed
-                        {
-                            // add status for processed slot
+                        // parent is only known for the notified slot
+                        if parent.is_some() || commitment == Commitment::Confirmed {
                             let status = SlotStatus {
                                 commitment,
                                 accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
+                                parent,
                             };
                             lk.insert(slot, status);
                         }
-                        break;
+                        if commitment == Commitment::Confirmed
+                            || commitment == Commitment::Finalized
+                        {
+                            // slot without any account update, its parents may still have some
+                            current_slot = parent.map(|parent_slot| (parent_slot, None));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 45ab9d20d32b51fd9cc00485b8ceaf1cabd0deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 04/40] fix: keep the commitment of an update and of its slot
 apart

A confirmed update of a slot seen as processed was stored as processed only,
and the first update of a slot set the commitment of the whole slot, so that
the later slot notification was taken as already handled and its ancestors
were never promoted.
---
 account_storage/src/inmemory_account_store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 1ef0626..716cf05 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -120,7 +120,8 @@ impl InmemoryAccountStore {
                 lk.insert(
                     slot,
                     SlotStatus {
-                        commitment,
+                        // only slot notifications can tell that whole slot was confirmed or finalized
+                        commitment: Commitment::Processed,
                         accounts_updated: BTreeSet::new(),
                         parent: None,
                     },
@@ -132,7 +133,7 @@ impl InmemoryAccountStore {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                slot_status.commitment.max(commitment)
             }
             Commitment::Finalized => commitment,
         }
-- 
2.43.0


From 881c4267576624d04ddb4ea1c7080e00bd08a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 05/40] fix: decide an update's commitment while its account is
 locked

A new account was stored at the commitment of the update even when its slot
was already confirmed or finalized, and a slot confirmed between reading its
status and storing the update never promoted that update.
---
 account_storage/src/inmemory_account_store.rs | 32 +++++--------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 716cf05..fa9058d 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -139,25 +139,6 @@ impl InmemoryAccountStore {
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -215,14 +196,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the slot is already confirmed, while the account is locked so that
+                // a slot which is being confirmed concurrently will promote this update
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
@@ -246,14 +228,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    // check if the slot is already confirmed
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From 3702b52321c39bd07abffd6f7b270b9f10de2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 06/40] fix: program queries without filters must not return
 closed accounts

get_program_accounts skipped accounts without lamports only when filters were
given, so closed accounts were returned and even written to snapshots.
---
 account_storage/src/inmemory_account_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index fa9058d..42da6df 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -174,7 +174,9 @@ impl InmemoryAccountStore {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
                     // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From 958c46581c441e0c66ca53b3dc53e8ddef129771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 07/40] fix: finalizing a closing must not drop newer or
 unrelated versions

Finalizing a closed or re-owned account deleted it even when it had been
created again in a newer slot, removed it from the index of its previous owner
although a newer version is owned by it again, and an older finalized account
that did not replace the current one could still delete it.
---
 .../src/account_data_by_commitment.rs         | 21 +++++++++-
 account_storage/src/inmemory_account_store.rs | 38 ++++++++++++++-----
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 0e5c169..93c64b6 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -5,7 +5,7 @@ use lite_account_manager_common::{
     account_filter::AccountFilterType,
     commitment::Commitment,
 };
-use solana_sdk::clock::Slot;
+use solana_sdk::{clock::Slot, pubkey::Pubkey};
 
 #[derive(Default)]
 pub struct AccountDataByCommitment {
@@ -186,7 +186,7 @@ impl AccountDataByCommitment {
     }
 
     // several versions of an account can share a slot, they are ordered by write version
-    fn is_older(current: &AccountData, new: &AccountData) -> bool {
+    pub fn is_older(current: &AccountData, new: &AccountData) -> bool {
         (current.updated_slot, current.write_version) < (new.updated_slot, new.write_version)
     }
 
@@ -281,6 +281,23 @@ impl AccountDataByCommitment {
         }
     }
 
+    pub fn has_newer_version_than(&self, account_data: &AccountData) -> bool {
+        self.versions()
+            .any(|version| Self::is_older(account_data, version))
+    }
+
+    pub fn has_version_owned_by(&self, owner: &Pubkey) -> bool {
+        self.versions()
+            .any(|version| version.account.owner == *owner)
+    }
+
+    fn versions(&self) -> impl Iterator<Item = &AccountData> {
+        self.processed_accounts
+            .values()
+            .chain(self.confirmed_account.iter())
+            .chain(self.finalized_account.iter())
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 42da6df..96aca38 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -73,6 +73,7 @@ impl InmemoryAccountStore {
     // returns true if entry needs to be deleted
     fn update_owner_delete_if_necessary(
         &self,
+        account_by_commitment: &AccountDataByCommitment,
         prev_account_data: &AccountData,
         new_account_data: &AccountData,
         account_index: AccountIndex,
@@ -81,20 +82,30 @@ impl InmemoryAccountStore {
         assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
         if prev_account_data.account.owner != new_account_data.account.owner {
             if commitment == Commitment::Finalized {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
+                // account is deleted or if new does not satisfies the filter criterias
+                // keep it if it was already created again in a newer slot
+                let to_delete = (Self::is_deleted(new_account_data)
+                    || !self.satisfies_filters(new_account_data))
+                    && !account_by_commitment.has_newer_version_than(new_account_data);
+
+                // previous owner may still own the account in a slot which is not finalized
+                if to_delete
+                    || !account_by_commitment.has_version_owned_by(&prev_account_data.account.owner)
                 {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
+                    match self
+                        .accounts_by_owner
+                        .entry(prev_account_data.account.owner)
+                    {
+                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
+                            occ.get_mut().write().unwrap().remove(&account_index);
+                        }
+                        dashmap::mapref::entry::Entry::Vacant(_) => {
+                            // do nothing
+                        }
                     }
                 }
 
-                // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
+                if to_delete {
                     return true;
                 }
             }
@@ -210,8 +221,14 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
+                    // an older finalized account does not replace the current one
+                    let prev_account = prev_account.filter(|prev_account| {
+                        commitment != Commitment::Finalized
+                            || AccountDataByCommitment::is_older(prev_account, &account_data)
+                    });
                     if let Some(prev_account) = prev_account {
                         if self.update_owner_delete_if_necessary(
+                            &acc_by_commitment,
                             &prev_account,
                             &account_data,
                             index,
@@ -429,6 +446,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                     if (prev_account_data.account.owner != account_data.account.owner
                         || account_data.account.lamports == 0)
                         && self.update_owner_delete_if_necessary(
+                            &writable_lk,
                             &prev_account_data,
                             &account_data,
                             writable_account_index,
-- 
2.43.0


From 3aa6b06853d5930c5f4e3ae16b0a123a2215e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 08/40] fix: index an account under its owner with every update

An owner was only indexed when it differed from the version at the update's
commitment, so accounts updated at confirmed before being confirmed, or not
matching the filters on their first write, were missing in program queries.
---
 account_storage/src/inmemory_account_store.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 96aca38..5b7fed8 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -56,6 +56,14 @@ impl InmemoryAccountStore {
     }
 
     fn add_account_owner(&self, account_index: AccountIndex, owner: Pubkey) {
+        let is_already_added = self
+            .accounts_by_owner
+            .get(&owner)
+            .map(|accounts| accounts.read().unwrap().contains(&account_index))
+            .unwrap_or(false);
+        if is_already_added {
+            return;
+        }
         match self.accounts_by_owner.entry(owner) {
             dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                 occ.get_mut().write().unwrap().insert(account_index);
@@ -221,6 +229,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
+                    if !Self::is_deleted(&account_data) && self.satisfies_filters(&account_data) {
+                        self.add_account_owner(index, account_data.account.owner);
+                    }
                     // an older finalized account does not replace the current one
                     let prev_account = prev_account.filter(|prev_account| {
                         commitment != Commitment::Finalized
-- 
2.43.0


From fe6e42441fe2acce70833445b376b804fd981fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 09/40] fix: deadlock between updating an account and
 finalizing its closing

process_slot_data removed a closed account from the pubkey index while holding
the account lock, update_account takes these locks in the opposite order.
---
 account_storage/src/inmemory_account_store.rs | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 5b7fed8..ad657ee 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -125,6 +125,32 @@ impl InmemoryAccountStore {
         false
     }
 
+    // deletes the account if it is still deleted, or not tracked anymore, in its latest version
+    fn delete_account_if_necessary(&self, pubkey: Pubkey, account_index: AccountIndex) {
+        if let dashmap::mapref::entry::Entry::Occupied(occ) =
+            self.pubkey_to_account_index.entry(pubkey)
+        {
+            if *occ.get() != account_index {
+                return;
+            }
+            let lk = self.accounts_store.read().unwrap();
+            let mut account_by_commitment = lk[account_index].write().unwrap();
+            let to_delete = account_by_commitment
+                .finalized_account
+                .as_ref()
+                .map(|finalized_account| {
+                    (Self::is_deleted(finalized_account)
+                        || !self.satisfies_filters(finalized_account))
+                        && !account_by_commitment.has_newer_version_than(finalized_account)
+                })
+                .unwrap_or(false);
+            if to_delete {
+                account_by_commitment.delete();
+                occ.remove_entry();
+            }
+        }
+    }
+
     // commitment for which status was updated
     fn add_account_index_to_slot_status(
         &self,
@@ -445,6 +471,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
         };
 
         let mut updated_accounts = vec![];
+        let mut accounts_to_delete = vec![];
 
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
@@ -464,14 +491,20 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             commitment,
                         )
                     {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
-                        writable_lk.delete();
+                        accounts_to_delete.push((account_data.pubkey, writable_account_index));
                     }
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
         }
+        drop(lk);
+
+        // delete without holding any lock, because locks are taken in the same order as in
+        // update_account i.e pubkey_to_account_index -> accounts_store -> account
+        for (pubkey, account_index) in accounts_to_delete {
+            self.delete_account_if_necessary(pubkey, account_index);
+        }
         updated_accounts
     }
 
-- 
2.43.0


From 9100ac874135f18c434082f0335f929f80e90a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 10/40] fix: compare memcmp filters by their decoded bytes

Only the first filter of a program was stored as bytes and queried filters were
never decoded, so a base58 or base64 filter was not found by the very same
filter, and a query was only found when its first sorted filters were equal to
the stored ones. A malformed encoding panicked the thread matching accounts.
---
 common/src/account_filter.rs      | 22 ++++++++-----
 common/src/simple_filter_store.rs | 55 +++++++++++++------------------
 2 files changed, 37 insertions(+), 40 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9f07602..d61dfbf 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -22,14 +22,17 @@ pub struct MemcmpFilter {
 
 impl MemcmpFilter {
     pub fn bytes(&self) -> Vec<u8> {
+        self.try_bytes().expect("Memcmp data decoding should work")
+    }
+
+    // returns None if the encoded data is malformed
+    pub fn try_bytes(&self) -> Option<Vec<u8>> {
         match &self.data {
-            MemcmpFilterData::Bytes(bytes) => bytes.clone(),
-            MemcmpFilterData::Base58(b58) => bs58::decode(b58)
-                .into_vec()
-                .expect("Base58 decoding should work"),
-            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
-                .decode(b64)
-                .expect("B64 decoding should work"),
+            MemcmpFilterData::Bytes(bytes) => Some(bytes.clone()),
+            MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec().ok(),
+            MemcmpFilterData::Base64(b64) => {
+                base64::engine::general_purpose::STANDARD.decode(b64).ok()
+            }
         }
     }
 
@@ -45,7 +48,10 @@ impl MemcmpFilter {
             }
             data[offset..offset + bytes.len()] == bytes[..]
         } else {
-            let bytes = self.bytes();
+            let Some(bytes) = self.try_bytes() else {
+                // malformed filter does not match any data
+                return false;
+            };
             let offset = self.offset as usize;
             if offset > data.len() {
                 return false;
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..a838459 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,6 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
+    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData},
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -44,7 +44,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(Self::normalize(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -59,23 +59,7 @@ impl SimpleFilterStore {
                             .filters
                             .clone()
                             .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
-                                                })
-                                            },
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
+                                ProgramIdFilters::ByFilterType(vec![Self::normalize(&filters)])
                             }),
                     );
                 }
@@ -83,6 +67,23 @@ impl SimpleFilterStore {
         }
     }
 
+    // always save and compare filters in bytes
+    fn normalize(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+        filters
+            .iter()
+            .map(|filter| match filter {
+                AccountFilterType::Datasize(_) => filter.clone(),
+                AccountFilterType::Memcmp(memcmp) => match memcmp.try_bytes() {
+                    Some(bytes) => AccountFilterType::Memcmp(MemcmpFilter {
+                        offset: memcmp.offset,
+                        data: MemcmpFilterData::Bytes(bytes),
+                    }),
+                    None => filter.clone(),
+                },
+            })
+            .collect()
+    }
+
     pub fn contains_account(&self, account_pk: Pubkey) -> bool {
         self.accounts.contains(&account_pk)
     }
@@ -100,20 +101,10 @@ impl SimpleFilterStore {
                         ProgramIdFilters::AllowAll => true,
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
-                                // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
+                                let filter_to_match = Self::normalize(filter_to_match);
+                                // more restrictive than at least one of the stored filters
                                 filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
+                                    stored_filters.is_subset(&filter_to_match)
                                 })
                             } else {
                                 false
-- 
2.43.0


From ed9f45b3dc3dfabe3bd58133f90133e134419d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 11/40] fix: report malformed account filter configurations
 instead of panicking

---
 common/src/account_filter.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index d61dfbf..bdf5787 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -1,6 +1,6 @@
 use base64::Engine;
 use itertools::Itertools;
-use serde::{ser::SerializeMap, Deserialize, Serialize};
+use serde::{de::Error, ser::SerializeMap, Deserialize, Serialize};
 use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 use std::str::FromStr;
@@ -116,28 +116,28 @@ impl<'de> Deserialize<'de> for AccountFilter {
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
 
+        let parse_pubkey = |value: &serde_json::value::Value| {
+            let pubkey = value
+                .as_str()
+                .ok_or_else(|| D::Error::custom("pubkey should be a string"))?;
+            Pubkey::from_str(pubkey)
+                .map_err(|e| D::Error::custom(format!("invalid pubkey {pubkey} : {e}")))
+        };
+
         let accounts = match json.get("accounts") {
             Some(accounts) => match accounts.as_array() {
                 Some(accounts_array) => accounts_array
                     .iter()
-                    .map(|v| {
-                        Pubkey::from_str(v.as_str().expect("should be string"))
-                            .expect("Pubkey should be valid")
-                    })
-                    .collect_vec(),
+                    .map(parse_pubkey)
+                    .collect::<Result<Vec<_>, _>>()?,
                 None => vec![],
             },
             None => vec![],
         };
-        let program_id = json.get("programId").map(|program_id| {
-            Pubkey::from_str(program_id.as_str().expect("should be string"))
-                .expect("Pubkey should be valid")
-        });
+        let program_id = json.get("programId").map(parse_pubkey).transpose()?;
 
         let filters = match json.get("filters") {
-            Some(filters) => {
-                serde_json::from_value(filters.clone()).expect("account filters not deserializable")
-            }
+            Some(filters) => serde_json::from_value(filters.clone()).map_err(D::Error::custom)?,
             None => None,
         };
         Ok(Self {
-- 
2.43.0


From d6af76099beca2c21ab4dde8f28375cb7bbad0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 12/40] fix: an undecodable RPC memcmp filter must not match
 every account

---
 common/src/account_filter.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index bdf5787..287f549 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -181,11 +181,20 @@ impl From<&RpcFilterType> for AccountFilterType {
         match value {
             RpcFilterType::DataSize(size) => AccountFilterType::Datasize(*size),
             RpcFilterType::Memcmp(memcmp) => {
-                let bytes = memcmp.bytes().map(|x| (*x).clone()).unwrap_or_default();
-                let offset = memcmp.offset as u64;
+                let data = match memcmp.bytes() {
+                    Some(bytes) => MemcmpFilterData::Bytes((*bytes).clone()),
+                    // data which could not be decoded is kept as is, so that the filter does not match anything
+                    None => match &memcmp.bytes {
+                        MemcmpEncodedBytes::Binary(data) | MemcmpEncodedBytes::Base58(data) => {
+                            MemcmpFilterData::Base58(data.clone())
+                        }
+                        MemcmpEncodedBytes::Base64(data) => MemcmpFilterData::Base64(data.clone()),
+                        MemcmpEncodedBytes::Bytes(bytes) => MemcmpFilterData::Bytes(bytes.clone()),
+                    },
+                };
                 AccountFilterType::Memcmp(MemcmpFilter {
-                    offset,
-                    data: MemcmpFilterData::Bytes(bytes),
+                    offset: memcmp.offset as u64,
+                    data,
                 })
             }
             RpcFilterType::TokenAccountState => {
-- 
2.43.0


From fe7b551994a5afd09cea9bcf8e125c294f7b64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 13/40] fix: accounts loaded on demand must be covered by the
 filters

An account requested on demand was subscribed but never added to the
filters, so a storage using them refused it, and every request for an
account that does not exist subscribed and loaded it again.
---
 accounts_on_demand/src/accounts_on_demand.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..7afe9f0 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -104,6 +104,8 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 program_id: None,
                                 filters: None,
                             }];
+                            // the storage has to accept the account from now on
+                            self.mutable_filters.add_account_filters(&account_filter);
                             self.accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
                                 .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-- 
2.43.0


From 3c299ccac7097cf16279ffb6db2116a565331724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 14/40] fix: a failed or slow load of an account must not be
 taken for a finished one

When the source failed to subscribe to or load an account, the account
stayed marked as loading: later requests waited ten seconds and then
reported it as absent, and it was never loaded again. A wait that timed
out, or woke up spuriously, was also treated as a finished load.
---
 accounts_on_demand/src/accounts_on_demand.rs | 106 +++++++++++--------
 1 file changed, 62 insertions(+), 44 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 7afe9f0..46c342f 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -14,7 +14,7 @@ use std::sync::Condvar;
 use std::{
     collections::{BTreeMap, HashMap, HashSet},
     sync::{Arc, Mutex},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 lazy_static::lazy_static! {
@@ -27,11 +27,16 @@ lazy_static::lazy_static! {
 
 type GpaAccountKey = (Pubkey, Vec<AccountFilterType>);
 
+// how long a request waits for another request that is loading the same accounts
+const LOADING_TIMEOUT: Duration = Duration::from_secs(10);
+
 pub struct AccountsOnDemand {
     accounts_source: Arc<dyn AccountsSourceInterface>,
     mutable_filters: Arc<MutableFilterStore>,
     accounts_storage: Arc<dyn AccountStorageInterface>,
     accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Condvar>>>>,
+    // accounts that could not be loaded, the next request has to try again
+    accounts_not_loaded: Arc<Mutex<HashSet<Pubkey>>>,
     gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
 }
 
@@ -46,9 +51,31 @@ impl AccountsOnDemand {
             mutable_filters,
             accounts_storage: accounts_storage.clone(),
             accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
+            accounts_not_loaded: Arc::new(Mutex::new(HashSet::new())),
             gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
         }
     }
+
+    fn load_account(&self, account_pk: Pubkey) -> Result<(), AccountLoadingError> {
+        log::debug!("subscribing to accounts update : {}", account_pk);
+        let mut hash_set = HashSet::new();
+        hash_set.insert(account_pk);
+        self.accounts_source
+            .subscribe_accounts(hash_set)
+            .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+
+        // save snapshot
+        let account_filter = vec![AccountFilter {
+            accounts: vec![account_pk],
+            program_id: None,
+            filters: None,
+        }];
+        // the storage has to accept the account from now on
+        self.mutable_filters.add_account_filters(&account_filter);
+        self.accounts_source
+            .save_snapshot(self.accounts_storage.clone(), account_filter)
+            .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)
+    }
 }
 
 impl AccountStorageInterface for AccountsOnDemand {
@@ -73,54 +100,45 @@ impl AccountStorageInterface for AccountsOnDemand {
                 // account does not exist in account store
                 // first check if we have already subscribed to the required account
                 // This is to avoid resetting geyser subscription because of accounts that do not exists.
+                let deadline = Instant::now() + LOADING_TIMEOUT;
                 let mut lk = self.accounts_in_loading.lock().unwrap();
-                match lk.get(&account_pk).cloned() {
-                    Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
-                        }
+                // wait until nobody is loading the account
+                while let Some(loading_account) = lk.get(&account_pk).cloned() {
+                    let timeout = deadline.saturating_duration_since(Instant::now());
+                    if timeout.is_zero() {
+                        return Err(AccountLoadingError::OperationTimeOut);
                     }
-                    None => {
-                        // account is not loading
-                        if self.mutable_filters.contains_account(account_pk) {
-                            // account was already tried to be loaded but does not exists
-                            Ok(None)
+                    lk = loading_account.wait_timeout(lk, timeout).unwrap().0;
+                }
+                // account is not loading
+                if self.mutable_filters.contains_account(account_pk)
+                    && !self.accounts_not_loaded.lock().unwrap().contains(&account_pk)
+                {
+                    drop(lk);
+                    // account was already tried to be loaded, if it is not there it does not exist
+                    self.accounts_storage.get_account(account_pk, commitment)
+                } else {
+                    // update account loading map
+                    // create a notify for accounts under loading
+                    lk.insert(account_pk, Arc::new(Condvar::new()));
+                    drop(lk);
+                    let loaded = self.load_account(account_pk);
+                    // update loading lock
+                    {
+                        let mut write_lock = self.accounts_in_loading.lock().unwrap();
+                        if loaded.is_ok() {
+                            self.accounts_not_loaded.lock().unwrap().remove(&account_pk);
                         } else {
-                            // update account loading map
-                            // create a notify for accounts under loading
-                            lk.insert(account_pk, Arc::new(Condvar::new()));
-                            log::debug!("subscribing to accounts update : {}", account_pk);
-                            let mut hash_set = HashSet::new();
-                            hash_set.insert(account_pk);
-                            self.accounts_source
-                                .subscribe_accounts(hash_set)
-                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
-                            drop(lk);
-
-                            // save snapshot
-                            let account_filter = vec![AccountFilter {
-                                accounts: vec![account_pk],
-                                program_id: None,
-                                filters: None,
-                            }];
-                            // the storage has to accept the account from now on
-                            self.mutable_filters.add_account_filters(&account_filter);
-                            self.accounts_source
-                                .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                            // update loading lock
-                            {
-                                let mut write_lock = self.accounts_in_loading.lock().unwrap();
-                                let notify = write_lock.remove(&account_pk);
-                                drop(write_lock);
-                                if let Some(notify) = notify {
-                                    notify.notify_all();
-                                }
-                            }
-                            self.accounts_storage.get_account(account_pk, commitment)
+                            self.accounts_not_loaded.lock().unwrap().insert(account_pk);
+                        }
+                        let notify = write_lock.remove(&account_pk);
+                        drop(write_lock);
+                        if let Some(notify) = notify {
+                            notify.notify_all();
                         }
                     }
+                    loaded?;
+                    self.accounts_storage.get_account(account_pk, commitment)
                 }
             }
         }
-- 
2.43.0


From 50f87acac016e3d8a7fe70b509fe10e354b22a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 15/40] fix: program queries must wait for the load of their
 accounts and retry a failed one

The filters of a program query count as covered before its accounts are
loaded, so a query made meanwhile returned a part of the accounts, and
after a failed load every later one returned nothing. A failed
subscription also left the query marked as loading for good.
---
 accounts_on_demand/src/accounts_on_demand.rs | 151 +++++++++++++------
 1 file changed, 101 insertions(+), 50 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 46c342f..2f3d96c 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -6,13 +6,14 @@ use lite_account_manager_common::{
     accounts_source_interface::AccountsSourceInterface,
     commitment::Commitment,
     mutable_filter_store::MutableFilterStore,
+    simple_filter_store::SimpleFilterStore,
     slot_info::SlotInfo,
 };
 use prometheus::{opts, register_int_gauge, IntGauge};
 use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
     sync::{Arc, Mutex},
     time::{Duration, Instant},
 };
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
         register_int_gauge!(opts!("lite_account_manager_number_of_program_filters_on_demand", "Number of program filters on demand")).unwrap();
 }
 
-type GpaAccountKey = (Pubkey, Vec<AccountFilterType>);
+type GpaAccountKey = (Pubkey, Option<Vec<AccountFilterType>>);
 
 // how long a request waits for another request that is loading the same accounts
 const LOADING_TIMEOUT: Duration = Duration::from_secs(10);
@@ -38,6 +39,10 @@ pub struct AccountsOnDemand {
     // accounts that could not be loaded, the next request has to try again
     accounts_not_loaded: Arc<Mutex<HashSet<Pubkey>>>,
     gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
+    // program accounts that were loaded here
+    gpa_loaded: Arc<Mutex<SimpleFilterStore>>,
+    // program accounts that could not be loaded, the next request has to try again
+    gpa_not_loaded: Arc<Mutex<BTreeSet<GpaAccountKey>>>,
 }
 
 impl AccountsOnDemand {
@@ -53,6 +58,8 @@ impl AccountsOnDemand {
             accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
             accounts_not_loaded: Arc::new(Mutex::new(HashSet::new())),
             gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
+            gpa_loaded: Arc::new(Mutex::new(SimpleFilterStore::default())),
+            gpa_not_loaded: Arc::new(Mutex::new(BTreeSet::new())),
         }
     }
 
@@ -76,6 +83,53 @@ impl AccountsOnDemand {
             .save_snapshot(self.accounts_storage.clone(), account_filter)
             .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)
     }
+
+    fn load_program_accounts(
+        &self,
+        account_filter: &AccountFilter,
+    ) -> Result<(), AccountLoadingError> {
+        if let Some(program_id) = account_filter.program_id {
+            self.accounts_source
+                .subscribe_program_accounts(program_id, account_filter.filters.clone())
+                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+        }
+        self.mutable_filters
+            .add_account_filters(&vec![account_filter.clone()]);
+
+        self.accounts_source
+            .save_snapshot(self.accounts_storage.clone(), vec![account_filter.clone()])
+            .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)
+    }
+
+    fn are_program_accounts_loaded(&self, account_filter: &AccountFilter) -> bool {
+        if self
+            .gpa_loaded
+            .lock()
+            .unwrap()
+            .contains_filter_internal(account_filter)
+        {
+            return true;
+        }
+        // filters that were there from the beginning, a filter set by a failed load does not count
+        self.mutable_filters.contains_filter(account_filter)
+            && !self
+                .gpa_not_loaded
+                .lock()
+                .unwrap()
+                .iter()
+                .any(|key| is_covered_by(account_filter, key))
+    }
+}
+
+// true if loading the accounts of the key also loads the accounts of the filter
+fn is_covered_by(account_filter: &AccountFilter, (program_id, filters): &GpaAccountKey) -> bool {
+    let mut store = SimpleFilterStore::default();
+    store.add_account_filter(&AccountFilter {
+        accounts: vec![],
+        program_id: Some(*program_id),
+        filters: filters.clone(),
+    });
+    store.contains_filter_internal(account_filter)
 }
 
 impl AccountStorageInterface for AccountsOnDemand {
@@ -112,7 +166,11 @@ impl AccountStorageInterface for AccountsOnDemand {
                 }
                 // account is not loading
                 if self.mutable_filters.contains_account(account_pk)
-                    && !self.accounts_not_loaded.lock().unwrap().contains(&account_pk)
+                    && !self
+                        .accounts_not_loaded
+                        .lock()
+                        .unwrap()
+                        .contains(&account_pk)
                 {
                     drop(lk);
                     // account was already tried to be loaded, if it is not there it does not exist
@@ -157,61 +215,54 @@ impl AccountStorageInterface for AccountsOnDemand {
         };
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
+        let deadline = Instant::now() + LOADING_TIMEOUT;
+        let mut lk = self.gpa_in_loading.lock().unwrap();
+        // wait until nobody is loading the accounts, their filters are already set meanwhile
+        while let Some(loading_account) = lk
+            .iter()
+            .find(|(key, _)| is_covered_by(&account_filter, key))
+            .map(|(_, loading_account)| loading_account.clone())
+        {
+            let timeout = deadline.saturating_duration_since(Instant::now());
+            if timeout.is_zero() {
+                // todo replace with error
+                log::error!("gPA on program : {}", program_id.to_string());
+                return Err(AccountLoadingError::OperationTimeOut);
+            }
+            lk = loading_account.wait_timeout(lk, timeout).unwrap().0;
+        }
+        if self.are_program_accounts_loaded(&account_filter) {
+            drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
-            let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk
-                .get(&(program_id, filters.clone().unwrap_or_default()))
-                .cloned()
+            // update account loading map
+            // create a notify for accounts under loading
+            let key = (program_id, filters.clone());
+            lk.insert(key.clone(), Arc::new(Condvar::new()));
+            drop(lk);
+            let loaded = self.load_program_accounts(&account_filter);
+            // update loading lock
             {
-                Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok(_) => self.accounts_storage.get_program_accounts(
-                            program_id,
-                            filters.clone(),
-                            commitment,
-                        ),
-                        Err(_timeout) => {
-                            // todo replace with error
-                            log::error!("gPA on program : {}", program_id.to_string());
-                            Err(AccountLoadingError::OperationTimeOut)
-                        }
-                    }
+                let mut write_lock = self.gpa_in_loading.lock().unwrap();
+                if loaded.is_ok() {
+                    self.gpa_loaded
+                        .lock()
+                        .unwrap()
+                        .add_account_filter(&account_filter);
+                } else {
+                    self.gpa_not_loaded.lock().unwrap().insert(key.clone());
                 }
-                None => {
-                    // update account loading map
-                    // create a notify for accounts under loading
-                    lk.insert(
-                        (program_id, filters.clone().unwrap_or_default()),
-                        Arc::new(Condvar::new()),
-                    );
-                    self.accounts_source
-                        .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
-                    drop(lk);
-                    self.mutable_filters
-                        .add_account_filters(&vec![account_filter.clone()]);
-
-                    self.accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                    // update loading lock
-                    {
-                        let mut write_lock = self.gpa_in_loading.lock().unwrap();
-                        let notify =
-                            write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
-                        drop(write_lock);
-                        if let Some(notify) = notify {
-                            notify.notify_all();
-                        }
-                    }
-                    self.accounts_storage
-                        .get_program_accounts(program_id, filters, commitment)
+                let notify = write_lock.remove(&key);
+                drop(write_lock);
+                if let Some(notify) = notify {
+                    notify.notify_all();
                 }
             }
+            loaded?;
+            self.accounts_storage
+                .get_program_accounts(program_id, filters, commitment)
         }
     }
 
-- 
2.43.0


From 443f6c5f3004253a983ff8c9f116797a6c962400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 16/40] fix: token accounts sharing a pubkey prefix must not be
 taken for each other

An update of any account whose pubkey starts with the same four bytes as a
stored token account counted as its deletion, and deleting a token account
lost all the others with the same prefix.
---
 .../src/inmemory_token_account_storage.rs     | 42 +++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..93a376e 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -38,20 +38,12 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
-                let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
-                            == *pubkey
-                        {
-                            return Some(*index);
-                        }
-                    }
-                    None
-                } else {
-                    Some(value[0])
-                }
+                // several pubkeys may share the same prefix
+                let lk = self.token_accounts.read().unwrap();
+                occ.get().iter().copied().find(|index| {
+                    TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                        == *pubkey
+                })
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
@@ -127,8 +119,9 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -144,12 +137,17 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
-                let binary = write_lk.get_mut(index as usize).unwrap();
-                if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
-                    TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
-                    *binary = deleted_account;
-                    return;
+            // other accounts may share the same prefix
+            let position = occ.get().iter().position(|index| {
+                TokenAccount::get_pubkey_from_binary(write_lk.get(*index as usize).unwrap())
+                    == *pubkey
+            });
+            if let Some(position) = position {
+                let index = occ.get_mut().swap_remove(position);
+                TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
+                *write_lk.get_mut(index as usize).unwrap() = deleted_account;
+                if occ.get().is_empty() {
+                    occ.remove();
                 }
             }
         }
-- 
2.43.0


From dd024ce512ebda602b5fa81bc5ee654fbc42b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 17/40] fix: remove closed multisig accounts of the token
 programs

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..8d670ac 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -389,7 +389,7 @@ impl TokenProgramAccountsStorage {
                     TOKEN_MINTS_IN_MEMORY.dec();
                     self.mints_by_index.remove(&index);
                     self.accounts_index_by_mint.remove(&index);
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
+                } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
                     self.token_accounts_storage.delete(&account_pk);
-- 
2.43.0


From d283d90a7e0e82b50912d4dd7694679032869a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 18/40] fix: remember the parent of a slot announced before its
 first token account

The accounts of its ancestors were missing from the confirmed view and
lost when a later slot was finalized.
---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 8d670ac..2ad10c9 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -140,7 +140,7 @@ impl ProcessedAccountStore {
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: None,
+                        slot_parent: Some(slot_info.parent),
                     },
                 );
             }
-- 
2.43.0


From 87f20756170424111106767c9face96ac382111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 19/40] fix: store token 2022 accounts and mints with
 extensions

Unpacking the base state requires its exact length, so every account with
extensions was refused.
---
 token_account_storage/src/token_program_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..92c50c3 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -94,8 +94,9 @@ pub fn get_token_program_account_type(
         match type_account {
             0 => {
                 //mint
+                // the extensions follow the base state
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -110,8 +111,9 @@ pub fn get_token_program_account_type(
                 }))
             }
             1 => {
+                // the extensions follow the base state
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From 9d29bc83e3be6e6add8b15dba615eb63f67d7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 20/40] fix: keep every signer of a multisig at its position

---
 token_account_storage/src/token_program_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 92c50c3..c50accc 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -162,7 +162,7 @@ pub fn get_token_program_account_type(
                         signers: multi_sig
                             .signers
                             .iter()
-                            .filter(|x| **x != Pubkey::default())
+                            .take(multi_sig.n as usize)
                             .copied()
                             .collect_vec(),
                     },
@@ -234,7 +234,7 @@ pub fn get_token_program_account_type(
                     signers: multi_sig
                         .signers
                         .iter()
-                        .filter(|x| **x != Pubkey::default())
+                        .take(multi_sig.n as usize)
                         .copied()
                         .collect_vec(),
                 },
-- 
2.43.0


From 6f2b9e469ad7abd70fa7e3e3fec4b043e09a1a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 21/40] fix: closing a token account that is not finalized yet
 was ignored

---
 token_account_storage/src/inmemory_token_storage.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 2ad10c9..8dba344 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -123,6 +123,12 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn contains(&self, account_pk: &Pubkey) -> bool {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .any(|slot| slot.processed_accounts.contains_key(account_pk))
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -409,6 +415,7 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
+            || self.processed_storage.contains(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
-- 
2.43.0


From 88ec437e34b6814c6156124dd80a01b22e7d23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 22/40] fix: index a token account under its new owner and mint
 when they change

---
 .../src/inmemory_token_storage.rs             | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 8dba344..b2b2508 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -342,10 +342,21 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
+                let previous = self
+                    .token_accounts_storage
+                    .get_by_pubkey(&token_account.pubkey);
                 let (token_index, is_added) =
                     self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
-                    // add account to the indexes
+                // add account to the indexes, also when its mint or its owner has changed
+                // (the entries left behind are filtered out by the queries)
+                let (mint_changed, owner_changed) = match previous {
+                    Some(previous) if !is_added => (
+                        previous.mint != mint_index,
+                        previous.owner != token_account_owner,
+                    ),
+                    _ => (true, true),
+                };
+                if mint_changed {
                     // add account index in accounts_index_by_mint map
                     match self.accounts_index_by_mint.entry(mint_index) {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
@@ -357,7 +368,8 @@ impl TokenProgramAccountsStorage {
                             v.insert(q);
                         }
                     }
-
+                }
+                if owner_changed {
                     // add account index in account_by_owner_pubkey map
                     match self
                         .account_by_owner_pubkey
@@ -515,6 +527,7 @@ impl TokenProgramAccountsStorage {
                                 .token_accounts_storage
                                 .get_by_index(indexes)?
                                 .iter()
+                                .filter(|acc| acc.mint == *mint_index.value())
                                 .filter_map(|token_account| {
                                     token_account_to_solana_account(
                                         token_account,
-- 
2.43.0


From 668865583f003eafdfa73a96fe9c665aed2be7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 23/40] fix: token accounts of an unknown or closed mint must
 not panic or disappear

---
 token_account_storage/src/account_types.rs    | 21 ++++++++
 .../src/inmemory_token_storage.rs             | 48 +++++++++++++++----
 .../src/token_program_utils.rs                | 11 ++++-
 3 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/token_account_storage/src/account_types.rs b/token_account_storage/src/account_types.rs
index 78a556b..8d5a37e 100644
--- a/token_account_storage/src/account_types.rs
+++ b/token_account_storage/src/account_types.rs
@@ -91,6 +91,27 @@ pub struct MintAccount {
     pub additional_data: Option<Vec<u8>>,
 }
 
+impl MintAccount {
+    // stands for a mint that token accounts refer to but that does not exist (yet or anymore)
+    pub fn missing(program: Program, pubkey: Pubkey) -> Self {
+        Self {
+            program,
+            pubkey,
+            lamports: 0,
+            supply: 0,
+            decimals: 0,
+            is_initialized: false,
+            mint_authority: None,
+            freeze_authority: None,
+            additional_data: None,
+        }
+    }
+
+    pub fn is_missing(&self) -> bool {
+        self.lamports == 0
+    }
+}
+
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct MultiSig {
     pub program: Program,
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index b2b2508..7d56307 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -6,7 +6,10 @@ use std::{
     },
 };
 
-use dashmap::DashMap;
+use dashmap::{
+    mapref::one::{Ref, RefMut},
+    DashMap,
+};
 use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::AccountData,
@@ -387,7 +390,10 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::Mint(mint_data) => {
                 match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
                     dashmap::mapref::entry::Entry::Occupied(occ) => {
-                        self.mints_by_index.insert(*occ.get(), mint_data);
+                        let previous = self.mints_by_index.insert(*occ.get(), mint_data);
+                        if previous.map_or(true, |mint| mint.is_missing()) {
+                            TOKEN_MINTS_IN_MEMORY.inc();
+                        }
                     }
                     dashmap::mapref::entry::Entry::Vacant(v) => {
                         TOKEN_MINTS_IN_MEMORY.inc();
@@ -403,10 +409,10 @@ impl TokenProgramAccountsStorage {
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
+                if let Some(mut mint) = self.get_mint_mut(&account_pk) {
+                    // token accounts may still refer to the mint
                     TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
+                    *mint = MintAccount::missing(mint.program, account_pk);
                 } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
@@ -417,9 +423,22 @@ impl TokenProgramAccountsStorage {
         true
     }
 
+    fn get_mint(&self, mint: &Pubkey) -> Option<Ref<'_, MintIndex, MintAccount>> {
+        let mint_index = *self.mints_index_by_pubkey.get(mint)?;
+        self.mints_by_index
+            .get(&mint_index)
+            .filter(|mint| !mint.is_missing())
+    }
+
+    fn get_mint_mut(&self, mint: &Pubkey) -> Option<RefMut<'_, MintIndex, MintAccount>> {
+        let mint_index = *self.mints_index_by_pubkey.get(mint)?;
+        self.mints_by_index
+            .get_mut(&mint_index)
+            .filter(|mint| !mint.is_missing())
+    }
+
     pub fn is_token_program_account(&self, account_data: &AccountData) -> bool {
-        self.mints_index_by_pubkey
-            .contains_key(&account_data.pubkey)
+        self.get_mint(&account_data.pubkey).is_some()
             || self.multisigs.contains_key(&account_data.pubkey)
             || account_data.account.owner == spl_token::id()
             || account_data.account.owner == spl_token_2022::id()
@@ -440,8 +459,7 @@ impl TokenProgramAccountsStorage {
             ));
         }
 
-        if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            let mint_data = self.mints_by_index.get(&mint_index).unwrap();
+        if let Some(mint_data) = self.get_mint(&account_pk) {
             return Some(token_mint_to_solana_account(
                 &mint_data,
                 self.finalized_slot.load(Ordering::Relaxed),
@@ -484,7 +502,14 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(mint_index) => Some(*mint_index.value()),
+                        // no token account of an unknown mint
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
@@ -548,6 +573,7 @@ impl TokenProgramAccountsStorage {
                 let mints = self
                     .mints_by_index
                     .iter()
+                    .filter(|mint_account| !mint_account.is_missing())
                     .map(|mint_account| {
                         token_mint_to_solana_account(mint_account.value(), finalized_slot, 0)
                     })
@@ -588,6 +614,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mints_by_index,
             &self.mint_counter,
         ) {
             Ok(res) => res,
@@ -618,6 +645,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mints_by_index,
             &self.mint_counter,
         ) {
             Ok(res) => res,
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index c50accc..d53a2cb 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -39,13 +39,17 @@ impl TokenProgramAccountType {
 
 pub fn get_or_create_mint_index(
     mint: Pubkey,
+    program: Program,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> MintIndex {
     match mint_index_by_pubkey.entry(mint) {
         dashmap::mapref::entry::Entry::Occupied(occ) => *occ.get(),
         dashmap::mapref::entry::Entry::Vacant(vac) => {
             let index = mint_index_count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+            // the mint itself may arrive later or never
+            mints_by_index.insert(index, MintAccount::missing(program, mint));
             vac.insert(index);
             index
         }
@@ -55,6 +59,7 @@ pub fn get_or_create_mint_index(
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> anyhow::Result<TokenProgramAccountType> {
     if account_data.account.lamports == 0
@@ -117,7 +122,9 @@ pub fn get_token_program_account_type(
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
+                    Program::Token2022Program,
                     mint_index_by_pubkey,
+                    mints_by_index,
                     mint_index_count,
                 );
                 Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -192,7 +199,9 @@ pub fn get_token_program_account_type(
                 spl_token::state::Account::unpack_unchecked(&account_data.account.data.data())?;
             let mint_index = get_or_create_mint_index(
                 token_account.mint,
+                Program::TokenProgram,
                 mint_index_by_pubkey,
+                mints_by_index,
                 mint_index_count,
             );
             Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -256,7 +265,7 @@ pub fn token_account_to_solana_account(
         return None;
     }
     let (delegate, delegated_amount) = token_account.delegate.unwrap_or_default();
-    let mint = mints_by_index.get(&token_account.mint).unwrap();
+    let mint = mints_by_index.get(&token_account.mint)?;
     let data = match token_account.program {
         Program::TokenProgram => {
             let t_acc = spl_token::state::Account {
-- 
2.43.0


From dfbf10b682f8db86747af5307af4d78f5a899ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 24/40] fix: token program queries must return exactly the
 matching accounts of a commitment

---
 .../src/inmemory_token_storage.rs             | 76 ++++++++++++-------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7d56307..797a28b 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -307,6 +307,28 @@ impl ProcessedAccountStore {
         };
         return_list
     }
+
+    // all the accounts that have a version newer than the finalized one
+    pub fn get_all_accounts(
+        &self,
+        commitment: Commitment,
+        confirmed_slot: Slot,
+    ) -> HashMap<Pubkey, (ProcessedAccount, u64)> {
+        let account_pks = self
+            .processed_slot_accounts
+            .read()
+            .unwrap()
+            .values()
+            .flat_map(|slot| slot.processed_accounts.keys().copied())
+            .unique()
+            .collect_vec();
+        let accounts = self.get_accounts(account_pks.clone(), commitment, confirmed_slot);
+        account_pks
+            .into_iter()
+            .zip(accounts)
+            .filter_map(|(pk, account)| account.map(|account| (pk, account)))
+            .collect()
+    }
 }
 
 pub struct TokenProgramAccountsStorage {
@@ -701,42 +723,38 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
+        // the accounts that are not finalized are read first: they move to the finalized storage
+        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
+        let updated_accounts = match commitment {
+            Commitment::Processed | Commitment::Confirmed => self
+                .processed_storage
+                .get_all_accounts(commitment, confirmed_slot),
+            Commitment::Finalized => HashMap::new(),
+        };
+        let filters = account_filters.clone().unwrap_or_default();
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
             self.get_program_accounts_finalized(program_pubkey, account_filters)?;
-        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
-        if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
-            // get list of all pks to search
-            let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
-            let processed_accounts =
-                self.processed_storage
-                    .get_accounts(pks, commitment, confirmed_slot);
-            let mut to_remove = vec![];
-            for (index, processed_account) in processed_accounts.iter().enumerate() {
-                if let Some((processed_account, slot)) = processed_account {
-                    let updated_account = token_program_account_to_solana_account(
+        account_data.retain(|account| !updated_accounts.contains_key(&account.pubkey));
+        account_data.extend(
+            updated_accounts
+                .values()
+                .filter_map(|(processed_account, slot)| {
+                    // deleted accounts are skipped
+                    token_program_account_to_solana_account(
                         &processed_account.processed_account,
                         *slot,
                         processed_account.write_version,
                         &self.mints_by_index,
-                    );
-                    match updated_account {
-                        Some(updated_account) => {
-                            // update with processed or confirmed account state
-                            *account_data.get_mut(index).unwrap() = updated_account;
-                        }
-                        None => {
-                            // account must have been deleted
-                            to_remove.push(index);
-                        }
-                    }
-                }
-            }
-
-            for index in to_remove.iter().rev() {
-                account_data.remove(*index);
-            }
-        }
+                    )
+                }),
+        );
+        account_data.retain(|account| {
+            account.account.owner == program_pubkey
+                && filters
+                    .iter()
+                    .all(|filter| filter.allows(&account.account.data.data()))
+        });
         Ok(account_data)
     }
 
-- 
2.43.0


From 0c3e35726fbb38a3eaa6aa681721a7b8f95368b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 25/40] fix: token accounts must stay visible while their slot
 is confirmed or finalized

---
 .../src/inmemory_token_storage.rs             | 44 ++++++++-----------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 797a28b..4b11979 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -185,51 +185,43 @@ impl ProcessedAccountStore {
     }
 
     // returns list of accounts that are finalized
+    // they stay visible here until remove_finalized is called
     pub fn finalize(&self, slot: u64) -> Vec<(ProcessedAccount, u64)> {
         log::debug!("finalizing slot : {slot}");
         let mut map_of_accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
-        let mut lk = self.processed_slot_accounts.write().unwrap();
+        let lk = self.processed_slot_accounts.read().unwrap();
         let mut process_slot = Some(slot);
         while let Some(current_slot) = process_slot {
-            match lk.entry(current_slot) {
-                std::collections::btree_map::Entry::Occupied(mut occ) => {
-                    let value = occ.get_mut();
-                    for (pk, acc) in value.processed_accounts.drain() {
-                        TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.dec();
+            match lk.get(&current_slot) {
+                Some(value) => {
+                    for (pk, acc) in value.processed_accounts.iter() {
                         // as we are going from most recent slot to least recent slot
                         // if the key already exists then we do not insert in the map
-                        match map_of_accounts.entry(pk) {
-                            std::collections::hash_map::Entry::Vacant(vac) => {
-                                vac.insert((acc, current_slot));
-                            }
-                            std::collections::hash_map::Entry::Occupied(_) => {
-                                // already present
-                                continue;
-                            }
-                        }
+                        map_of_accounts
+                            .entry(*pk)
+                            .or_insert_with(|| (acc.clone(), current_slot));
                     }
                     process_slot = value.slot_parent;
-                    occ.remove();
                 }
-                std::collections::btree_map::Entry::Vacant(_) => {
+                None => {
                     break;
                 }
             }
         }
+        map_of_accounts.into_values().collect()
+    }
 
-        // remove processed nodes less than finalized slot
+    // remove processed nodes up to the finalized slot
+    pub fn remove_finalized(&self, slot: u64) {
+        let mut lk = self.processed_slot_accounts.write().unwrap();
         while let Some(first_entry) = lk.first_entry() {
             if *first_entry.key() <= slot {
-                first_entry.remove();
+                let removed = first_entry.remove();
+                TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.sub(removed.processed_accounts.len() as i64);
             } else {
                 break;
             }
         }
-        let mut return_vec = Vec::with_capacity(map_of_accounts.len());
-        for (_, acc) in map_of_accounts.drain() {
-            return_vec.push(acc);
-        }
-        return_vec
     }
 
     pub fn get_confirmed_accounts(
@@ -768,8 +760,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
                 if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
                     self.processed_storage.update_slot_info(slot_info);
+                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
                 }
                 self.processed_storage
                     .get_processed_for_slot(slot_info, &self.mints_by_index)
@@ -798,6 +790,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 for (finalized_account, _) in finalized_accounts {
                     self.add_account_finalized(finalized_account.processed_account);
                 }
+                // only now, so that the accounts are visible all the time
+                self.processed_storage.remove_finalized(slot_info.slot);
                 accounts_notifications
             }
         }
-- 
2.43.0


From 6e86531725b4435a5d24e335731b95b6d5ca44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 26/40] fix: a slot that is its own parent must not hang token
 account lookups

---
 token_account_storage/src/inmemory_token_storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 4b11979..8d583b5 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -201,7 +201,7 @@ impl ProcessedAccountStore {
                             .entry(*pk)
                             .or_insert_with(|| (acc.clone(), current_slot));
                     }
-                    process_slot = value.slot_parent;
+                    process_slot = value.slot_parent.filter(|parent| *parent < current_slot);
                 }
                 None => {
                     break;
@@ -247,7 +247,9 @@ impl ProcessedAccountStore {
                     if return_list.iter().all(|x| x.is_some()) {
                         break;
                     }
-                    process_slot = processed_accounts.slot_parent;
+                    process_slot = processed_accounts
+                        .slot_parent
+                        .filter(|parent| *parent < current_slot);
                 }
                 None => {
                     break;
-- 
2.43.0


From 88b7c011c5f0ed024f3501ec878e3dccbbe5c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 27/40] fix: report the write version of a token account looked
 up before it is finalized

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 8d583b5..d1c7001 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -698,7 +698,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
                         &processed_account.processed_account,
                         *slot,
-                        0,
+                        processed_account.write_version,
                         &self.mints_by_index,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
-- 
2.43.0


From e69adf0577884d1dbb95c8de23bd60b3a4e0591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 28/40] fix: an account of the token programs reopened as
 another type must replace the old one

---
 .../src/inmemory_token_storage.rs             | 40 ++++++++++---------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index d1c7001..8611d8a 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -6,10 +6,7 @@ use std::{
     },
 };
 
-use dashmap::{
-    mapref::one::{Ref, RefMut},
-    DashMap,
-};
+use dashmap::{mapref::one::Ref, DashMap};
 use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::AccountData,
@@ -359,6 +356,9 @@ impl TokenProgramAccountsStorage {
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
+                // a closed account may come back as an account of another type
+                self.remove_mint(&token_account.pubkey);
+                self.multisigs.remove(&token_account.pubkey);
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
                 let previous = self
@@ -404,6 +404,8 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
+                self.multisigs.remove(&mint_data.pubkey);
+                self.token_accounts_storage.delete(&mint_data.pubkey);
                 match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
                     dashmap::mapref::entry::Entry::Occupied(occ) => {
                         let previous = self.mints_by_index.insert(*occ.get(), mint_data);
@@ -422,18 +424,14 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
+                self.remove_mint(&pubkey);
+                self.token_accounts_storage.delete(&pubkey);
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some(mut mint) = self.get_mint_mut(&account_pk) {
-                    // token accounts may still refer to the mint
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                    *mint = MintAccount::missing(mint.program, account_pk);
-                } else if self.multisigs.remove(&account_pk).is_some() {
-                    // do nothing multisig account is removed
-                } else {
-                    self.token_accounts_storage.delete(&account_pk);
-                }
+                self.remove_mint(&account_pk);
+                self.multisigs.remove(&account_pk);
+                self.token_accounts_storage.delete(&account_pk);
             }
         }
         true
@@ -446,11 +444,17 @@ impl TokenProgramAccountsStorage {
             .filter(|mint| !mint.is_missing())
     }
 
-    fn get_mint_mut(&self, mint: &Pubkey) -> Option<RefMut<'_, MintIndex, MintAccount>> {
-        let mint_index = *self.mints_index_by_pubkey.get(mint)?;
-        self.mints_by_index
-            .get_mut(&mint_index)
-            .filter(|mint| !mint.is_missing())
+    fn remove_mint(&self, mint: &Pubkey) {
+        if let Some(mint_index) = self.mints_index_by_pubkey.get(mint).map(|index| *index) {
+            if let Some(mut mint) = self.mints_by_index.get_mut(&mint_index) {
+                if !mint.is_missing() {
+                    // token accounts may still refer to the mint
+                    TOKEN_MINTS_IN_MEMORY.dec();
+                    let program = mint.program;
+                    *mint = MintAccount::missing(program, mint.pubkey);
+                }
+            }
+        }
     }
 
     pub fn is_token_program_account(&self, account_data: &AccountData) -> bool {
-- 
2.43.0


From ff22b651066fc928aac8954210fcd7b59081bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 29/40] fix: token snapshots must restore the accounts of their
 program and refuse malformed bytes

---
 token_account_storage/src/account_types.rs    | 16 ++++
 .../src/inmemory_token_storage.rs             | 89 ++++++++++---------
 2 files changed, 64 insertions(+), 41 deletions(-)

diff --git a/token_account_storage/src/account_types.rs b/token_account_storage/src/account_types.rs
index 8d5a37e..4bd0d48 100644
--- a/token_account_storage/src/account_types.rs
+++ b/token_account_storage/src/account_types.rs
@@ -271,6 +271,22 @@ impl TokenAccount {
         }
     }
 
+    // from_bytes for data that may be malformed
+    pub fn try_from_bytes(v: &[u8]) -> Option<TokenAccount> {
+        let bit_flags = *v.first()?;
+        let is_deleted = *v.get(1)?;
+        if bit_flags & 0x2 != 0 || (bit_flags >> 2) & 0x3 == 0x3 || is_deleted > 1 {
+            return None;
+        }
+        let has = |bit: u8| (bit_flags >> bit) as usize & 0x1;
+        let mut length = 78 + has(4) * (32 + 8) + has(5) * 8 + has(6) * 32;
+        if has(7) == 1 {
+            let size = v.get(length..length + 4)?;
+            length += 4 + u32::from_le_bytes(size.try_into().ok()?) as usize;
+        }
+        (v.len() == length).then(|| TokenAccount::from_bytes(v))
+    }
+
     pub fn get_pubkey_from_binary(binary: &[u8]) -> Pubkey {
         let pubkey_array: [u8; 32] = binary[2..34].try_into().unwrap();
         Pubkey::new_from_array(pubkey_array)
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 8611d8a..e512af3 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -24,7 +24,7 @@ use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
     token_account_storage_interface::TokenAccountStorageInterface,
     token_program_utils::{
-        get_spl_token_owner_mint_filter, get_token_program_account_type,
+        get_or_create_mint_index, get_spl_token_owner_mint_filter, get_token_program_account_type,
         token_account_to_solana_account, token_mint_to_solana_account,
         token_multisig_to_solana_account, token_program_account_to_solana_account,
         TokenProgramAccountType,
@@ -812,6 +812,9 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             return Err(AccountLoadingError::WrongIndex);
         };
 
+        // token accounts are collected first, so that all their mints are known
+        let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
+
         let mints = self
             .mints_by_index
             .iter()
@@ -824,8 +827,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             })
             .collect_vec();
 
-        let multisigs = self.multisigs.iter().map(|ite| ite.clone()).collect_vec();
-        let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
+        let multisigs = self
+            .multisigs
+            .iter()
+            .filter(|multisig| multisig.program == program)
+            .map(|ite| ite.clone())
+            .collect_vec();
 
         let snapshot = TokenProgramSnapshot {
             mints,
@@ -837,7 +844,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            true,
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
@@ -858,53 +865,53 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             token_accounts,
         } = snapshot;
 
+        // check everything before changing anything
+        if multisigs
+            .iter()
+            .any(|multisig| multisig.signers.len() > spl_token::instruction::MAX_SIGNERS)
+        {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
+        let mint_indexes = mints
+            .iter()
+            .map(|(index, _)| *index)
+            .collect::<HashSet<_>>();
+        let mut token_accounts = token_accounts
+            .iter()
+            .map(|bytes| {
+                TokenAccount::try_from_bytes(bytes)
+                    .filter(|account| mint_indexes.contains(&account.mint))
+            })
+            .collect::<Option<Vec<_>>>()
+            .ok_or(AccountLoadingError::DeserializationIssues)?;
+
         for multisig in multisigs {
-            self.multisigs.insert(multisig.pubkey, multisig);
+            let pubkey = multisig.pubkey;
+            self.add_account_finalized(TokenProgramAccountType::MultiSig(multisig, pubkey));
         }
 
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
         // remap all the mints
         for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
-                }
-                None => {
-                    let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
-                    mint_mapping.insert(index, mint_index);
-                    self.mints_by_index.insert(mint_index, mint_account);
-                }
+            let new_index = get_or_create_mint_index(
+                mint_account.pubkey,
+                mint_account.program,
+                &self.mints_index_by_pubkey,
+                &self.mints_by_index,
+                &self.mint_counter,
+            );
+            mint_mapping.insert(index, new_index);
+            if !mint_account.is_missing() {
+                self.add_account_finalized(TokenProgramAccountType::Mint(mint_account));
             }
         }
 
-        for token_account_bytes in token_accounts {
+        for token_account in token_accounts.iter_mut() {
             // use the new mint index
-            let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
-            token_account.mint = new_mint_index;
-            let owner = token_account.owner;
-            let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
-                }
-            }
+            token_account.mint = mint_mapping[&token_account.mint];
+        }
+        for token_account in token_accounts {
+            self.add_account_finalized(TokenProgramAccountType::TokenAccount(token_account));
         }
 
         Ok(())
-- 
2.43.0


From e635882dbf1d9dc612b6d78266928804192e49d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 30/40] fix: accounts that move between programs of different
 storages must be found and updated in all of them

---
 account_storage/src/storage_by_program_id.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..af7177a 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -27,12 +27,13 @@ impl StorageByProgramId {
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        // each storage decides by itself if it is concerned by the update
+        // an account that moves to another program concerns several of them
+        let mut is_updated = false;
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if interface.update_account(account_data.clone(), commitment) {
-                return true;
-            }
+            is_updated |= interface.update_account(account_data.clone(), commitment);
         }
-        self.default.update_account(account_data, commitment)
+        is_updated | self.default.update_account(account_data, commitment)
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
@@ -51,8 +52,9 @@ impl AccountStorageInterface for StorageByProgramId {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
+            // the account may also be stored by another storage
+            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
+                return Ok(Some(account));
             }
         }
         self.default.get_account(account_pk, commitment)
-- 
2.43.0


From 20c24cacd21bd5256a68e0c1565e43cf4b2d6c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 31/40] fix: report an account held by several storages only
 once per slot

---
 account_storage/src/storage_by_program_id.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index af7177a..81079ff 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -6,7 +6,7 @@ use lite_account_manager_common::{
     slot_info::SlotInfo,
 };
 use solana_sdk::pubkey::Pubkey;
-use std::{collections::HashMap, sync::Arc};
+use std::{cmp::Reverse, collections::HashMap, sync::Arc};
 
 pub struct StorageByProgramId {
     program_id_dispatch_map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>>,
@@ -75,13 +75,21 @@ impl AccountStorageInterface for StorageByProgramId {
     }
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
-        let mut return_vec = vec![];
+        let mut return_vec: Vec<AccountData> = vec![];
         for (_, interface) in self.program_id_dispatch_map.iter() {
             let mut t = interface.process_slot_data(slot_info, commitment);
             return_vec.append(&mut t);
         }
         let mut t = self.default.process_slot_data(slot_info, commitment);
         return_vec.append(&mut t);
+        // several storages may report the same account
+        return_vec.sort_by_key(|account| {
+            (
+                account.pubkey,
+                Reverse((account.updated_slot, account.write_version)),
+            )
+        });
+        return_vec.dedup_by_key(|account| account.pubkey);
         return_vec
     }
 
-- 
2.43.0


From 3a44ecba438e19430dd1494d9066e6d2c6769ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 32/40] fix: initializing an account under a new owner must
 replace the version held by another storage

---
 account_storage/src/storage_by_program_id.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 81079ff..e2dc60b 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -37,11 +37,19 @@ impl AccountStorageInterface for StorageByProgramId {
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-        match self
-            .program_id_dispatch_map
-            .get(&account_data.account.owner)
-        {
-            Some(val) => val.initilize_or_update_account(account_data),
+        let owner = account_data.account.owner;
+        // other storages may hold the account from before its owner changed
+        for (program_id, interface) in self.program_id_dispatch_map.iter() {
+            if *program_id != owner {
+                interface.update_account(account_data.clone(), Commitment::Finalized);
+            }
+        }
+        match self.program_id_dispatch_map.get(&owner) {
+            Some(val) => {
+                self.default
+                    .update_account(account_data.clone(), Commitment::Finalized);
+                val.initilize_or_update_account(account_data)
+            }
             None => self.default.initilize_or_update_account(account_data),
         }
     }
-- 
2.43.0


From 27753690b49ddfb9f0534f76a45d1e9ad93f74ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 33/40] fix: list every mint that the token accounts of a
 snapshot refer to

---
 token_account_storage/src/inmemory_token_storage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index e512af3..90dd8c9 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -815,12 +815,20 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         // token accounts are collected first, so that all their mints are known
         let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
 
+        let used_mints = token_accounts
+            .iter()
+            .map(|bytes| TokenAccount::get_mint_index_from_binary(bytes))
+            .collect::<HashSet<_>>();
         let mints = self
             .mints_by_index
             .iter()
             .filter_map(|mint_data| {
                 if mint_data.program == program {
                     Some((*mint_data.key(), mint_data.clone()))
+                } else if used_mints.contains(mint_data.key()) {
+                    // not an account of the program, but its token accounts refer to it
+                    let missing = MintAccount::missing(program, mint_data.pubkey);
+                    Some((*mint_data.key(), missing))
                 } else {
                     None
                 }
-- 
2.43.0


From 7f182f2080eeb5ea487f22615d52063e85247efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 34/40] fix: refuse snapshots with account data that cannot be
 decompressed

---
 account_storage/src/inmemory_account_store.rs |  3 +++
 common/src/account_data.rs                    | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index ad657ee..1413f80 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -520,6 +520,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
     ) -> Result<(), AccountLoadingError> {
         let accounts = bincode::deserialize::<Vec<AccountData>>(&snapshot)
             .map_err(|_| AccountLoadingError::DeserializationIssues)?;
+        if !accounts.iter().all(|x| x.account.data.is_valid()) {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
         for account_data in accounts {
             self.initilize_or_update_account(account_data);
         }
diff --git a/common/src/account_data.rs b/common/src/account_data.rs
index 86f48dd..2d1e943 100644
--- a/common/src/account_data.rs
+++ b/common/src/account_data.rs
@@ -78,6 +78,24 @@ impl Data {
             Data::Zstd { binary, .. } => zstd::bulk::decompress(binary, MAX_ACCOUNT_SIZE).unwrap(),
         }
     }
+
+    // data which was not compressed by us, i.e read from a snapshot, may not be decompressible
+    pub fn is_valid(&self) -> bool {
+        match self {
+            Data::Uncompressed(_) => true,
+            Data::Lz4 { binary, len } => {
+                // the compressed data is prefixed by its size once decompressed
+                *len <= MAX_ACCOUNT_SIZE
+                    && binary.get(..4) == Some((*len as u32).to_le_bytes().as_slice())
+                    && lz4::block::decompress(binary, None)
+                        .map(|data| data.len() == *len)
+                        .unwrap_or(false)
+            }
+            Data::Zstd { binary, len } => zstd::bulk::decompress(binary, MAX_ACCOUNT_SIZE)
+                .map(|data| data.len() == *len)
+                .unwrap_or(false),
+        }
+    }
 }
 
 #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
-- 
2.43.0


From 9237f76294ceb834424111d3eafb8827f63be973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 35/40] fix: refuse account filters that are not objects or
 whose accounts are not a list

---
 common/src/account_filter.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 287f549..0ea1141 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -115,6 +115,9 @@ impl<'de> Deserialize<'de> for AccountFilter {
         D: serde::Deserializer<'de>,
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
+        if !json.is_object() {
+            return Err(D::Error::custom("account filter should be an object"));
+        }
 
         let parse_pubkey = |value: &serde_json::value::Value| {
             let pubkey = value
@@ -125,14 +128,13 @@ impl<'de> Deserialize<'de> for AccountFilter {
         };
 
         let accounts = match json.get("accounts") {
-            Some(accounts) => match accounts.as_array() {
-                Some(accounts_array) => accounts_array
-                    .iter()
-                    .map(parse_pubkey)
-                    .collect::<Result<Vec<_>, _>>()?,
-                None => vec![],
-            },
-            None => vec![],
+            Some(serde_json::Value::Null) | None => vec![],
+            Some(accounts) => accounts
+                .as_array()
+                .ok_or_else(|| D::Error::custom("accounts should be a list"))?
+                .iter()
+                .map(parse_pubkey)
+                .collect::<Result<Vec<_>, _>>()?,
         };
         let program_id = json.get("programId").map(parse_pubkey).transpose()?;
 
-- 
2.43.0


From 0b3b4aa8aaac3faf03a15bb7dea41b9c8dab27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 36/40] fix: finalizing token slots and accounts in parallel
 must not report twice, go back or lose index entries

---
 token_account_storage/src/inmemory_token_storage.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 90dd8c9..7290396 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -2,7 +2,7 @@ use std::{
     collections::{BTreeMap, HashMap, HashSet, VecDeque},
     sync::{
         atomic::{AtomicU32, AtomicU64, Ordering},
-        Arc, RwLock,
+        Arc, Mutex, RwLock,
     },
 };
 
@@ -333,6 +333,10 @@ pub struct TokenProgramAccountsStorage {
     confirmed_slot: Arc<AtomicU64>,
     finalized_slot: Arc<AtomicU64>,
     mint_counter: Arc<AtomicU32>,
+    // slots are finalized one after the other
+    finalization: Mutex<()>,
+    // the kinds and indexes of a finalized account change together
+    finalized_update: Mutex<()>,
 }
 
 impl TokenProgramAccountsStorage {
@@ -349,11 +353,14 @@ impl TokenProgramAccountsStorage {
             confirmed_slot: Arc::new(AtomicU64::new(0)),
             finalized_slot: Arc::new(AtomicU64::new(0)),
             mint_counter: Arc::new(AtomicU32::new(0)),
+            finalization: Mutex::new(()),
+            finalized_update: Mutex::new(()),
         }
     }
 
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+        let _finalized_update = self.finalized_update.lock().unwrap();
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 // a closed account may come back as an account of another type
@@ -767,13 +774,15 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 log::debug!("confirm slot data  : {slot_info:?}");
                 if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
                     self.processed_storage.update_slot_info(slot_info);
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
+                    self.confirmed_slot
+                        .fetch_max(slot_info.slot, Ordering::Relaxed);
                 }
                 self.processed_storage
                     .get_processed_for_slot(slot_info, &self.mints_by_index)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
+                let _finalization = self.finalization.lock().unwrap();
                 if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
                     self.processed_storage.update_slot_info(slot_info);
                     self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
-- 
2.43.0


From 1c5c40bfff4c7cb1f126a586d42f10c90253e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 37/40] fix: truncated or malformed account storages of a
 snapshot must be refused instead of loaded in part

---
 .../src/snapshot_utils/append_vec.rs          | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
index 53585e6..5e94966 100644
--- a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
@@ -61,6 +61,14 @@ impl<'a> StoredAccountMeta<'a> {
             data: self.data.to_vec(),
         })
     }
+
+    /// Only 0 and 1 are booleans.
+    fn sanitize_executable(&self) -> bool {
+        let executable: *const bool = &self.account_meta.executable;
+        //UNSAFE: every byte is a valid u8
+        let executable = unsafe { *(executable as *const u8) };
+        executable <= 1
+    }
 }
 
 /// A thread-safe, file-backed block of memory used to store `Account` instances. Append operations
@@ -145,14 +153,13 @@ impl AppendVec {
             result?
         };
 
-        let new = AppendVec {
+        AppendVec {
             map,
             current_len,
             file_size,
             slot,
-        };
-
-        Ok(new)
+        }
+        .sanitized()
     }
 
     pub fn new_from_reader<R: Read>(
@@ -161,13 +168,33 @@ impl AppendVec {
         slot: u64,
     ) -> io::Result<Self> {
         let mut map = MmapMut::map_anon(current_len)?;
-        io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
-        Ok(AppendVec {
+        reader.read_exact(&mut map)?;
+        AppendVec {
             map: map.make_read_only()?,
             current_len,
             file_size: current_len as u64,
             slot,
-        })
+        }
+        .sanitized()
+    }
+
+    /// Checks that the accounts fill the used bytes exactly and can be read safely.
+    fn sanitized(self) -> io::Result<Self> {
+        let mut offset = 0;
+        while let Some((account, next_offset)) = self.get_account(offset) {
+            if !account.sanitize_executable() {
+                break;
+            }
+            offset = next_offset;
+        }
+        if offset == u64_align!(self.len()) {
+            Ok(self)
+        } else {
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("malformed account at offset {offset} of AppendVec"),
+            ))
+        }
     }
 
     /// Get a reference to the data at `offset` of `size` bytes if that slice
-- 
2.43.0


From c1a0069811fc4a1aec5d6a4d84f57c1c2ddfa3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 38/40] fix: account files of an unpacked snapshot that cannot
 be read must not be skipped silently

---
 simulate_from_snapshot/src/snapshot_utils/unpacked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
index 780e9b9..079c425 100644
--- a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
@@ -86,7 +86,7 @@ impl UnpackedSnapshotExtractor {
     pub fn unboxed_iter(&self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
         std::iter::once(self.iter_streams())
             .flatten_ok()
-            .flatten_ok()
+            .map(|append_vec| append_vec.and_then(|append_vec| append_vec))
     }
 
     fn iter_streams(&self) -> SnapshotResult<impl Iterator<Item = SnapshotResult<AppendVec>> + '_> {
-- 
2.43.0


From e3f72fdd0eca90157ce1d25d067bbda51366832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 39/40] fix: the newest version of an account in a snapshot
 must win and closed accounts stay closed

---
 simulate_from_snapshot/src/main.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/simulate_from_snapshot/src/main.rs b/simulate_from_snapshot/src/main.rs
index 7cade5f..b765b71 100644
--- a/simulate_from_snapshot/src/main.rs
+++ b/simulate_from_snapshot/src/main.rs
@@ -1,4 +1,10 @@
-use std::{fs::File, path::PathBuf, str::FromStr, sync::Arc};
+use std::{
+    collections::{hash_map::Entry, HashMap},
+    fs::File,
+    path::PathBuf,
+    str::FromStr,
+    sync::Arc,
+};
 
 use clap::Parser;
 use cli::Args;
@@ -129,13 +135,30 @@ async fn main() {
 
             let mut loader: ArchiveSnapshotExtractor<File> =
                 ArchiveSnapshotExtractor::open(&archive_path).unwrap();
+            // a snapshot can contain several versions of an account and the empty remains of
+            // closed ones: the newest slot counts
+            let mut newest_slots: HashMap<Pubkey, u64> = HashMap::new();
             for vec in loader.iter() {
                 let append_vec = vec.unwrap();
+                let slot = append_vec.slot();
                 // info!("size: {:?}", append_vec.len());
                 for handle in append_vec_iter(&append_vec) {
                     let stored = handle.access().unwrap();
-                    if stored.account_meta.owner != token_program {
-                        continue;
+                    match newest_slots.entry(stored.meta.pubkey) {
+                        Entry::Occupied(mut newest_slot) => {
+                            if *newest_slot.get() > slot {
+                                continue;
+                            }
+                            newest_slot.insert(slot);
+                        }
+                        Entry::Vacant(newest_slot) => {
+                            if stored.account_meta.owner != token_program
+                                && stored.account_meta.lamports != 0
+                            {
+                                continue;
+                            }
+                            newest_slot.insert(slot);
+                        }
                     }
 
                     let data = stored.data;
-- 
2.43.0


From 188b534654a3bf5a7a8a72f35729b69a87bec1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 40/40] fix: index a held account also under an owner that is
 only tracked later

---
 account_storage/src/inmemory_account_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 1413f80..036f948 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -255,7 +255,8 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if !Self::is_deleted(&account_data) && self.satisfies_filters(&account_data) {
+                    // even if the owner is not tracked, filters may be added for it later
+                    if !Self::is_deleted(&account_data) {
                         self.add_account_owner(index, account_data.account.owner);
                     }
                     // an older finalized account does not replace the current one
-- 
2.43.0

