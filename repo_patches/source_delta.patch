From db5ddb09a1612e1e756c8d286efcc8016c68c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:05 +0000
Subject: [PATCH 1/6] fix: lockup: validate the explicit vesting schedule at
 initialization

---
 lockup/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0


From b2e4de3c73ada53a5db07c8f6487ce5362ac4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:05 +0000
Subject: [PATCH 2/6] fix: lockup: validate the revealed vesting schedule on
 termination

---
 lockup/src/internal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/internal.rs b/lockup/src/internal.rs
index 9180241..4054611 100644
--- a/lockup/src/internal.rs
+++ b/lockup/src/internal.rs
@@ -42,6 +42,7 @@ impl LockupContract {
                         &hash.0,
                         "Presented vesting schedule and salt don't match the hash"
                     );
+                    vesting_schedule_with_salt.vesting_schedule.assert_valid();
                     vesting_schedule_with_salt.vesting_schedule
                 } else {
                     env::panic(b"Expected vesting schedule and salt, but it was not provided")
-- 
2.43.0


From 23d22050e8cb1984604945a710ffc626db5c9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:05 +0000
Subject: [PATCH 3/6] fix: multisig: drop the confirmations of a deleted key

---
 multisig/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multisig/src/lib.rs b/multisig/src/lib.rs
index 510bc2c..818e3d8 100644
--- a/multisig/src/lib.rs
+++ b/multisig/src/lib.rs
@@ -210,6 +210,15 @@ impl MultiSigContract {
                         self.confirmations.remove(&request_id);
                         self.requests.remove(&request_id);
                     }
+                    // a deleted key no longer counts as a confirmation of the remaining requests
+                    let request_ids: Vec<u32> = self.requests.keys().collect();
+                    for request_id in request_ids {
+                        if let Some(mut confirmations) = self.confirmations.get(&request_id) {
+                            if confirmations.remove(&pk) {
+                                self.confirmations.insert(&request_id, &confirmations);
+                            }
+                        }
+                    }
                     // remove num_requests_pk entry for public_key
                     self.num_requests_pk.remove(&pk);
                     promise.delete_key(pk)
-- 
2.43.0


From 892e407c92ce78b9988ccd810fe68260d9168207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:05 +0000
Subject: [PATCH 4/6] fix: multisig2: drop the confirmations of a deleted
 member

---
 multisig2/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..dc5135c 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -369,6 +369,15 @@ impl MultiSigContract {
             self.confirmations.remove(&request_id);
             self.requests.remove(&request_id);
         }
+        // a deleted member no longer counts as a confirmation of the remaining requests
+        let request_ids: Vec<u32> = self.requests.keys().collect();
+        for request_id in request_ids {
+            if let Some(mut confirmations) = self.confirmations.get(&request_id) {
+                if confirmations.remove(&member.to_string()) {
+                    self.confirmations.insert(&request_id, &confirmations);
+                }
+            }
+        }
         // remove num_requests_pk entry for member
         self.num_requests_pk.remove(&member.to_string());
         self.members.remove(&member);
-- 
2.43.0


From 56f48fb4fd5354f92faa9191cc51ee3363a6b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:05 +0000
Subject: [PATCH 5/6] fix: multisig2: never require more confirmations than
 there are members

---
 multisig2/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index dc5135c..c48f9d8 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -163,6 +163,11 @@ impl MultiSigContract {
         for member in members {
             promise = multisig.add_member(promise, member);
         }
+        // the list may repeat a member
+        assert(
+            multisig.members.len() >= num_confirmations as u64,
+            "Members list must be equal or larger than number of confirmations",
+        );
         multisig
     }
 
@@ -274,6 +279,10 @@ impl MultiSigContract {
                 // the following methods must be a single action
                 MultiSigRequestAction::SetNumConfirmations { num_confirmations } => {
                     self.assert_one_action_only(receiver_id, num_actions);
+                    assert(
+                        num_confirmations as u64 <= self.members.len(),
+                        "Number of confirmations can't be larger than number of members",
+                    );
                     self.num_confirmations = num_confirmations;
                     return PromiseOrValue::Value(true);
                 }
-- 
2.43.0


From cbaa69a9acbccad8cdb281d737d1d66412d6da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:05 +0000
Subject: [PATCH 6/6] fix: multisig2: member access keys may call
 add_request_and_confirm

---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index c48f9d8..b2d7f7b 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0

