From 1dc60bbceb51b94ace8af9e0e658d56c337f22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:24 +0000
Subject: [PATCH 1/2] fix: refuse an inconsistent explicit vesting schedule at
 lockup creation

VestingSchedule::assert_valid existed but was never called, so a schedule with its
start after its end, or its cliff outside, was accepted, and the amount methods
then panicked (blocking transfers) between the cliff and the end.
---
 lockup/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0


From b1e8392e08e34400d768fb6512e42d956c70bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 2/2] fix: let multisig2 key members call
 add_request_and_confirm

The access key granted to a key member named the method
add_and_confirm_request, which does not exist.
---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..fbc73b0 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0

