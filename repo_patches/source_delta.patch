From efc6eb9323fbdfb7ede2caf5f4b5875d36bc9884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 1/4] fix: reject request delays and expiries that do not fit a
 time span instead of wrapping into the past

---
 exchange/src/exchange/virtual_margin_account.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exchange/src/exchange/virtual_margin_account.rs b/exchange/src/exchange/virtual_margin_account.rs
index 370b38c..928cc50 100644
--- a/exchange/src/exchange/virtual_margin_account.rs
+++ b/exchange/src/exchange/virtual_margin_account.rs
@@ -255,8 +255,10 @@ impl VirtualMarginAccount {
             "{}, VALUE:{}, REQUIRED:{:?}, OP:contains |", ERROR_INVALID_REQUEST_STATUS, status, vec![STATUS_ACTIVE, STATUS_DORMANT]
         );
         let current_time = Clock::current_time_rounded_to_seconds();
-        let submission = current_time.add_seconds(delay_seconds as i64).expect(ERROR_ARITHMETIC);
-        let expiry = submission.add_seconds(expiry_seconds as i64).expect(ERROR_ARITHMETIC);
+        let delay_seconds = i64::try_from(delay_seconds).expect(ERROR_ARITHMETIC);
+        let expiry_seconds = i64::try_from(expiry_seconds).expect(ERROR_ARITHMETIC);
+        let submission = current_time.add_seconds(delay_seconds).expect(ERROR_ARITHMETIC);
+        let expiry = submission.add_seconds(expiry_seconds).expect(ERROR_ARITHMETIC);
 
         let keeper_request = KeeperRequest {
             request: request.encode(), 
-- 
2.43.0


From ebcdc047aafa7758035b340e376ddb2dd861d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 2/4] fix: unwrap accepts only the wrapped base token

---
 token_wrapper/src/token_wrapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/token_wrapper/src/token_wrapper.rs b/token_wrapper/src/token_wrapper.rs
index c42aeb7..f799ecc 100644
--- a/token_wrapper/src/token_wrapper.rs
+++ b/token_wrapper/src/token_wrapper.rs
@@ -156,6 +156,11 @@ mod token_wrapper_mod {
         }
 
         pub fn unwrap(&mut self, parent_token: Bucket, child_resource: ResourceAddress) -> Bucket {
+            assert!(
+                parent_token.resource_address() == BASE_RESOURCE,
+                "{}, VALUE:{}, REQUIRED:{}, OP:== |", ERROR_INVALID_PAYMENT_TOKEN, Runtime::bech32_encode_address(parent_token.resource_address()), Runtime::bech32_encode_address(BASE_RESOURCE)
+            );
+
             let mut child_vault = self.inputs.get_mut(&child_resource).expect(ERROR_INVALID_CHILD_TOKEN);
 
             let child_token = child_vault.vault.take_advanced(parent_token.amount(), TO_ZERO);
-- 
2.43.0


From 079890422337eeaed49eee6f8186389ef3c9e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 3/4] fix: config validation rejects times that the compressed
 form cannot hold

---
 config/src/config/structs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/src/config/structs.rs b/config/src/config/structs.rs
index 0283edb..983f4e4 100644
--- a/config/src/config/structs.rs
+++ b/config/src/config/structs.rs
@@ -253,11 +253,11 @@ pub struct PairConfigCompressed {
 
 impl PairConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.oi_max >= dec!(0), "Invalid oi maximum");
         assert!(self.trade_size_min >= dec!(0), "Invalid minimum trade size");
         assert!(self.update_price_delta_ratio > dec!(0), "Invalid pair update price delta ratio");
-        assert!(self.update_period_seconds > 0, "Invalid pair update period");
+        assert!(self.update_period_seconds > 0 && self.update_period_seconds <= u16::MAX as i64, "Invalid pair update period");
         assert!(self.margin_initial >= dec!(0) && self.margin_initial <= dec!(1), "Invalid initial margin");
         assert!(self.margin_maintenance >= dec!(0) && self.margin_maintenance <= dec!(1) && self.margin_maintenance <= self.margin_initial, "Invalid maintenance margin");
         assert!(self.funding_1 >= dec!(0) && self.funding_1 <= dec!(2), "Invalid funding 1");
@@ -344,7 +344,7 @@ pub struct CollateralConfigCompressed {
 
 impl CollateralConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.discount >= dec!(0.8) && self.discount <= dec!(1), "Invalid discount");
         assert!(self.margin >= dec!(0) && self.margin <= dec!(0.1), "Invalid margin");
     }
-- 
2.43.0


From 5474681a73f96a7ee96fac6f8b995cf1c60e68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 4/4] fix: auto-deleverage measures the profit of a short with
 the right sign

---
 exchange/src/exchange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exchange/src/exchange.rs b/exchange/src/exchange.rs
index a7fc334..8f828d4 100644
--- a/exchange/src/exchange.rs
+++ b/exchange/src/exchange.rs
@@ -2348,7 +2348,7 @@ mod exchange_mod {
             let value = position.amount * price;
             let cost = position.cost;
 
-            let pnl_percent = (value - cost) / cost;
+            let pnl_percent = (value - cost) / cost.checked_abs().expect(ERROR_ARITHMETIC);
 
             let u = skew_ratio_0 / exchange_config.adl_a - exchange_config.adl_offset / exchange_config.adl_a;
             let threshold = -(u * u * u) - exchange_config.adl_b * u;
-- 
2.43.0

