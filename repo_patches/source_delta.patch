From e408ad3c90e554965c536b22003bd86fb3215f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 1/4] fix: round up exactly when dividing an amount by a tick
 price

The quotient is truncated to 18 decimals before it is rounded up, so a remainder beyond the 18th decimal
is lost. A bid of a few units at a price above 10^18 then costs a taker nothing, which the swap refuses
(zero input for a step): one such dust order at the top of the book blocks every swap of base for quote.
---
 contracts/sumtree-orderbook/src/tick_math.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/contracts/sumtree-orderbook/src/tick_math.rs b/contracts/sumtree-orderbook/src/tick_math.rs
index 06db154..ba55c60 100644
--- a/contracts/sumtree-orderbook/src/tick_math.rs
+++ b/contracts/sumtree-orderbook/src/tick_math.rs
@@ -130,6 +130,13 @@ pub fn divide_by_price(
             operand2: price.to_string(),
         })
     );
+    // The quotient above is truncated to 18 decimals, so rounding it up can still end up below the exact
+    // value (e.g. at zero for a small amount and a price above 10^18). Round up the exact fraction instead.
+    // This can neither overflow nor divide by zero, as the check above passed.
+    if matches!(rounding_direction, RoundingDirection::Up) {
+        return Ok(Uint256::from_uint128(amount).div_ceil(price));
+    }
+
     let amount_to_send = rounding_direction.round(amount_to_send_dec256?);
 
     Ok(amount_to_send)
-- 
2.43.0


From 4f92c7cc6a627626be2e393a0a1b224856c87fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 2/4] fix: keep sudo admin actions working while the orderbook
 is inactive

The active switch was checked for every sudo message, including SetActive itself and the admin actions, so
governance could pause the orderbook through sudo but never release it again.
---
 contracts/sumtree-orderbook/src/sudo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/sudo.rs b/contracts/sumtree-orderbook/src/sudo.rs
index 30614e7..0ab7f1a 100644
--- a/contracts/sumtree-orderbook/src/sudo.rs
+++ b/contracts/sumtree-orderbook/src/sudo.rs
@@ -20,7 +20,13 @@ use crate::{
 #[cfg_attr(not(feature = "imported"), entry_point)]
 pub fn sudo(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
     // Ensure orderbook is active
-    ensure_is_active(deps.as_ref())?;
+    // Switch does not apply to admin actions, otherwise it could not be released again
+    if !matches!(
+        msg,
+        SudoMsg::TransferAdmin { .. } | SudoMsg::RemoveAdmin {} | SudoMsg::SetActive { .. }
+    ) {
+        ensure_is_active(deps.as_ref())?;
+    }
 
     match msg {
         SudoMsg::SwapExactAmountIn {
-- 
2.43.0


From 84a52fe56eaa804c9cc7dbd8a11418688f68f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 3/4] fix: publish the actual response type of GetMakerFee

---
 contracts/sumtree-orderbook/src/msg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/msg.rs b/contracts/sumtree-orderbook/src/msg.rs
index b9d1c9b..d3b4dba 100644
--- a/contracts/sumtree-orderbook/src/msg.rs
+++ b/contracts/sumtree-orderbook/src/msg.rs
@@ -105,7 +105,7 @@ pub enum QueryMsg {
         limit: Option<usize>,
     },
 
-    #[returns(MakerFee)]
+    #[returns(Decimal256)]
     GetMakerFee {},
 
     // -- Auth Queries --
-- 
2.43.0


From 19b4536606609afdbc51f53d14e57c7590783b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:33 +0000
Subject: [PATCH 4/4] fix: validate the owner given to orders_by_owner

---
 contracts/sumtree-orderbook/src/query.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/sumtree-orderbook/src/query.rs b/contracts/sumtree-orderbook/src/query.rs
index 6e951a4..be6cc2a 100644
--- a/contracts/sumtree-orderbook/src/query.rs
+++ b/contracts/sumtree-orderbook/src/query.rs
@@ -206,6 +206,8 @@ pub(crate) fn orders_by_owner(
     end_at: Option<(i64, u64)>,
     limit: Option<u64>,
 ) -> ContractResult<OrdersResponse> {
+    // The owner comes unvalidated from the query message; an overlong one cannot be used in a storage key
+    let owner = deps.api.addr_validate(owner.as_str())?;
     let count = orders()
         .idx
         .owner
-- 
2.43.0

