From fd1c5aca83f02322023e847950678e6367281ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 01/21] verif-hooks: guarded state snapshots for external
 harnesses

Compiled with the cargo feature verif-hooks only (off by default).
---
 Cargo.toml                             |  2 ++
 src/contracts/Cargo.toml               |  4 ++++
 src/contracts/collections/pool_keys.rs |  1 +
 src/contracts/collections/pools.rs     |  1 +
 src/contracts/collections/positions.rs |  1 +
 src/contracts/collections/tickmap.rs   |  1 +
 src/contracts/collections/ticks.rs     |  1 +
 src/contracts/storage/utils.rs         |  5 +++++
 src/invariant_storage.rs               |  1 +
 src/lib.rs                             |  2 ++
 src/verif_hooks.rs                     | 30 ++++++++++++++++++++++++++
 11 files changed, 49 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index 065e4b1..2116e0c 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -35,6 +35,8 @@ binary-vendor = []
 wasm-opt = ["gear-wasm-builder/wasm-opt"]
 default = ["binary-vendor", "wasm-opt"]
 test = ["gstd/debug"]
+# Snapshot support for external verification harnesses, off by default
+verif-hooks = ["contracts/verif-hooks"]
 
 [workspace]
 members = ["xtask", "extended-vft/wasm", "src/wasm"]
diff --git a/src/contracts/Cargo.toml b/src/contracts/Cargo.toml
index 6b64d5b..b5a6c61 100644
--- a/src/contracts/Cargo.toml
+++ b/src/contracts/Cargo.toml
@@ -11,5 +11,9 @@ traceable_result.workspace = true
 decimal.workspace = true
 sails-rs.workspace = true
 
+[features]
+# Snapshot support for external verification harnesses, off by default
+verif-hooks = []
+
 [lib]
 path = "lib.rs"
\ No newline at end of file
diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index db858e9..430866a 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, PoolKey};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(feature = "verif-hooks", derive(Clone))]
 pub struct PoolKeys {
     pool_keys: HashMap<PoolKey, u16>,
     pool_keys_by_index: HashMap<u16, PoolKey>,
diff --git a/src/contracts/collections/pools.rs b/src/contracts/collections/pools.rs
index 65e111b..890abec 100644
--- a/src/contracts/collections/pools.rs
+++ b/src/contracts/collections/pools.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, Pool, PoolKey};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(feature = "verif-hooks", derive(Clone))]
 pub struct Pools {
     pools: HashMap<PoolKey, Pool>,
 }
diff --git a/src/contracts/collections/positions.rs b/src/contracts/collections/positions.rs
index 00cc55d..e24fb63 100644
--- a/src/contracts/collections/positions.rs
+++ b/src/contracts/collections/positions.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, Position};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(feature = "verif-hooks", derive(Clone))]
 pub struct Positions {
     positions_length: HashMap<ActorId, u32>,
     positions: HashMap<(ActorId, u32), Position>,
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index c0cfbae..ae14249 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -9,6 +9,7 @@ pub const TICK_SEARCH_RANGE: i32 = 256;
 pub const CHUNK_SIZE: i32 = 64;
 
 #[derive(Debug, Default)]
+#[cfg_attr(feature = "verif-hooks", derive(Clone))]
 pub struct Tickmap {
     pub bitmap: HashMap<(u16, PoolKey), u64>,
 }
diff --git a/src/contracts/collections/ticks.rs b/src/contracts/collections/ticks.rs
index 1f4c614..ac8f82f 100644
--- a/src/contracts/collections/ticks.rs
+++ b/src/contracts/collections/ticks.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, PoolKey, Tick};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(feature = "verif-hooks", derive(Clone))]
 pub struct Ticks {
     ticks: HashMap<(PoolKey, i32), Tick>,
 }
diff --git a/src/contracts/storage/utils.rs b/src/contracts/storage/utils.rs
index 94a70a1..b1c983f 100644
--- a/src/contracts/storage/utils.rs
+++ b/src/contracts/storage/utils.rs
@@ -28,6 +28,11 @@ macro_rules! declare_storage {
                     }
                 }
 
+                #[cfg(feature = "verif-hooks")]
+                pub fn replace(value: Option<$ty>) -> Option<$ty> {
+                    unsafe { core::mem::replace(&mut *core::ptr::addr_of_mut!(INSTANCE), value) }
+                }
+
                 pub fn as_ref() -> &'static $ty {
                     unsafe {
                         INSTANCE.as_ref().unwrap_or_else(|| {
diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..647f65e 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -16,6 +16,7 @@ pub use sails_rs::{collections::HashMap, prelude::*};
 pub use traceable_result::*;
 
 #[derive(Debug, Default)]
+#[cfg_attr(feature = "verif-hooks", derive(Clone))]
 pub struct Invariant {
     pub config: InvariantConfig,
     pub fee_tiers: FeeTiers,
diff --git a/src/lib.rs b/src/lib.rs
index bfe9282..06b8fd3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,8 @@ use io::InvariantConfig;
 use sails_rs::gstd::{program, GStdExecContext};
 mod invariant_service;
 mod invariant_storage;
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks;
 pub use contracts::{
     AwaitingTransfer, FeeTier, FeeTiers, InvariantError, Pool, PoolKey, PoolKeys, Pools, Position,
     Positions, Tick, Tickmap, Ticks, TransferType, UpdatePoolTick,
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..e6eb87e
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,30 @@
+//! Whole-state snapshots for external verification harnesses.
+//!
+//! Natively there is no node to roll the program memory back when a message panics,
+//! a harness does it with these functions. Compiled with the feature `verif-hooks` only.
+
+use crate::invariant_storage::{Invariant, InvariantStorage};
+
+/// An opaque copy of the program state.
+#[derive(Clone)]
+pub struct Snapshot(Option<Invariant>);
+
+/// Copies the current state.
+pub fn snapshot() -> Snapshot {
+    Snapshot(InvariantStorage::is_set().then(|| InvariantStorage::as_ref().clone()))
+}
+
+/// Replaces the current state.
+pub fn restore(snapshot: &Snapshot) {
+    InvariantStorage::replace(snapshot.0.clone());
+}
+
+/// Leaves the program uninitialized, as it is before its constructor runs.
+pub fn clear() {
+    InvariantStorage::replace(None);
+}
+
+/// Number of token transfers still waiting for a reply.
+pub fn awaiting_transfers() -> usize {
+    InvariantStorage::as_ref().awaiting_transfers.len()
+}
-- 
2.43.0


From dea94a775b10bf950c29ea528d27db523535d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 02/21] fix: keep the tick below one crossed downwards when the
 price cannot move any further

A swap that crossed an initialized tick and had too little left to move the price
below it recomputed the current tick from the unchanged price, which brought it back
onto the crossed tick while its liquidity had already been applied.
---
 sdk/src/wasm/storage/pool.rs  | 10 +++++++++-
 src/contracts/storage/pool.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/storage/pool.rs b/sdk/src/wasm/storage/pool.rs
index d081737..bf4b2e4 100644
--- a/sdk/src/wasm/storage/pool.rs
+++ b/sdk/src/wasm/storage/pool.rs
@@ -50,11 +50,19 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             )) as i64;
 
+            // When the trade is too small to move the price, it still lies on the tick that has
+            // just been crossed downwards, which must not bring that tick back into range
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f8ecacf..1d41398 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -156,11 +156,19 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing
             ));
 
+            // When the trade is too small to move the price, it still lies on the tick that has
+            // just been crossed downwards, which must not bring that tick back into range
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return (total_amount, remaining_amount, has_crossed);
         };
 
-- 
2.43.0


From 924b22d7c67346da8a401c5683a66cfcc8fdce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 03/21] fix: cross an initialized tick reached upwards when the
 price limit is exactly its price

The tick closest to the trade was left out when its price equalled the limit, so a swap
that ended there moved the current tick onto it without applying its liquidity.
---
 sdk/src/wasm/collections/tickmap.rs  | 3 ++-
 src/contracts/collections/tickmap.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/collections/tickmap.rs b/sdk/src/wasm/collections/tickmap.rs
index 3841b9e..d45b998 100644
--- a/sdk/src/wasm/collections/tickmap.rs
+++ b/sdk/src/wasm/collections/tickmap.rs
@@ -258,8 +258,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // Reaching an initialized tick upwards crosses it, even if the limit is its price
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index ae14249..be28373 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -196,8 +196,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // Reaching an initialized tick upwards crosses it, even if the limit is its price
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0


From 657cccd3f223fb6479dc930b1c37a67dfbf3015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 04/21] fix: do not let a swap step pass its target price or
 use more than the amount in

The input a step needs is rounded up more coarsely than the price it leads to. At low
prices an amount just below the required one moved the price below the next tick without
crossing it, and the input charged could exceed the amount without its fee.
---
 calc/math/clamm.rs    | 18 ++++++++++++++++--
 sdk/src/wasm/clamm.rs | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..2dc738a 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -31,6 +31,8 @@ pub fn compute_swap_step(
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
     let next_sqrt_price: SqrtPrice;
+    // the most a step that the amount does not take to the target can use, fee excluded
+    let mut amount_in_limit: Option<TokenAmount> = None;
     let (mut amount_in, mut amount_out) = (
         TokenAmount::new(U256::from(0)),
         TokenAmount::new(U256::from(0)),
@@ -48,12 +50,21 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let sqrt_price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+
+            // the required amount in is rounded up further than the price, so an amount just
+            // below it would take the price past the target
+            next_sqrt_price = if x_to_y && sqrt_price_from_input < target_sqrt_price {
+                target_sqrt_price
+            } else {
+                sqrt_price_from_input
+            };
+            amount_in_limit = Some(amount_after_fee);
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -117,7 +128,10 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
-    let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
+    let fee_amount = if let Some(amount_in_limit) = amount_in_limit {
+        if amount_in > amount_in_limit {
+            amount_in = amount_in_limit;
+        }
         amount - amount_in
     } else {
         amount_in.big_mul_up(fee)
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..a889f32 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -60,6 +60,8 @@ pub fn compute_swap_step(
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
     let next_sqrt_price: SqrtPrice;
+    // the most a step that the amount does not take to the target can use, fee excluded
+    let mut amount_in_limit: Option<TokenAmount> = None;
     let (mut amount_in, mut amount_out) = (
         TokenAmount::new(U256::from(0)),
         TokenAmount::new(U256::from(0)),
@@ -77,12 +79,21 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let sqrt_price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+
+            // the required amount in is rounded up further than the price, so an amount just
+            // below it would take the price past the target
+            next_sqrt_price = if x_to_y && sqrt_price_from_input < target_sqrt_price {
+                target_sqrt_price
+            } else {
+                sqrt_price_from_input
+            };
+            amount_in_limit = Some(amount_after_fee);
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -146,7 +157,10 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
-    let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
+    let fee_amount = if let Some(amount_in_limit) = amount_in_limit {
+        if amount_in > amount_in_limit {
+            amount_in = amount_in_limit;
+        }
         amount - amount_in
     } else {
         amount_in.big_mul_up(fee)
-- 
2.43.0


From ee8e92ae38ae3c856fd41e1b56e7c562b250fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 05/21] fix: cross a tick when the active liquidity alone can
 not provide the amount out

The check whether the amount that is left can move the price any further
failed, and with it the whole swap, when the active liquidity could not
provide that amount, although the ranges beyond the tick could. Ticks
reached upwards are always crossed, there it was not needed at all.
---
 sdk/src/wasm/storage/pool.rs  | 26 ++++++++++++++++++--------
 src/contracts/storage/pool.rs | 26 ++++++++++++++++++--------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/sdk/src/wasm/storage/pool.rs b/sdk/src/wasm/storage/pool.rs
index bf4b2e4..6f623a3 100644
--- a/sdk/src/wasm/storage/pool.rs
+++ b/sdk/src/wasm/storage/pool.rs
@@ -66,14 +66,24 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
-            remaining_amount,
-            result.next_sqrt_price,
-            self.liquidity,
-            fee_tier.fee,
-            by_amount_in,
-            x_to_y,
-        ));
+        // Ticks are always crossed upwards. Downwards the amount that is left has to move the price
+        // further, as does any amount out that the active liquidity can not provide.
+        let is_enough_amount_to_cross = !x_to_y || {
+            let is_enough = is_enough_amount_to_change_price(
+                remaining_amount,
+                result.next_sqrt_price,
+                self.liquidity,
+                fee_tier.fee,
+                by_amount_in,
+                x_to_y,
+            );
+
+            if by_amount_in {
+                unwrap!(is_enough)
+            } else {
+                is_enough.unwrap_or(true)
+            }
+        };
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index 1d41398..ed9cff2 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -172,14 +172,24 @@ impl Pool {
             return (total_amount, remaining_amount, has_crossed);
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
-            remaining_amount,
-            result.next_sqrt_price,
-            self.liquidity,
-            fee_tier.fee,
-            by_amount_in,
-            x_to_y,
-        ));
+        // Ticks are always crossed upwards. Downwards the amount that is left has to move the price
+        // further, as does any amount out that the active liquidity can not provide.
+        let is_enough_amount_to_cross = !x_to_y || {
+            let is_enough = is_enough_amount_to_change_price(
+                remaining_amount,
+                result.next_sqrt_price,
+                self.liquidity,
+                fee_tier.fee,
+                by_amount_in,
+                x_to_y,
+            );
+
+            if by_amount_in {
+                unwrap!(is_enough)
+            } else {
+                is_enough.unwrap_or(true)
+            }
+        };
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 6053e0c944c9c7cba85d6c519491ce5385025ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 06/21] fix: create a pool at the price it is asked for

The initial price was checked against the initial tick, then replaced by
the lowest price of that tick.
---
 src/contracts/storage/pool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index ed9cff2..edd145e 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -8,7 +8,7 @@ use math::{
     liquidity::Liquidity,
     log::get_tick_at_sqrt_price,
     percentage::Percentage,
-    sqrt_price::{calculate_sqrt_price, check_tick_to_sqrt_price_relationship, SqrtPrice},
+    sqrt_price::{check_tick_to_sqrt_price_relationship, SqrtPrice},
     token_amount::TokenAmount,
 };
 use sails_rs::prelude::*;
@@ -69,7 +69,7 @@ impl Pool {
         }
 
         Ok(Self {
-            sqrt_price: unwrap!(calculate_sqrt_price(init_tick)),
+            sqrt_price: init_sqrt_price,
             current_tick_index: init_tick,
             start_timestamp: current_timestamp,
             last_timestamp: current_timestamp,
-- 
2.43.0


From 37691f29967047056ee4c39a7f7c94ff6db60bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 07/21] fix: answer pages of pool keys and positions that end
 past the largest index

---
 src/contracts/collections/pool_keys.rs | 2 +-
 src/contracts/collections/positions.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index 430866a..745216f 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -45,7 +45,7 @@ impl PoolKeys {
     }
 
     pub fn get_all(&self, size: u16, offset: u16) -> Vec<PoolKey> {
-        let offset_with_size = offset.checked_add(size).unwrap();
+        let offset_with_size = offset.saturating_add(size);
 
         let max = if offset_with_size > self.pool_keys_length {
             self.pool_keys_length
diff --git a/src/contracts/collections/positions.rs b/src/contracts/collections/positions.rs
index e24fb63..ac7a1a4 100644
--- a/src/contracts/collections/positions.rs
+++ b/src/contracts/collections/positions.rs
@@ -88,7 +88,7 @@ impl<'a> Positions {
 
     pub fn get_slice(&self, account_id: &ActorId, offset: u32, size: u32) -> Vec<Position> {
         let length = self.get_length(account_id);
-        let offset_with_size = offset.checked_add(size).unwrap();
+        let offset_with_size = offset.saturating_add(size);
 
         let max = if offset_with_size > length {
             length
-- 
2.43.0


From e38bac6a220ae3157869acd2f2e660311a51574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 08/21] fix: count the ticks of the last chunk in
 get_liquidity_ticks_amount

---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index 647f65e..a2f65af 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -308,7 +308,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From 9e82405feeab4d429fb493fb99c8d1d58e7a737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 09/21] fix: take a reply with an error code for a failed
 transfer whatever its payload is

A withdrawal was not given back, and a failed deposit not told apart from an
unknown outcome, when the text of the token's panic does not happen to decode
as a SCALE string.
---
 src/invariant_service.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 84828a8..c8af4da 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -15,7 +15,7 @@ use math::{
     token_amount::TokenAmount, MAX_SQRT_PRICE, MIN_SQRT_PRICE,
 };
 // import for timestamp and porgram_id
-use gstd::exec;
+use gstd::{errors::ReplyCode, exec};
 use sails_rs::{
     gstd::{
         msg::{self, reply, CodecMessageFuture},
@@ -1223,8 +1223,11 @@ fn reply_with_err_and_leave(err: InvariantError) {
 
 pub fn reply_handler(token: ActorId, msg_id: MessageId) {
     let invariant = InvariantStorage::as_mut();
+    // the token program failed, whatever the payload says
+    if let Ok(ReplyCode::Error(_)) = msg::reply_code() {
+        handle_panic(invariant, token, msg_id)
     // message is a valid reply
-    if let Ok(msg) = msg::load::<(String, String, bool)>() {
+    } else if let Ok(msg) = msg::load::<(String, String, bool)>() {
         if msg.0 == "Vft" && msg.1 == "TransferFrom" {
             handle_valid_reply(invariant, token, msg_id, msg.2)
         } else {
-- 
2.43.0


From e1f0f07cb5e28175de7b28320fe2e37102e91fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 10/21] fix: let a late reply settle the transfer it answers

When the wait for a token's reply timed out the record of the transfer was
dropped: a deposit confirmed later was never credited, a withdrawal refused
later never given back, although the reply handler still runs.
---
 src/invariant_service.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index c8af4da..e00ae06 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -15,7 +15,10 @@ use math::{
     token_amount::TokenAmount, MAX_SQRT_PRICE, MIN_SQRT_PRICE,
 };
 // import for timestamp and porgram_id
-use gstd::{errors::ReplyCode, exec};
+use gstd::{
+    errors::{Error, ReplyCode},
+    exec,
+};
 use sails_rs::{
     gstd::{
         msg::{self, reply, CodecMessageFuture},
@@ -1184,11 +1187,20 @@ where
 
     fn handle_transfer_result(
         invariant: &mut Invariant,
-        message: Result<TokenTransferResponse, gstd::errors::Error>,
+        message: Result<TokenTransferResponse, Error>,
         message_id: MessageId,
         token: ActorId,
         transfer_type: TransferType,
     ) -> Result<(), InvariantError> {
+        // the reply handler still has to settle the transfer when its reply comes late
+        if matches!(message, Err(Error::Timeout(..)))
+            && invariant
+                .awaiting_transfers
+                .contains_key(&(message_id, token))
+        {
+            return Err(InvariantError::ReplyHandlingFailed);
+        }
+
         if invariant
             .awaiting_transfers
             .remove(&(message_id, token))
-- 
2.43.0


From 8be82992592f6aaa52157e408869e2356ec820a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 11/21] fix: refuse the tick i32::MIN, whose absolute value
 does not fit, instead of pricing it at 1

---
 calc/math/types/sqrt_price.rs    | 4 ++--
 sdk/src/wasm/types/sqrt_price.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/calc/math/types/sqrt_price.rs b/calc/math/types/sqrt_price.rs
index 6dcb2a1..959d264 100644
--- a/calc/math/types/sqrt_price.rs
+++ b/calc/math/types/sqrt_price.rs
@@ -145,9 +145,9 @@ pub fn check_tick_to_sqrt_price_relationship(
 
 pub fn calculate_sqrt_price(tick_index: i32) -> TrackableResult<SqrtPrice> {
     // checking if tick be converted to sqrt_price (overflows if more)
-    let tick = tick_index.abs();
+    let tick = tick_index.unsigned_abs();
 
-    if tick > MAX_TICK {
+    if tick > MAX_TICK as u32 {
         return Err(err!("tick over bounds"));
     }
 
diff --git a/sdk/src/wasm/types/sqrt_price.rs b/sdk/src/wasm/types/sqrt_price.rs
index 5bb9833..64f69cf 100644
--- a/sdk/src/wasm/types/sqrt_price.rs
+++ b/sdk/src/wasm/types/sqrt_price.rs
@@ -132,9 +132,9 @@ impl SqrtPrice {
 #[wasm_wrapper("_calculateSqrtPrice")]
 pub fn calculate_sqrt_price(tick_index: i32) -> TrackableResult<SqrtPrice> {
     // checking if tick be converted to sqrt_price (overflows if more)
-    let tick = tick_index.abs();
+    let tick = tick_index.unsigned_abs();
 
-    if tick > MAX_TICK {
+    if tick > MAX_TICK as u32 {
         return Err(err!("tick over bounds"));
     }
 
-- 
2.43.0


From de0624e840945df72d7a12df2461da6c890faaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 12/21] fix: return from get_liquidity the amounts its
 liquidity needs, also at the ends of the range

---
 sdk/src/wasm/math.rs                    |  4 ++--
 src/contracts/logic/liquidity_result.rs | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 98c1011..58e43bd 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -58,7 +58,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -133,7 +133,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 985ce59..4e5a1c3 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(lower_tick))?;
     let upper_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(upper_tick))?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = ok_or_mark_trace!(get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = ok_or_mark_trace!(get_liquidity_by_x_sqrt_price(
             x,
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
@@ -124,7 +124,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -199,7 +199,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
-- 
2.43.0


From 1337550f9efe0283ed7ad5c4da97e9a84fe39a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 13/21] fix: round the other amount of a deposit from its exact
 value

---
 sdk/src/wasm/math.rs                    | 42 ++++++++++++-------------
 src/contracts/logic/liquidity_result.rs | 42 ++++++++++++-------------
 2 files changed, 40 insertions(+), 44 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 58e43bd..6be835a 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -183,16 +183,17 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
+    let common = liquidity.cast::<U512>() * nominator.cast::<U512>();
+    let denominator = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (common + denominator - 1) / denominator
     } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
+        common / denominator
+    };
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
+    ))
 }
 
 pub fn calculate_y(
@@ -200,18 +201,15 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
+    let common = sqrt_price_diff.cast::<U512>() * liquidity.cast::<U512>();
+    let one = SqrtPrice::from_integer(1).cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (common + one - 1) / one
     } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
+        common / one
+    };
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
+    ))
 }
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 4e5a1c3..30361ac 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -249,16 +249,17 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
+    let common = liquidity.cast::<U512>() * nominator.cast::<U512>();
+    let denominator = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (common + denominator - 1) / denominator
     } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
+        common / denominator
+    };
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
+    ))
 }
 
 pub fn calculate_y(
@@ -266,20 +267,17 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
+    let common = sqrt_price_diff.cast::<U512>() * liquidity.cast::<U512>();
+    let one = SqrtPrice::from_integer(1).cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (common + one - 1) / one
     } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
+        common / one
+    };
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
+    ))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3030b10b85ac09325914f2e2ae08af61892213e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 14/21] fix: refuse casts of wide integers to u8, u16 and u32
 that lose their high words

---
 calc/decimal/decimal_core/src/uint_casts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calc/decimal/decimal_core/src/uint_casts.rs b/calc/decimal/decimal_core/src/uint_casts.rs
index 191dcf7..b1c9064 100644
--- a/calc/decimal/decimal_core/src/uint_casts.rs
+++ b/calc/decimal/decimal_core/src/uint_casts.rs
@@ -253,7 +253,7 @@ pub fn impl_primitive_casts(
             expanded.append_all(quote! {
               impl #checked_cast_trait_name <#uint> for #primitive {
                 fn #checked_cast_function_name(#param_name: #uint)-> Result<#primitive, String> {
-                  if #param_name.0[0] > #primitive::MAX as u64 {
+                  if #param_name > #uint::from(#primitive::MAX) {
                     return Err(#down_cast_error.to_string());
                   }
 
-- 
2.43.0


From 4c991e1155284b6e16f90415202f93f54c922765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 15/21] fix: client: ask for the number of an owner's positions
 by the owner, not by a pool key

---
 sdk/src/invariant.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index fe50b45..e71aabb 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -383,10 +383,8 @@ export class Invariant {
     return new Map(result)
   }
 
-  async getUserPositionAmount(key: PoolKey, owner: ActorId): Promise<TokenAmount> {
-    return BigInt(
-      await this.contract.service.getUserPositionAmount(key as any, owner as any, DEFAULT_ADDRESS)
-    )
+  async getUserPositionAmount(owner: ActorId): Promise<bigint> {
+    return BigInt(await this.contract.service.getUserPositionAmount(owner as any, DEFAULT_ADDRESS))
   }
 
   async getPositionTicks(owner: ActorId, offset: bigint): Promise<PositionTick[]> {
-- 
2.43.0


From 18db4760cec0aeddd219123c8a83425235d9c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 16/21] fix: client: begin getAllPositions at the first page
 that is not skipped, under its own index

---
 sdk/src/invariant.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index e71aabb..d9f2dc1 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -215,7 +215,10 @@ export class Invariant {
     skipPages?: number[],
     positionsPerPage?: bigint
   ) {
-    const firstPageIndex = skipPages?.find(i => !skipPages.includes(i)) || 0
+    let firstPageIndex = 0
+    while (skipPages?.includes(firstPageIndex)) {
+      firstPageIndex++
+    }
     const positionsPerPageLimit = positionsPerPage || POSITIONS_ENTRIES_LIMIT
 
     let pages: Page[] = []
@@ -227,7 +230,7 @@ export class Invariant {
         BigInt(firstPageIndex) * positionsPerPageLimit
       )
 
-      pages.push({ index: 0, entries: positionEntries })
+      pages.push({ index: firstPageIndex, entries: positionEntries })
       actualPositionsCount = positionsCount
     }
 
-- 
2.43.0


From b536f140d6048bb11948e0927a3ce8ec574e3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 17/21] fix: client: return a bigint from calculateTick, as
 declared

---
 sdk/src/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index 261112d..cd38eb3 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -630,7 +630,7 @@ export const getLiquidityByY = (
 }
 
 export const calculateTick = (sqrtPrice: SqrtPrice, tickSpacing: bigint): bigint => {
-  return _calculateTick(sqrtPrice, tickSpacing)
+  return BigInt(_calculateTick(sqrtPrice, tickSpacing))
 }
 
 export const isTokenX = (token0: HexString, token1: HexString): boolean => {
-- 
2.43.0


From 131ceb5b5c5d2cbd02252d299c9bfa585bdf8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 18/21] fix: client: name a complete type in
 validateFungibleTokenResponse

---
 sdk/src/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index cd38eb3..6cdc751 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -317,7 +317,7 @@ export class TransactionWrapper<U> {
 
 export const validateFungibleTokenResponse = (message: UserMessageSent) => {
   const registry = new TypeRegistry()
-  const json = registry.createType('(String, String, bool', message.data.message.payload)
+  const json = registry.createType('(String, String, bool)', message.data.message.payload)
   return json[2].isTrue ? null : 'Token response invalid'
 }
 
-- 
2.43.0


From 5b0d062ad205c5e29e0fcb3821ef9ace7f06d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 19/21] fix: client: find the most a position can cost within
 the slippage from each bound's own tick

---
 sdk/src/utils.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index 6cdc751..a2814dd 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -67,7 +67,15 @@ import {
   Liquidity
 } from './schema.js'
 import { Network } from './network.js'
-import { CONCENTRATION_FACTOR, LOCAL, MAINNET, MAX_SWAP_STEPS, TESTNET } from './consts.js'
+import {
+  CONCENTRATION_FACTOR,
+  LOCAL,
+  MAINNET,
+  MAX_SQRT_PRICE,
+  MAX_SWAP_STEPS,
+  MIN_SQRT_PRICE,
+  TESTNET
+} from './consts.js'
 export { HexString } from '@gear-js/api'
 
 export type Signer = string | IKeyringPair
@@ -810,13 +818,13 @@ export const calculateTokenAmountsWithSlippage = (
   slippage: Percentage,
   roundingUp: boolean
 ): [bigint, bigint] => {
-  const lowerBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, false)
-  const upperBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, true)
-
-  const currentTickIndex = calculateTick(currentSqrtPrice, tickSpacing)
+  const lowerSqrtPrice = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, false)
+  const upperSqrtPrice = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, true)
+  const lowerBound = lowerSqrtPrice > MIN_SQRT_PRICE ? lowerSqrtPrice : MIN_SQRT_PRICE
+  const upperBound = upperSqrtPrice < MAX_SQRT_PRICE ? upperSqrtPrice : MAX_SQRT_PRICE
 
   const [lowerX, lowerY] = calculateAmountDelta(
-    currentTickIndex,
+    calculateTick(lowerBound, tickSpacing),
     lowerBound,
     liquidity,
     roundingUp,
@@ -824,7 +832,7 @@ export const calculateTokenAmountsWithSlippage = (
     lowerTickIndex
   )
   const [upperX, upperY] = calculateAmountDelta(
-    currentTickIndex,
+    calculateTick(upperBound, tickSpacing),
     upperBound,
     liquidity,
     roundingUp,
-- 
2.43.0


From 4c7a76dfff240651ffaa296005a8a287ebb8ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 20/21] fix: client: let a deployment fail when the program
 does not start

---
 sdk/src/erc20.ts     | 2 +-
 sdk/src/invariant.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/erc20.ts b/sdk/src/erc20.ts
index b54791b..e875d27 100644
--- a/sdk/src/erc20.ts
+++ b/sdk/src/erc20.ts
@@ -29,7 +29,7 @@ export class FungibleToken {
 
     {
       const { response } = await deployTx.signAndSend()
-      response()
+      await response()
     }
 
     if (!erc20.programId) {
diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index d9f2dc1..48b4dc9 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -87,7 +87,7 @@ export class Invariant {
 
     {
       const { response } = await deployTx.signAndSend()
-      response()
+      await response()
     }
 
     return new Invariant(invariant, gasLimit)
-- 
2.43.0


From 171ca24639049c755e16728fade4cdf44761a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 21/21] fix: client: do not let a rounding error end the
 concentrations after the first

---
 sdk/src/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index a2814dd..142f1c2 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -761,7 +761,7 @@ export const getConcentrationArray = (
   const concentrations: number[] = []
   let counter = 0
   let concentration = 0
-  let lastConcentration = calculateConcentration(tickSpacing, minimumRange, counter) + 1
+  let lastConcentration = Number.POSITIVE_INFINITY
   let concentrationDelta = 1
 
   while (concentrationDelta >= 1) {
-- 
2.43.0

