From eeb85a5887e2acf668ee91be886de81b664a10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 01/33] fix: use the liab price for all weight scaling in
 adjust_token_balance

The health cache is built with weights scaled using the pessimistic (liab)
price, but adjusting a token balance recomputed the asset weight scaling with
the asset price. With oracle and stable price apart the post-action init
health was overestimated and withdrawals that lower an already negative init
health were accepted.
---
 programs/mango-v4/src/health/cache.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 5c92525..0032869 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -854,10 +854,11 @@ impl HealthCache {
 
         // Note: resetting the weights here assumes that the change has been applied to
         // the passed in bank already
-        entry.init_scaled_asset_weight =
-            bank.scaled_init_asset_weight(entry.prices.asset(HealthType::Init));
-        entry.init_scaled_liab_weight =
-            bank.scaled_init_liab_weight(entry.prices.liab(HealthType::Init));
+        //
+        // Like in new_health_cache(): use the liab price for both weight scalings
+        let liab_price = entry.prices.liab(HealthType::Init);
+        entry.init_scaled_asset_weight = bank.scaled_init_asset_weight(liab_price);
+        entry.init_scaled_liab_weight = bank.scaled_init_liab_weight(liab_price);
 
         // Work around the fact that -((-x) * y) == x * y does not hold for I80F48:
         // We need to make sure that if balance is before * price, then change = -before
-- 
2.43.0


From 541aee19bede0c8d526a83e37f9439632ff928d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 02/33] fix: lower the deposit index of every bank when
 socializing a loss

The loop stopped as soon as the liqee was credited in full, so depositors of the
remaining banks of the token did not take part in the loss.
---
 programs/mango-v4/src/instructions/token_liq_bankruptcy.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
index 430b3b0..f919084 100644
--- a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
+++ b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
@@ -265,9 +265,6 @@ pub fn token_liq_bankruptcy(
                 liqee_liab_active =
                     bank.deposit_with_dusting(liqee_liab, amount_for_bank, now_ts)?;
                 amount_to_credit -= amount_for_bank;
-                if amount_to_credit <= 0 {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 5ef2aeb8c29dd9325a02c2036fda6b5301f9bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 03/33] fix: conditional swaps selling a deposit-reduce-only
 token can be triggered

---
 .../src/instructions/token_conditional_swap_trigger.rs      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs b/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
index 1d25846..53b266a 100644
--- a/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
+++ b/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
@@ -440,8 +440,10 @@ fn action(
             u64::MAX,
             post_liqee_buy_token,
             post_liqee_sell_token,
-            I80F48::MAX, // other liqors might not have reduce-only related restrictions
-            I80F48::MIN,
+            // other liqors might not have reduce-only related restrictions
+            // (not I80F48::MAX/MIN, because those can't be negated and rounded without overflow)
+            I80F48::from(u64::MAX),
+            -I80F48::from(u64::MAX),
             buy_bank,
             sell_bank,
         );
-- 
2.43.0


From 60e8608384a06a63393124447703b2995b988627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 04/33] fix: weight the stable price delay accumulator by the
 same time step as its prices

update() adds oracle_price * min(dt, 10 min) to the price accumulator but the
unlimited dt to the time accumulator, so after any gap of more than ten minutes
the interval average, and with it the delay price, is far below every price
that was ever observed.
---
 programs/mango-v4/src/state/stable_price.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index c70caa1..77999b9 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -133,7 +133,7 @@ impl StablePriceModel {
         //
         // Update delay price
         //
-        self.delay_accumulator_time += dt as u32;
+        self.delay_accumulator_time += dt_limited as u32;
         self.delay_accumulator_price += oracle_price * dt_limited;
 
         let delay_interval_index = self.delay_interval_index(now_ts);
-- 
2.43.0


From e3df51ea6a822bd1e2fac686e59c4e6acb4eab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 05/33] fix: settle funding before force-closing perp positions

record_trade() changes the base position. Without settling funding first, the
funding accrued on the closed lots since the last settlement is lost (or charged
on the wrong size), so longs and shorts no longer balance.
---
 .../mango-v4/src/instructions/perp_force_close_position.rs     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_force_close_position.rs b/programs/mango-v4/src/instructions/perp_force_close_position.rs
index 1f4aa13..0d58e56 100644
--- a/programs/mango-v4/src/instructions/perp_force_close_position.rs
+++ b/programs/mango-v4/src/instructions/perp_force_close_position.rs
@@ -42,6 +42,9 @@ pub fn perp_force_close_position(ctx: Context<PerpForceClosePosition>) -> Result
     )?;
     let quote_transfer = I80F48::from(base_transfer * perp_market.base_lot_size) * oracle_price;
 
+    account_a_perp_position.settle_funding(&perp_market);
+    account_b_perp_position.settle_funding(&perp_market);
+
     account_a_perp_position.record_trade(&mut perp_market, -base_transfer, quote_transfer);
     account_b_perp_position.record_trade(&mut perp_market, base_transfer, -quote_transfer);
 
-- 
2.43.0


From c428c599cb61fb212ae27fb3a62e41d13af05269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 06/33] fix: refresh the settle limit window before settling
 fees

perp_settle_fees applied the settle limit against whatever window was last
recorded on the position, so an old window's settlements kept counting: amounts
lost in an expired window blocked settling, and amounts gained in one allowed
settling more than the current window's limit.
---
 programs/mango-v4/src/instructions/perp_settle_fees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/instructions/perp_settle_fees.rs b/programs/mango-v4/src/instructions/perp_settle_fees.rs
index 87449f5..8e33099 100644
--- a/programs/mango-v4/src/instructions/perp_settle_fees.rs
+++ b/programs/mango-v4/src/instructions/perp_settle_fees.rs
@@ -50,6 +50,8 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     // Calculate PnL
     let pnl = perp_position.unsettled_pnl(&perp_market, oracle_price)?;
 
+    let (now_ts, now_slot) = clock_now();
+    perp_position.update_settle_limit(&perp_market, now_ts);
     let settleable_pnl = perp_position.apply_pnl_settle_limit(&perp_market, pnl);
 
     if !settleable_pnl.is_negative() || !perp_market.fees_accrued.is_positive() {
@@ -124,7 +126,6 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     drop(perp_market);
 
     // Verify that the result of settling did not violate the health of the account that lost money
-    let (now_ts, now_slot) = clock_now();
     let retriever = new_fixed_order_account_retriever(
         ctx.remaining_accounts,
         &account.borrow(),
-- 
2.43.0


From 2f148c9382324a06c941278b36116790a7f6d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 07/33] fix: look up the settle token's price by token index in
 assets_and_liabs

token_infos is ordered by the account's token positions, not by token
index. Indexing it with the perp market's settle token index valued perp
liabilities with another token's price (or panicked), so accounts with
perp positions settled in a non-quote token paid no collateral fees or
were charged when below the liability threshold.
---
 programs/mango-v4/src/health/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 0032869..446c7a3 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -773,7 +773,9 @@ impl HealthCache {
         }
 
         for perp_info in self.perp_infos.iter() {
-            let quote_price = self.token_infos[perp_info.settle_token_index as usize]
+            let quote_price = self
+                .token_info(perp_info.settle_token_index)
+                .expect("perp settle token is in health")
                 .prices
                 .oracle;
             let quote_position_value = perp_info.quote * quote_price;
-- 
2.43.0


From 0dc72cd862929c85751e6fbd75fd386b7e81a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 08/33] fix: don't deactivate perp positions with unprocessed
 taker fills

taker_base_lots and taker_quote_lots are net values: a buy and a sell fill
at the same price cancel out while both events are still on the queue. The
position could then be deactivated, and processing the events failed for
lack of a perp position, blocking the market's event queue.

Track the pending taker base lots without sign and require them to be zero.
---
 .../instructions/perp_deactivate_position.rs    |  4 +++-
 programs/mango-v4/src/state/mango_account.rs    |  1 +
 .../src/state/mango_account_components.rs       | 17 ++++++++++++++---
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/programs/mango-v4/src/instructions/perp_deactivate_position.rs b/programs/mango-v4/src/instructions/perp_deactivate_position.rs
index 01db410..9233c9f 100644
--- a/programs/mango-v4/src/instructions/perp_deactivate_position.rs
+++ b/programs/mango-v4/src/instructions/perp_deactivate_position.rs
@@ -31,7 +31,9 @@ pub fn perp_deactivate_position(ctx: Context<PerpDeactivatePosition>) -> Result<
         "perp position still has open orders"
     );
     require_msg!(
-        perp_position.taker_base_lots == 0 && perp_position.taker_quote_lots == 0,
+        perp_position.taker_base_lots == 0
+            && perp_position.taker_quote_lots == 0
+            && perp_position.taker_pending_base_lots == 0,
         "perp position still has events on event queue"
     );
 
diff --git a/programs/mango-v4/src/state/mango_account.rs b/programs/mango-v4/src/state/mango_account.rs
index c146b23..eb5f888 100644
--- a/programs/mango-v4/src/state/mango_account.rs
+++ b/programs/mango-v4/src/state/mango_account.rs
@@ -1221,6 +1221,7 @@ impl<
                 && p.asks_base_lots == 0
                 && p.taker_base_lots == 0
                 && p.taker_quote_lots == 0
+                && p.taker_pending_base_lots == 0
         });
         first_unused_position_opt
     }
diff --git a/programs/mango-v4/src/state/mango_account_components.rs b/programs/mango-v4/src/state/mango_account_components.rs
index 987f0e8..a2d6a24 100644
--- a/programs/mango-v4/src/state/mango_account_components.rs
+++ b/programs/mango-v4/src/state/mango_account_components.rs
@@ -323,12 +323,19 @@ pub struct PerpPosition {
     /// price and current price of the base position is the overall pnl.
     pub realized_pnl_for_position_native: I80F48,
 
+    /// Base lots of the taker fills on the EventQueue waiting to be processed, summed up
+    /// without sign.
+    ///
+    /// Unlike in taker_base_lots and taker_quote_lots, fills in opposite directions don't
+    /// cancel out. So this is only zero when there's no pending taker fill.
+    pub taker_pending_base_lots: i64,
+
     #[derivative(Debug = "ignore")]
-    pub reserved: [u8; 88],
+    pub reserved: [u8; 80],
 }
 const_assert_eq!(
     size_of::<PerpPosition>(),
-    2 + 2 + 4 + 8 + 8 + 16 + 8 + 16 * 2 + 8 * 2 + 8 * 2 + 8 * 5 + 8 + 2 * 16 + 8 + 16 + 88
+    2 + 2 + 4 + 8 + 8 + 16 + 8 + 16 * 2 + 8 * 2 + 8 * 2 + 8 * 5 + 8 + 2 * 16 + 8 + 16 + 8 + 80
 );
 const_assert_eq!(size_of::<PerpPosition>(), 304);
 const_assert_eq!(size_of::<PerpPosition>() % 8, 0);
@@ -359,7 +366,8 @@ impl Default for PerpPosition {
             settle_pnl_limit_settled_in_current_window_native: 0,
             recurring_settle_pnl_allowance: 0,
             realized_pnl_for_position_native: I80F48::ZERO,
-            reserved: [0; 88],
+            taker_pending_base_lots: 0,
+            reserved: [0; 80],
         }
     }
 }
@@ -377,11 +385,14 @@ impl PerpPosition {
                 self.taker_quote_lots += quote_lots;
             }
         }
+        self.taker_pending_base_lots += base_lots;
     }
     /// Remove taker trade after it has been processed on EventQueue
     pub fn remove_taker_trade(&mut self, base_change: i64, quote_change: i64) {
         self.taker_base_lots -= base_change;
         self.taker_quote_lots -= quote_change;
+        self.taker_pending_base_lots =
+            (self.taker_pending_base_lots - base_change.abs()).max(0);
     }
 
     pub fn adjust_maker_lots(&mut self, side: Side, base_lots: i64) {
-- 
2.43.0


From 7842695ff41d94090b1ef9fe987b5a88d3bbc3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 09/33] fix: don't panic in stable price updates before the
 first non-zero price

---
 programs/mango-v4/src/state/stable_price.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index 77999b9..b6ba35c 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -110,7 +110,11 @@ impl StablePriceModel {
 
     pub fn update(&mut self, now_ts: u64, oracle_price: f64) {
         // If a reset is requested (maybe there never was a non-zero price), jump to the current value
-        if self.reset_on_nonzero_price == 1 && oracle_price > 0.0 {
+        if self.reset_on_nonzero_price == 1 {
+            if oracle_price <= 0.0 {
+                // There's no price to start from yet
+                return;
+            }
             self.reset_to_price(oracle_price, now_ts);
         }
 
-- 
2.43.0


From 1720be90bdb33af0a1c2eeb9f114ff7d745cc9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:38 +0000
Subject: [PATCH 10/33] fix: scale the quote oracle's deviation by the CLMM
 price

---
 programs/mango-v4/src/state/oracle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/state/oracle.rs b/programs/mango-v4/src/state/oracle.rs
index c7e24c7..751701c 100644
--- a/programs/mango-v4/src/state/oracle.rs
+++ b/programs/mango-v4/src/state/oracle.rs
@@ -515,7 +515,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::OrcaCLMM,
                 last_update_time: None,
             }
@@ -528,7 +528,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::RaydiumCLMM,
                 last_update_time: None,
             }
-- 
2.43.0


From e74a07e385250531b8024af39187f4eff533e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 11/33] fix: refuse fee buybacks with a frozen dao account

The account constraint of the dao account checked the user's account a second time.
---
 .../mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
index 6b28381..b6362fa 100644
--- a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
+++ b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
@@ -22,7 +22,7 @@ pub struct AccountBuybackFeesWithMngo<'info> {
     #[account(
         mut,
         has_one = group,
-        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen,
+        constraint = dao_account.load()?.is_operational() @ MangoError::AccountIsFrozen,
         address = group.load()?.buyback_fees_swap_mango_account
     )]
     pub dao_account: AccountLoader<'info, MangoAccountFixed>,
-- 
2.43.0


From ed997984f02741f1eacc03f8d14052d3fac1c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 12/33] fix: keep the fallback oracle when adding a bank to a
 token

---
 programs/mango-v4/src/state/bank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 827f8ca..221f12e 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -377,7 +377,7 @@ impl Bank {
             maint_weight_shift_duration_inv: existing_bank.maint_weight_shift_duration_inv,
             maint_weight_shift_asset_target: existing_bank.maint_weight_shift_asset_target,
             maint_weight_shift_liab_target: existing_bank.maint_weight_shift_liab_target,
-            fallback_oracle: existing_bank.oracle,
+            fallback_oracle: existing_bank.fallback_oracle,
             deposit_limit: existing_bank.deposit_limit,
             zero_util_rate: existing_bank.zero_util_rate,
             platform_liquidation_fee: existing_bank.platform_liquidation_fee,
-- 
2.43.0


From d9200153f10cd192d82ad7ae383d20a65486bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 13/33] fix: checked_math also checks math inside the operands
 of pow, abs and other method calls

---
 lib/checked_math/src/transform/checked.rs | 57 ++++++++++++++++++-----
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/lib/checked_math/src/transform/checked.rs b/lib/checked_math/src/transform/checked.rs
index 85c3947..300216b 100644
--- a/lib/checked_math/src/transform/checked.rs
+++ b/lib/checked_math/src/transform/checked.rs
@@ -35,22 +35,46 @@ pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
     }
 }
 
-pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
+pub fn transform_expr(expr: Expr) -> proc_macro2::TokenStream {
     match expr {
         Expr::Unary(unary) => transform_unary(unary),
         Expr::Binary(binary) => transform_binary(binary),
-        Expr::MethodCall(ref mut mc) => {
-            if mc.method == "pow" {
-                mc.method = syn::Ident::new("checked_pow", mc.method.span());
-                quote! { #mc }
-            } else if mc.method == "abs" {
-                mc.method = syn::Ident::new("checked_abs", mc.method.span());
-                quote! { #mc }
-            } else if mc.args.is_empty() {
-                quote! { Some(#mc) }
-            } else {
+        Expr::MethodCall(mut mc) => {
+            let is_math = mc.method == "pow" || mc.method == "abs";
+            if is_math {
+                mc.method = Ident::new(&format!("checked_{}", mc.method), mc.method.span());
+            } else if !mc.args.is_empty() {
                 abort!(mc, "method calls with arguments are not supported");
             }
+
+            // Math in the receiver or the arguments needs to be checked too
+            let mut operands = vec![];
+            for operand in std::iter::once(&mut *mc.receiver).chain(mc.args.iter_mut()) {
+                if contains_math(operand) {
+                    let name = Ident::new(
+                        &format!("operand{}", operands.len()),
+                        proc_macro2::Span::mixed_site(),
+                    );
+                    operands.push((name.clone(), transform_expr(operand.clone())));
+                    *operand = syn::parse_quote! { #name };
+                }
+            }
+            let call = if is_math {
+                quote! { #mc }
+            } else {
+                quote! { Some(#mc) }
+            };
+            operands
+                .into_iter()
+                .rev()
+                .fold(call, |inner, (name, value)| {
+                    quote! {
+                        match #value {
+                            Some(#name) => #inner,
+                            None => None
+                        }
+                    }
+                })
         }
         Expr::Call(c) => {
             let f = c.func.clone();
@@ -98,6 +122,17 @@ pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
     }
 }
 
+fn contains_math(expr: &Expr) -> bool {
+    match expr {
+        Expr::Binary(_) => true,
+        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)),
+        Expr::Cast(c) => contains_math(&c.expr),
+        Expr::Paren(p) => contains_math(&p.expr),
+        Expr::Group(g) => contains_math(&g.expr),
+        _ => false,
+    }
+}
+
 fn transform_unary(unary: ExprUnary) -> proc_macro2::TokenStream {
     let expr = transform_expr(*unary.expr);
     let op = unary.op;
-- 
2.43.0


From e8ccb183e23b7c635bcdc2bc6682ff3c862d02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:22 +0000
Subject: [PATCH 14/33] fix: fills feed dropped account writes and slot updates

Each input channel was received from in two select! branches, one matching Ok and one matching
Err. tokio polls the branches in random order and drops a value that does not match its branch's
pattern: every message had an even chance of being lost in the Err branch.
---
 .../src/fill_event_filter.rs                  | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/bin/service-mango-fills/src/fill_event_filter.rs b/bin/service-mango-fills/src/fill_event_filter.rs
index 127b9f3..741de77 100644
--- a/bin/service-mango-fills/src/fill_event_filter.rs
+++ b/bin/service-mango-fills/src/fill_event_filter.rs
@@ -463,7 +463,14 @@ pub async fn init(
                 break;
             }
             tokio::select! {
-                Ok(account_write) = account_write_queue_receiver_c.recv() => {
+                result = account_write_queue_receiver_c.recv() => {
+                    let account_write = match result {
+                        Ok(account_write) => account_write,
+                        Err(e) => {
+                            warn!("write update channel err {:?}", e);
+                            continue;
+                        }
+                    };
                     if !all_queue_pks.contains(&account_write.pubkey) {
                         continue;
                     }
@@ -483,7 +490,14 @@ pub async fn init(
                         },
                     );
                 }
-                Ok(slot_update) = slot_queue_receiver.recv() => {
+                result = slot_queue_receiver.recv() => {
+                    let slot_update = match result {
+                        Ok(slot_update) => slot_update,
+                        Err(e) => {
+                            warn!("slot update channel err {:?}", e);
+                            continue;
+                        }
+                    };
                     chain_cache.update_slot(SlotData {
                         slot: slot_update.slot,
                         parent: slot_update.parent,
@@ -492,12 +506,6 @@ pub async fn init(
                     });
 
                 }
-                Err(e) = slot_queue_receiver.recv() => {
-                    warn!("slot update channel err {:?}", e);
-                }
-                Err(e) = account_write_queue_receiver_c.recv() => {
-                    warn!("write update channel err {:?}", e);
-                }
             }
 
             chain_data_metrics.report(&chain_cache);
-- 
2.43.0


From 493faf9dfab2201b6f4a2f849393017771c9a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 15/33] fix: fills feed panicked when a market's event queue
 head was at position 0

The sequence number at the queue head was read from the event before it, indexing position -1 when
the head is at the start of the ring buffer: for new markets and each time the queue wraps around.
---
 .../src/fill_event_filter.rs                  | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/bin/service-mango-fills/src/fill_event_filter.rs b/bin/service-mango-fills/src/fill_event_filter.rs
index 741de77..6deb927 100644
--- a/bin/service-mango-fills/src/fill_event_filter.rs
+++ b/bin/service-mango-fills/src/fill_event_filter.rs
@@ -25,14 +25,22 @@ use std::{
 use crate::metrics::MetricU64;
 use anchor_lang::AccountDeserialize;
 use mango_v4::state::{
-    AnyEvent, EventQueue, EventQueueHeader, EventType, FillEvent as PerpFillEvent,
-    OutEvent as PerpOutEvent, QueueHeader, MAX_NUM_EVENTS,
+    AnyEvent, EventQueue, EventQueueHeader, EventType, FillEvent as PerpFillEvent, QueueHeader,
+    MAX_NUM_EVENTS,
 };
 use service_mango_fills::*;
 
 // couldn't compile the correct struct size / math on m1, fixed sizes resolve this issue
 type EventQueueEvents = [AnyEvent; MAX_NUM_EVENTS as usize];
 
+/// seq_num of the event at queue position `head`, where `seq_num` is the one of the next event
+fn seq_num_at(head: usize, seq_num: u64) -> u64 {
+    let queue_len = MAX_NUM_EVENTS as u64;
+    let tail = seq_num % queue_len;
+    let buffered = (tail + queue_len - head as u64) % queue_len;
+    seq_num - buffered
+}
+
 #[allow(clippy::too_many_arguments)]
 fn publish_changes_perp(
     slot: u64,
@@ -167,25 +175,8 @@ fn publish_changes_perp(
 
     let head = header.head();
 
-    let head_seq_num = if events[head - 1].event_type == EventType::Fill as u8 {
-        let event: PerpFillEvent = bytemuck::cast(events[head - 1]);
-        event.seq_num + 1
-    } else if events[head - 1].event_type == EventType::Out as u8 {
-        let event: PerpOutEvent = bytemuck::cast(events[head - 1]);
-        event.seq_num + 1
-    } else {
-        0
-    };
-
-    let prev_head_seq_num = if prev_events[prev_head - 1].event_type == EventType::Fill as u8 {
-        let event: PerpFillEvent = bytemuck::cast(prev_events[prev_head - 1]);
-        event.seq_num + 1
-    } else if prev_events[prev_head - 1].event_type == EventType::Out as u8 {
-        let event: PerpOutEvent = bytemuck::cast(prev_events[prev_head - 1]);
-        event.seq_num + 1
-    } else {
-        0
-    };
+    let head_seq_num = seq_num_at(head, header.seq_num);
+    let prev_head_seq_num = seq_num_at(prev_head, prev_seq_num);
 
     // publish a head update event if the head changed (events were consumed)
     if head != prev_head {
-- 
2.43.0


From 628e4e63559c77fa382a91e22cdeb602ffed39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 16/33] fix: crank service panicked on every event queue update

The sinks get (market, event queue) pairs and look the market up by its event queue, but the map
was keyed by market.
---
 bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs | 5 ++++-
 bin/service-mango-crank/src/openbook_crank_sink.rs      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs b/bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs
index c6cfa27..d25c8b7 100644
--- a/bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs
+++ b/bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs
@@ -33,7 +33,10 @@ impl MangoV4PerpCrankSink {
         instruction_sender: Sender<Vec<Instruction>>,
     ) -> Self {
         Self {
-            pks: pks.iter().copied().collect(),
+            pks: pks
+                .iter()
+                .map(|(mkt_pk, evq_pk)| (*evq_pk, *mkt_pk))
+                .collect(),
             group_pk,
             instruction_sender,
         }
diff --git a/bin/service-mango-crank/src/openbook_crank_sink.rs b/bin/service-mango-crank/src/openbook_crank_sink.rs
index 14712e2..9b38608 100644
--- a/bin/service-mango-crank/src/openbook_crank_sink.rs
+++ b/bin/service-mango-crank/src/openbook_crank_sink.rs
@@ -25,7 +25,10 @@ pub struct OpenbookCrankSink {
 impl OpenbookCrankSink {
     pub fn new(pks: Vec<(Pubkey, Pubkey)>, instruction_sender: Sender<Vec<Instruction>>) -> Self {
         Self {
-            pks: pks.iter().copied().collect(),
+            pks: pks
+                .iter()
+                .map(|(mkt_pk, evq_pk)| (*evq_pk, *mkt_pk))
+                .collect(),
             instruction_sender,
         }
     }
-- 
2.43.0


From fa7fe03507425ce4c72c5d0ee686083080bad6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:32 +0000
Subject: [PATCH 17/33] fix: crank passed open orders accounts in an order the
 dex does not find them in

The dex binary-searches the accounts by their keys as [u64; 4] (little-endian words), and stops at
the first event whose account it does not find. client.ts serum3ConsumeEvents sorts the same way.
---
 bin/service-mango-crank/src/openbook_crank_sink.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/service-mango-crank/src/openbook_crank_sink.rs b/bin/service-mango-crank/src/openbook_crank_sink.rs
index 9b38608..38d3889 100644
--- a/bin/service-mango-crank/src/openbook_crank_sink.rs
+++ b/bin/service-mango-crank/src/openbook_crank_sink.rs
@@ -69,18 +69,18 @@ impl AccountWriteSink for OpenbookCrankSink {
             return Err("throttled".into());
         }
 
-        let oo_pks: BTreeSet<_> = events
+        // the dex looks the accounts up with a binary search over keys as [u64; 4], a different
+        // order than the one of Pubkey
+        let oo_pks: BTreeSet<[u64; 4]> = events
             .iter()
             .map(|e| match e {
-                EventView::Fill { owner, .. } | EventView::Out { owner, .. } => {
-                    bytemuck::cast_slice::<u64, Pubkey>(owner)[0]
-                }
+                EventView::Fill { owner, .. } | EventView::Out { owner, .. } => *owner,
             })
             .collect();
 
         let mut ams: Vec<_> = oo_pks
             .iter()
-            .map(|pk| AccountMeta::new(*pk, false))
+            .map(|pk| AccountMeta::new(bytemuck::cast_slice::<u64, Pubkey>(pk)[0], false))
             .collect();
 
         // pass two times evq_pk instead of deprecated fee receivers to reduce encoded tx size
-- 
2.43.0


From 8a57a88f27e6336e6f32524d0f0646a6bf23cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 18/33] fix: order book feed did not publish updates that only
 add or only remove orders

---
 bin/service-mango-orderbook/src/orderbook_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index 26faccb..bb65410 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -222,7 +222,7 @@ fn publish_changes(
         metric_level_updates.increment();
     }
 
-    if !book_additions.is_empty() && !book_removals.is_empty() {
+    if !book_additions.is_empty() || !book_removals.is_empty() {
         orderbook_update_sender
             .try_send(OrderbookFilterMessage::BookUpdate(BookUpdate {
                 market: mkt.0.to_string(),
-- 
2.43.0


From bed96a077716a1f246907934b5a46987badd4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 19/33] fix: order book feed lost orders equal to another one
 of the same owner

---
 .../src/orderbook_filter.rs                   | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index bb65410..ce2fbb6 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -78,7 +78,9 @@ fn publish_changes(
 ) {
     let mut level_update: Vec<OrderbookLevel> = vec![];
     let mut book_additions: Vec<Order> = vec![];
-    let mut book_removals: Vec<Order> = vec![];
+    // previous orders without an equal current order, every order is matched at most once since
+    // there can be several with the same price, quantity and owner
+    let mut book_removals: Vec<Order> = previous_orders.clone();
 
     let current_bookside: Vec<OrderbookLevel> = current_orders
         .iter()
@@ -102,18 +104,6 @@ fn publish_changes(
         )
     }
 
-    for prev_order in previous_orders.iter() {
-        let peer = current_orders.iter().find(|order| prev_order == *order);
-
-        match peer {
-            None => {
-                debug!("R {:?}", prev_order);
-                book_removals.push(prev_order.clone());
-            }
-            _ => continue,
-        }
-    }
-
     for previous_level in previous_bookside.iter() {
         let peer = current_bookside
             .iter()
@@ -153,11 +143,11 @@ fn publish_changes(
     }
 
     for current_order in current_orders {
-        let peer = previous_orders.iter().find(|order| current_order == *order);
+        let peer = book_removals.iter().position(|order| current_order == order);
 
         match peer {
-            Some(_) => {
-                continue;
+            Some(i) => {
+                book_removals.remove(i);
             }
             None => {
                 debug!("A {:?}", current_order);
@@ -166,6 +156,10 @@ fn publish_changes(
         }
     }
 
+    for prev_order in &book_removals {
+        debug!("R {:?}", prev_order);
+    }
+
     match maybe_other_orders {
         Some(other_orders) => {
             let (bids, asks) = match side {
-- 
2.43.0


From e9e33be6ba164c20742ba8b49b3404acee0bf724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 20/33] fix: order book feed did not move the asks' and other
 markets' pegged orders with the oracle

---
 .../src/orderbook_filter.rs                        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index ce2fbb6..aba54ec 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -143,7 +143,9 @@ fn publish_changes(
     }
 
     for current_order in current_orders {
-        let peer = book_removals.iter().position(|order| current_order == order);
+        let peer = book_removals
+            .iter()
+            .position(|order| current_order == order);
 
         match peer {
             Some(i) => {
@@ -322,9 +324,10 @@ pub async fn init(
                     let last_side_write_version = last_write_versions
                         .get(&side_pk.to_string())
                         .unwrap_or(&(0, 0));
-                    let last_oracle_write_version = last_write_versions
-                        .get(&oracle_pk.to_string())
-                        .unwrap_or(&(0, 0));
+                    // oracle version used for this side, the oracle can be shared with other books
+                    let side_oracle_key = format!("{}:{}", side_pk, oracle_pk);
+                    let last_oracle_write_version =
+                        last_write_versions.get(&side_oracle_key).unwrap_or(&(0, 0));
 
                     match (
                         chain_cache.account(&side_pk),
@@ -332,7 +335,6 @@ pub async fn init(
                     ) {
                         (Ok(side_info), Ok(oracle_info)) => {
                             let side_pk_string = side_pk.to_string();
-                            let oracle_pk_string = oracle_pk.to_string();
 
                             if !side_info
                                 .is_newer_than(last_side_write_version.0, last_side_write_version.1)
@@ -349,7 +351,7 @@ pub async fn init(
                                 (side_info.slot, side_info.write_version),
                             );
                             last_write_versions.insert(
-                                oracle_pk_string.clone(),
+                                side_oracle_key,
                                 (oracle_info.slot, oracle_info.write_version),
                             );
 
-- 
2.43.0


From 0c0f220e369cdf834ee6bc0fac9be30c6d00637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 21/33] fix: feeds panicked for perp markets with fewer base
 than quote decimals

---
 lib/mango-feeds-lib/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/mango-feeds-lib/src/lib.rs b/lib/mango-feeds-lib/src/lib.rs
index 3a465de..5c39429 100644
--- a/lib/mango-feeds-lib/src/lib.rs
+++ b/lib/mango-feeds-lib/src/lib.rs
@@ -101,7 +101,6 @@ pub fn price_lots_to_ui_perp(
     base_lot_size: i64,
     quote_lot_size: i64,
 ) -> f64 {
-    let decimals = base_decimals.checked_sub(quote_decimals).unwrap();
-    let multiplier = 10u64.pow(decimals.into()) as f64;
+    let multiplier = 10f64.powi(base_decimals as i32 - quote_decimals as i32);
     native as f64 * ((multiplier * quote_lot_size as f64) / base_lot_size as f64)
 }
-- 
2.43.0


From c7821a4090a79a44b603bbd63abc6bc37c167036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:24 +0000
Subject: [PATCH 22/33] fix: client health cache puts the fallback oracles'
 start before the fallback accounts

---
 lib/client/src/health_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/health_cache.rs b/lib/client/src/health_cache.rs
index 8f666c0..a8590da 100644
--- a/lib/client/src/health_cache.rs
+++ b/lib/client/src/health_cache.rs
@@ -16,6 +16,7 @@ pub async fn new(
 ) -> anyhow::Result<HealthCache> {
     let active_token_len = account.active_token_positions().count();
     let active_perp_len = account.active_perp_positions().count();
+    let active_serum3_len = account.active_serum3_orders().count();
 
     let fallback_keys = context
         .derive_fallback_oracle_keys(fallback_config, account_fetcher)
@@ -44,7 +45,7 @@ pub async fn new(
         begin_perp: active_token_len * 2,
         begin_serum3: active_token_len * 2 + active_perp_len * 2,
         now: None,
-        begin_fallback_oracles: metas.len(),
+        begin_fallback_oracles: active_token_len * 2 + active_perp_len * 2 + active_serum3_len,
         usdc_oracle_index: metas
             .iter()
             .position(|m| m.pubkey == pyth_mainnet_usdc_oracle::ID),
-- 
2.43.0


From 1da4b8568f4b27a54f50e4ac653bf60460d09578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:54 +0000
Subject: [PATCH 23/33] fix: client keeps fallback oracles that are also a
 primary oracle

---
 lib/client/src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/context.rs b/lib/client/src/context.rs
index 3071bd0..fc0eff7 100644
--- a/lib/client/src/context.rs
+++ b/lib/client/src/context.rs
@@ -462,7 +462,7 @@ impl MangoGroupContext {
         let fallback_oracles: Vec<Pubkey> = fallbacks
             .into_iter()
             .unique()
-            .filter(|key| !oracles.contains(key) && key != &Pubkey::default())
+            .filter(|key| key != &Pubkey::default())
             .collect();
         let fallbacks_len = fallback_oracles.len();
 
@@ -544,7 +544,7 @@ impl MangoGroupContext {
         let fallback_oracles: Vec<Pubkey> = fallbacks
             .into_iter()
             .unique()
-            .filter(|key| !oracles.contains(key) && key != &Pubkey::default())
+            .filter(|key| key != &Pubkey::default())
             .collect();
         let fallbacks_len = fallback_oracles.len();
 
-- 
2.43.0


From 255afa88fc8be383a6a45baec914cb5a2a24979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:57 +0000
Subject: [PATCH 24/33] fix: cached account fetcher returns the cached accounts
 along with the fetched ones

---
 lib/client/src/account_fetcher.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/client/src/account_fetcher.rs b/lib/client/src/account_fetcher.rs
index 9b769a5..08b5221 100644
--- a/lib/client/src/account_fetcher.rs
+++ b/lib/client/src/account_fetcher.rs
@@ -290,7 +290,7 @@ impl<T: AccountFetcher + 'static> AccountFetcher for CachedAccountFetcher<T> {
         &self,
         keys: &[Pubkey],
     ) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
-        let fetch_job = {
+        let (cached, fetch_job) = {
             let mut cache = self.cache.lock().unwrap();
             let mut missing_keys: Vec<Pubkey> = keys
                 .iter()
@@ -304,6 +304,11 @@ impl<T: AccountFetcher + 'static> AccountFetcher for CachedAccountFetcher<T> {
                     .collect::<Vec<_>>());
             }
 
+            let cached: HashMap<Pubkey, AccountSharedData> = keys
+                .iter()
+                .filter_map(|k| cache.accounts.get(k).map(|account| (*k, account.clone())))
+                .collect();
+
             let self_copy = self.clone();
             missing_keys.sort();
             let mut hasher = Hasher::default();
@@ -311,7 +316,7 @@ impl<T: AccountFetcher + 'static> AccountFetcher for CachedAccountFetcher<T> {
                 hasher.hash(key.as_ref());
             }
             let job_key = hasher.result();
-            cache
+            let job = cache
                 .multiple_accounts_jobs
                 .run_coalesced(job_key.clone(), async move {
                     let result = self_copy
@@ -327,11 +332,26 @@ impl<T: AccountFetcher + 'static> AccountFetcher for CachedAccountFetcher<T> {
                         }
                     }
                     result
-                })
+                });
+            (cached, job)
         };
 
         match fetch_job.get().await {
-            Ok(v) => Ok(v.clone()),
+            // the job only covers the keys that weren't cached
+            Ok(fetched) => Ok(keys
+                .iter()
+                .filter_map(|key| {
+                    cached
+                        .get(key)
+                        .or_else(|| {
+                            fetched
+                                .iter()
+                                .find(|(fetched_key, _)| fetched_key == key)
+                                .map(|(_, account)| account)
+                        })
+                        .map(|account| (*key, account.clone()))
+                })
+                .collect()),
             // Can't clone the stored error, so need to stringize it
             Err(err) => Err(anyhow::format_err!(
                 "fetch error in CachedAccountFetcher: {:?}",
-- 
2.43.0


From 41acb0ae25916e58b9c8c71a7cf98b8fb2a69f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:28 +0000
Subject: [PATCH 25/33] fix: client finds fallback oracles by token instead of
 by primary oracle

---
 lib/client/src/context.rs | 46 ++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/lib/client/src/context.rs b/lib/client/src/context.rs
index fc0eff7..08407f5 100644
--- a/lib/client/src/context.rs
+++ b/lib/client/src/context.rs
@@ -20,7 +20,7 @@ use itertools::Itertools;
 use crate::{gpa::*, AccountFetcher, FallbackOracleConfig};
 
 use solana_client::nonblocking::rpc_client::RpcClient as RpcClientAsync;
-use solana_sdk::account::Account;
+use solana_sdk::account::{Account, AccountSharedData};
 use solana_sdk::instruction::AccountMeta;
 use solana_sdk::pubkey::Pubkey;
 
@@ -423,7 +423,7 @@ impl MangoGroupContext {
         affected_tokens: Vec<TokenIndex>,
         writable_banks: Vec<TokenIndex>,
         affected_perp_markets: Vec<PerpMarketIndex>,
-        fallback_contexts: HashMap<Pubkey, FallbackOracleContext>,
+        fallback_contexts: HashMap<TokenIndex, FallbackOracleContext>,
     ) -> anyhow::Result<(Vec<AccountMeta>, u32)> {
         let mut account = account.clone();
         for affected_token_index in affected_tokens.iter().chain(writable_banks.iter()) {
@@ -445,7 +445,7 @@ impl MangoGroupContext {
                 writable_banks.iter().any(|&ti| ti == position.token_index),
             ));
             oracles.push(token.oracle);
-            if let Some(fallback_context) = fallback_contexts.get(&token.oracle) {
+            if let Some(fallback_context) = fallback_contexts.get(&position.token_index) {
                 fallbacks.extend(fallback_context.keys());
             }
         }
@@ -499,7 +499,7 @@ impl MangoGroupContext {
         account2: &MangoAccountValue,
         affected_tokens: &[TokenIndex],
         writable_banks: &[TokenIndex],
-        fallback_contexts: HashMap<Pubkey, FallbackOracleContext>,
+        fallback_contexts: HashMap<TokenIndex, FallbackOracleContext>,
     ) -> anyhow::Result<(Vec<AccountMeta>, u32)> {
         // figure out all the banks/oracles that need to be passed for the health check
         let mut banks = vec![];
@@ -518,7 +518,7 @@ impl MangoGroupContext {
             let writable_bank = writable_banks.iter().contains(&token_index);
             banks.push((token.first_bank(), writable_bank));
             oracles.push(token.oracle);
-            if let Some(fallback_context) = fallback_contexts.get(&token.oracle) {
+            if let Some(fallback_context) = fallback_contexts.get(&token_index) {
                 fallbacks.extend(fallback_context.keys());
             }
         }
@@ -653,14 +653,14 @@ impl MangoGroupContext {
         Ok(new_perp_markets.len() > self.perp_markets.len())
     }
 
-    /// Returns a map of oracle pubkey -> FallbackOracleContext
+    /// Returns a map of token index -> FallbackOracleContext
     pub async fn derive_fallback_oracle_keys(
         &self,
         fallback_oracle_config: &FallbackOracleConfig,
         account_fetcher: &dyn AccountFetcher,
-    ) -> anyhow::Result<HashMap<Pubkey, FallbackOracleContext>> {
+    ) -> anyhow::Result<HashMap<TokenIndex, FallbackOracleContext>> {
         // FUTURE: implement for perp oracles as well
-        let fallbacks_by_oracle = match fallback_oracle_config {
+        let fallbacks_by_token = match fallback_oracle_config {
             FallbackOracleConfig::Never => HashMap::new(),
             FallbackOracleConfig::Fixed(keys) => self
                 .tokens
@@ -669,22 +669,22 @@ impl MangoGroupContext {
                     token.1.fallback_context.key != Pubkey::default()
                         && keys.contains(&token.1.fallback_context.key)
                 })
-                .map(|t| (t.1.oracle, t.1.fallback_context.clone()))
+                .map(|t| (*t.0, t.1.fallback_context.clone()))
                 .collect(),
             FallbackOracleConfig::All => self
                 .tokens
                 .iter()
                 .filter(|token| token.1.fallback_context.key != Pubkey::default())
-                .map(|t| (t.1.oracle, t.1.fallback_context.clone()))
+                .map(|t| (*t.0, t.1.fallback_context.clone()))
                 .collect(),
             FallbackOracleConfig::Dynamic => {
-                let tokens_by_oracle: HashMap<Pubkey, &TokenContext> =
-                    self.tokens.iter().map(|t| (t.1.oracle, t.1)).collect();
                 let oracle_keys: Vec<Pubkey> =
-                    tokens_by_oracle.values().map(|b| b.oracle).collect();
-                let oracle_accounts = account_fetcher
+                    self.tokens.values().map(|t| t.oracle).unique().collect();
+                let oracle_accounts: HashMap<Pubkey, AccountSharedData> = account_fetcher
                     .fetch_multiple_accounts(&oracle_keys)
-                    .await?;
+                    .await?
+                    .into_iter()
+                    .collect();
                 let now_slot = account_fetcher.get_slot().await?;
                 let now_ts = SystemTime::now()
                     .duration_since(SystemTime::UNIX_EPOCH)
@@ -692,10 +692,16 @@ impl MangoGroupContext {
                     .as_secs();
 
                 let mut stale_oracles_with_fallbacks = vec![];
-                for (key, acc) in oracle_accounts {
-                    let token = tokens_by_oracle.get(&key).unwrap();
+                for (token_index, token) in self.tokens.iter() {
+                    let acc = match oracle_accounts.get(&token.oracle) {
+                        Some(acc) => acc.clone(),
+                        None => continue,
+                    };
                     let state = oracle_state_unchecked(
-                        &OracleAccountInfos::from_reader(&KeyedAccountSharedData::new(key, acc)),
+                        &OracleAccountInfos::from_reader(&KeyedAccountSharedData::new(
+                            token.oracle,
+                            acc,
+                        )),
                         token.decimals,
                     )?;
                     let oracle_is_valid = state.check_confidence_and_maybe_staleness(
@@ -704,14 +710,14 @@ impl MangoGroupContext {
                     );
                     if oracle_is_valid.is_err() && token.fallback_context.key != Pubkey::default() {
                         stale_oracles_with_fallbacks
-                            .push((token.oracle, token.fallback_context.clone()));
+                            .push((*token_index, token.fallback_context.clone()));
                     }
                 }
                 stale_oracles_with_fallbacks.into_iter().collect()
             }
         };
 
-        Ok(fallbacks_by_oracle)
+        Ok(fallbacks_by_token)
     }
 }
 
-- 
2.43.0


From cde0099f2ed924e74fd7a9371ccb2e1ee62a0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:57 +0000
Subject: [PATCH 26/33] fix: client signs perp_settle_pnl with the settler
 owner

---
 lib/client/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 7e1bc7a..da8fc3f 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -1693,7 +1693,7 @@ impl MangoClient {
         let ixs = self
             .perp_settle_pnl_instruction(market_index, account_a, account_b)
             .await?;
-        self.send_and_confirm_permissionless_tx(ixs.to_instructions())
+        self.send_and_confirm_authority_tx(ixs.to_instructions())
             .await
     }
 
-- 
2.43.0


From 2f555f5faccc135b7c1ebc8a26ed6998b4da219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:16 +0000
Subject: [PATCH 27/33] fix: client orders new spot token positions like the
 program does

---
 lib/client/src/client.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index da8fc3f..df88bee 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -935,16 +935,12 @@ impl MangoClient {
         &self,
         mut account: &mut MangoAccountValue,
         market_index: Serum3MarketIndex,
-        side: Serum3Side,
+        _side: Serum3Side,
     ) -> anyhow::Result<PreparedInstructions> {
         let mut ixs = PreparedInstructions::new();
 
         let base = self.context.serum3_base_token(market_index);
         let quote = self.context.serum3_quote_token(market_index);
-        let (payer_token, receiver_token) = match side {
-            Serum3Side::Bid => (&quote, &base),
-            Serum3Side::Ask => (&base, &quote),
-        };
 
         let open_orders_opt = account
             .serum3_orders(market_index)
@@ -953,10 +949,11 @@ impl MangoClient {
 
         let mut missing_tokens = false;
 
+        // same order as when the open orders account is created on chain
         let token_replace_ixs = self
             .find_existing_or_try_to_replace_token_positions(
                 &mut account,
-                &[payer_token.token_index, receiver_token.token_index],
+                &[quote.token_index, base.token_index],
             )
             .await;
         match token_replace_ixs {
@@ -984,7 +981,7 @@ impl MangoClient {
                 ixs.append(
                     self.find_existing_or_try_to_replace_token_positions(
                         &mut account,
-                        &[payer_token.token_index, receiver_token.token_index],
+                        &[quote.token_index, base.token_index],
                     )
                     .await?,
                 );
-- 
2.43.0


From 189ca6c9ae260d2c6a006dd5bd518d0c1a2234d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:27 +0000
Subject: [PATCH 28/33] fix: client only considers open spot accounts for
 closing, and fails cleanly without one

---
 lib/client/src/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index df88bee..c94d68a 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -1006,7 +1006,7 @@ impl MangoClient {
     ) -> anyhow::Result<PreparedInstructions> {
         let mut serum3_closable_order_market_index = None;
 
-        for p in account.all_serum3_orders() {
+        for p in account.active_serum3_orders() {
             let open_orders_acc = self
                 .account_fetcher
                 .fetch_raw_account(&p.open_orders)
@@ -1026,8 +1026,8 @@ impl MangoClient {
             }
         }
 
-        let first_closable_slot =
-            serum3_closable_order_market_index.expect("couldn't find any serum3 slot available");
+        let first_closable_slot = serum3_closable_order_market_index
+            .ok_or_else(|| anyhow::anyhow!("couldn't find any serum3 slot available"))?;
 
         let ixs = self.serum3_close_open_orders_instruction(first_closable_slot);
 
-- 
2.43.0


From ab10be69647740f73dd307ede3f764e5123a40d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:21 +0000
Subject: [PATCH 29/33] fix: client makes room for missing token positions
 before adding them

---
 lib/client/src/client.rs | 51 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index c94d68a..1b85534 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -1043,52 +1043,51 @@ impl MangoClient {
         Ok(ixs)
     }
 
+    /// Makes sure the account has positions for all the tokens, closing unused positions of other
+    /// tokens if there's not enough room. The account is unchanged if that fails.
     async fn find_existing_or_try_to_replace_token_positions(
         &self,
         account: &mut MangoAccountValue,
         token_indexes: &[TokenIndex],
     ) -> anyhow::Result<PreparedInstructions> {
         let mut ixs = PreparedInstructions::new();
+        let mut modified = account.clone();
 
+        let missing = token_indexes
+            .iter()
+            .filter(|&&token_index| modified.token_position(token_index).is_err())
+            .count();
+        let free = modified
+            .all_token_positions()
+            .filter(|p| !p.is_active())
+            .count();
+
+        // The closing instructions execute while none of the missing positions exist yet
+        for _ in free..missing {
+            ixs.append(
+                self.deactivate_first_active_unused_token(&mut modified, token_indexes)
+                    .await?,
+            );
+        }
         for token_index in token_indexes {
-            let result = self
-                .find_existing_or_try_to_replace_token_position(account, *token_index)
-                .await?;
-            if let Some(ix) = result {
-                ixs.append(ix);
-            }
+            modified.ensure_token_position(*token_index)?;
         }
 
+        *account = modified;
         Ok(ixs)
     }
 
-    async fn find_existing_or_try_to_replace_token_position(
-        &self,
-        account: &mut MangoAccountValue,
-        token_index: TokenIndex,
-    ) -> anyhow::Result<Option<PreparedInstructions>> {
-        let token_position_missing = account
-            .ensure_token_position(token_index)
-            .is_anchor_error_with_code(MangoError::NoFreeTokenPositionIndex.error_code());
-
-        if !token_position_missing {
-            return Ok(None);
-        }
-
-        let ixs = self.deactivate_first_active_unused_token(account).await?;
-        account.ensure_token_position(token_index)?;
-
-        Ok(Some(ixs))
-    }
-
     async fn deactivate_first_active_unused_token(
         &self,
         account: &mut MangoAccountValue,
+        needed_tokens: &[TokenIndex],
     ) -> anyhow::Result<PreparedInstructions> {
         let closable_tokens = account
             .all_token_positions()
             .enumerate()
-            .filter(|(_, p)| p.is_active() && !p.is_in_use());
+            .filter(|(_, p)| {
+                p.is_active() && !p.is_in_use() && !needed_tokens.contains(&p.token_index)
+            });
 
         let mut closable_token_position_raw_index_opt = None;
         let mut closable_token_bank_opt = None;
-- 
2.43.0


From c3b08b56e01161db9d9dd859fc57db93b6db36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:16 +0000
Subject: [PATCH 30/33] fix: value net borrows at the higher of oracle and
 stable price when limiting swap sizes

---
 programs/mango-v4/src/health/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index efc6c75..c020427 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -67,9 +67,11 @@ impl HealthCache {
             .native(target_bank);
 
         // net borrow limit on source
+        // (net borrows are valued at the higher of oracle and stable price)
+        let net_borrow_price = source_oracle_price.max(source_bank.stable_price());
         let available_net_borrows = source_bank
             .remaining_net_borrows_quote(source_oracle_price)
-            .saturating_div(source_oracle_price);
+            .saturating_div(net_borrow_price);
         let potential_source = source_unlimited
             .min(available_net_borrows.saturating_add(source_pos.max(I80F48::ZERO)));
 
-- 
2.43.0


From 128771bb76d190c29e15216275156b84879e5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:16 +0000
Subject: [PATCH 31/33] fix: do not panic on rounding noise when searching for
 the best swap size

---
 programs/mango-v4/src/health/client.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index c020427..84c0412 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -560,6 +560,9 @@ fn binary_search(
 /// distinct maximums with non-maximal values between them.
 ///
 /// If the maximum isn't just a single point, it returns the rightmost value.
+///
+/// Where `fun` is flat, rounding can make the values there differ slightly, so the order of
+/// values that the assumption implies can't be asserted.
 fn find_maximum(
     mut left: I80F48,
     mut right: I80F48,
@@ -576,14 +579,12 @@ fn find_maximum(
         //println!("it {left} {left_value}; {mid} {mid_value}; {right} {right_value}");
         if left_value > mid_value {
             // max must be between left and mid
-            assert!(mid_value >= right_value);
             right = mid;
             right_value = mid_value;
             mid = half * (left + mid);
             mid_value = fun(mid)?
         } else if mid_value <= right_value {
             // max must be between mid and right
-            assert!(left_value <= mid_value);
             left = mid;
             left_value = mid_value;
             mid = half * (mid + right);
@@ -593,7 +594,6 @@ fn find_maximum(
             let leftmid = half * (left + mid);
             let leftmid_value = fun(leftmid)?;
             //println!("lm {leftmid} {leftmid_value}");
-            assert!(leftmid_value >= left_value);
             if leftmid_value > mid_value {
                 // max between left and mid
                 right = mid;
@@ -606,7 +606,6 @@ fn find_maximum(
             let rightmid = half * (mid + right);
             let rightmid_value = fun(rightmid)?;
             //println!("rm {rightmid} {rightmid_value}");
-            assert!(rightmid_value >= right_value);
             if rightmid_value >= mid_value {
                 // max between mid and right
                 left = mid;
-- 
2.43.0


From 51069cb40399bd8b614a653eae81811cbb2fac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:22 +0000
Subject: [PATCH 32/33] fix: leave room for rounding at the upper end of the
 max borrow search

---
 programs/mango-v4/src/health/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 84c0412..768589d 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -471,6 +471,8 @@ impl HealthCache {
         if limit <= 0 {
             return Ok(I80F48::ZERO);
         }
+        // Rounding must not leave health slightly positive at the upper end of the search
+        let limit = limit + I80F48::ONE;
 
         binary_search(
             I80F48::ZERO,
-- 
2.43.0


From 9c96062afc634b3a6d5a155bfec5a46131ac298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:03 +0000
Subject: [PATCH 33/33] fix: search further right when spot orders offset part
 of the largest borrow

---
 programs/mango-v4/src/health/client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 768589d..269050a 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -471,8 +471,9 @@ impl HealthCache {
         if limit <= 0 {
             return Ok(I80F48::ZERO);
         }
-        // Rounding must not leave health slightly positive at the upper end of the search
-        let limit = limit + I80F48::ONE;
+        // The limit is an estimate: reserved spot orders can offset part of the borrow, and rounding
+        // can leave health slightly positive.
+        let limit = scan_right_until_less_than(limit, min_fn_value, fn_value_after_borrow)?;
 
         binary_search(
             I80F48::ZERO,
-- 
2.43.0

