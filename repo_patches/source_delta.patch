From 0a049f51fd0d7b91b5100a42119f7934cbd83903 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 01/22] fix: pool_stable update_config requires the admin's
 authorization

It only compared the sender argument with the admin, so anyone could pass the
admin's address and reconfigure the pool, up to replacing its admin.
---
 contracts/pool_stable/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..06873be 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -570,6 +570,8 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         max_allowed_slippage_bps: Option<i64>,
         max_allowed_spread_bps: Option<i64>,
     ) {
+        sender.require_auth();
+
         if sender != utils::get_admin(&env) {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
-- 
2.43.0


From e85a4c6f4484b029a948fe51ffb2f24a4391534e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 02/22] fix: pool_stable invariant math overflows for ordinary
 pool sizes

compute_d multiplied both 18 decimal amounts in u128 and calc_y scaled both
sides of its fractions by 1e18, so every deposit or swap of a pool with more
than about 10 whole tokens trapped. The quotients are unchanged.
---
 contracts/pool_stable/src/math.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index d0badba..5b5da91 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -15,8 +15,6 @@ const ITERATIONS: u8 = 64;
 const N_COINS: u128 = 2;
 /// N = 2 with DECIMAL_PRECISION (18) digits
 const N_COINS_PRECISION: u128 = 2000000000000000000;
-/// 1*10**18
-const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
 /// 1e-6
 const TOL: u128 = 1000000000000;
 
@@ -74,8 +72,10 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
-    let amount_a_times_coins = pools[0] * N_COINS;
-    let amount_b_times_coins = pools[1] * N_COINS;
+    let amount_a_times_coins = U256::from_u128(env, pools[0] * N_COINS);
+    let amount_b_times_coins = U256::from_u128(env, pools[1] * N_COINS);
+    // the product of both amounts does not fit in a u128
+    let amounts_product = amount_a_times_coins.mul(&amount_b_times_coins);
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -88,10 +88,7 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&U256::from_u128(
-            env,
-            amount_a_times_coins * amount_b_times_coins,
-        ));
+        let d_product = d.pow(3).div(&amounts_product);
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
         // Equality with the precision of 1e-6
@@ -155,8 +152,8 @@ pub(crate) fn calc_y(
     let new_amount = U256::from_u128(env, new_amount);
 
     let d = compute_d(env, amp, xp);
-    let leverage = U256::from_u128(env, amp * DECIMAL_FRACTIONAL * N_COINS);
-    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128 * DECIMAL_FRACTIONAL);
+    let leverage = U256::from_u128(env, amp * N_COINS);
+    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
     let c = d
         .pow(3)
-- 
2.43.0


From 60614c91a17b2bca755d71b79971052be0753c34 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 03/22] fix: pool_stable swap math for tokens with different
 decimals

The offered amount was scaled, and the result expressed, with the greatest
precision of the pool instead of the precision of the token it belongs to.
---
 contracts/pool_stable/src/contract.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 06873be..39dcbe6 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1019,25 +1019,25 @@ pub fn compute_swap(
     let amp_parameters = get_amp(env);
     let amp = compute_current_amp(env, &amp_parameters);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_ask_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        ask_pool_precision,
     );
 
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    // The offer is expressed in the precision of the ask asset for that.
+    let offer_amount = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
     let spread_amount = if offer_amount > return_amount {
         convert_u128_to_i128(offer_amount - return_amount)
     } else {
@@ -1074,27 +1074,27 @@ pub fn compute_offer_amount(
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
     let before_commission = inv_one_minus_commission * convert_u128_to_i128(ask_amount);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_offer_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        offer_pool_precision,
     );
 
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    // The ask is expressed in the precision of the offer asset for that.
+    let ask_amount = scale_value(ask_amount, ask_pool_precision, offer_pool_precision);
     let spread_amount = if offer_amount > ask_amount {
         offer_amount - ask_amount
     } else {
-- 
2.43.0


From 8519882f1f79f99cda6928d0a8a6196e73e6969f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 04/22] fix: multihop simulate_reverse_swap asks stable pools
 for the right direction

The stable pool's simulate_reverse_swap takes the offered asset.
---
 contracts/multihop/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..c295e34 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -265,8 +265,9 @@ impl MultihopTrait for Multihop {
                 }
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
+                    // the stable pool takes the offered asset here, the xyk pool the asked one
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0


From bfc2a015684c9ca0db8b3188ee978f9fd3c6a016 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 05/22] fix: trader swaps its own balance when no amount is
 given

It used the balance of the admin who sent the transaction, while the contract's
own tokens are the ones being swapped.
---
 contracts/trader/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 4dae3a9..093fcd3 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -149,7 +149,7 @@ impl TraderTrait for Trader {
         let amount = if let Some(amount) = amount {
             amount as i128
         } else {
-            token_client.balance(&sender)
+            token_client.balance(&env.current_contract_address())
         };
 
         let amount_swapped = lp_client.swap(
-- 
2.43.0


From fe01d612df625f2165e648ebcd1a47a172bb6048 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 06/22] fix: stake rewards of users that bonded after a
 distribution

The age of a stake at an earlier distribution underflowed, so that user could
neither query nor claim any reward.
---
 contracts/stake/src/distribution.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..86d9ea5 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -100,8 +100,10 @@ pub fn calculate_pending_rewards(
                     for stake in user_info.stakes.iter() {
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
-                        let stake_age_days =
-                            (staking_reward_day - stake.stake_timestamp) / SECONDS_PER_DAY;
+                        // a stake bonded after this distribution has no age at that time
+                        let stake_age_days = staking_reward_day
+                            .saturating_sub(stake.stake_timestamp)
+                            / SECONDS_PER_DAY;
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From 514e330fb51866dd2226f7b0ad6fb683290f6707 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 07/22] fix: stake keeps both of two distributions made at the
 same timestamp

The second one replaced the first, whose tokens nobody could claim anymore.
---
 contracts/stake/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..f665f09 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -246,7 +246,9 @@ impl StakingTrait for Staking {
         save_total_staked_history(&env, total_staked_history);
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
+        // add to what has already been distributed at the same timestamp
+        let already_distributed = reward_history.get(current_timestamp).unwrap_or(0);
+        reward_history.set(current_timestamp, already_distributed + amount as u128);
         save_reward_history(&env, &reward_token, reward_history);
 
         token_contract::Client::new(&env, &reward_token).transfer(
-- 
2.43.0


From dd612eaa44b9c42b7b99cf2f901025463993d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 08/22] fix: stake must not lower the total staked recorded for
 a timestamp

A second distribution at the same timestamp, after part of the stake was
unbonded, raised everybody's share of the first one beyond what is there.
---
 contracts/stake/src/contract.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index f665f09..966e2f0 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -242,7 +242,13 @@ impl StakingTrait for Staking {
         let total_staked_amount = get_total_staked_counter(&env);
 
         let mut total_staked_history = get_total_staked_history(&env);
-        total_staked_history.set(current_timestamp, total_staked_amount as u128);
+        // an earlier distribution at the same timestamp might have been claimed already, based on
+        // the total staked back then. Lowering it would promise more rewards than were distributed.
+        let recorded_total = total_staked_history.get(current_timestamp).unwrap_or(0);
+        total_staked_history.set(
+            current_timestamp,
+            recorded_total.max(total_staked_amount as u128),
+        );
         save_total_staked_history(&env, total_staked_history);
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-- 
2.43.0


From 2da1b9d8774ff162604f89b2b6276a0a4eb1a89c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 09/22] fix: stake withdraw_rewards requires the authorization
 of the user

Anyone could claim for somebody else, which makes that user miss what is
distributed later at the same timestamp.
---
 contracts/stake/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index 966e2f0..b1c4373 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -268,6 +268,8 @@ impl StakingTrait for Staking {
     }
 
     fn withdraw_rewards(env: Env, sender: Address) {
+        sender.require_auth();
+
         env.storage()
             .instance()
             .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
-- 
2.43.0


From 8d049af450b5567870316d7b1f96540fb5a9d06b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 10/22] fix: pool swap traps when its rounded up result exceeds
 the pool price

The spread underflowed, so that ordinary small swaps in large pools failed.
---
 contracts/pool/src/contract.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index ca9e8d6..4db9e3d 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -1158,11 +1158,13 @@ pub fn compute_swap(
     // which ensures the product of the amounts of the two assets remains constant before and after a trade.
     let return_amount =
         ask_pool_as_u256.sub(&(cp.div(&offer_pool_as_u256.add(&offer_amount_as_u256))));
-    // Calculate the spread amount, representing the difference between the expected and actual swap amounts
-    let spread_amount = (offer_amount_as_u256
+    let amount_at_pool_price = offer_amount_as_u256
         .mul(&ask_pool_as_u256)
-        .div(&offer_pool_as_u256))
-    .sub(&return_amount);
+        .div(&offer_pool_as_u256);
+    // The return amount is rounded up, that must not make it better than the price of the pool
+    let return_amount = return_amount.min(amount_at_pool_price.clone());
+    // Calculate the spread amount, representing the difference between the expected and actual swap amounts
+    let spread_amount = amount_at_pool_price.sub(&return_amount);
 
     let decimal_fractional = U256::from_u128(env, 1_000_000_000_000_000_000u128);
     let commission_amount = return_amount
-- 
2.43.0


From 39e1dc7bc88468d220217ca458e4d7fe4c4eeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 11/22] fix: pool_stable deposits of more than a few hundred
 tokens overflow the share computation

---
 contracts/pool_stable/src/contract.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 39dcbe6..9d08be6 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -3,7 +3,7 @@ use phoenix::{
     utils::{convert_i128_to_u128, convert_u128_to_i128, LiquidityPoolInitInfo},
 };
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String,
+    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String, U256,
 };
 
 use crate::{
@@ -389,17 +389,17 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
             .expect("Pool stable: provide_liquidity: conversion to u128 failed");
 
             // Calculate the proportion of the change in invariant
-            let invariant_delta = convert_u128_to_i128(
-                new_invariant
-                    .to_u128()
-                    .expect("Pool stable: provide_liquidity: conversion to u128 failed")
-                    - initial_invariant,
-            );
+            let invariant_delta = new_invariant
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
+                - initial_invariant;
 
-            let initial_invariant = convert_u128_to_i128(initial_invariant);
-            convert_i128_to_u128(
-                total_shares * (Decimal::new(invariant_delta) / Decimal::new(initial_invariant)),
-            )
+            // the product does not fit in 128 bits for deposits of a few hundred tokens
+            U256::from_u128(&env, convert_i128_to_u128(total_shares))
+                .mul(&U256::from_u128(&env, invariant_delta))
+                .div(&U256::from_u128(&env, initial_invariant))
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
         };
 
         if let Some(min_shares) = min_shares_to_receive {
-- 
2.43.0


From 6e7a7767b11fe833ec51a14f76cceb0fffa54e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 12/22] fix: pool_stable invariant overflows for pools above
 ten million tokens

---
 contracts/pool_stable/src/math.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index 5b5da91..6500a0f 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -74,8 +74,6 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
     let amount_a_times_coins = U256::from_u128(env, pools[0] * N_COINS);
     let amount_b_times_coins = U256::from_u128(env, pools[1] * N_COINS);
-    // the product of both amounts does not fit in a u128
-    let amounts_product = amount_a_times_coins.mul(&amount_b_times_coins);
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -88,7 +86,12 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&amounts_product);
+        // d**3 / (2a * 2b), multiplied out step by step as d**3 does not fit for large pools
+        let d_product = d
+            .mul(&d)
+            .div(&amount_a_times_coins)
+            .mul(&d)
+            .div(&amount_b_times_coins);
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
         // Equality with the precision of 1e-6
@@ -156,9 +159,11 @@ pub(crate) fn calc_y(
     let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
     let c = d
-        .pow(3)
+        .mul(&d)
+        .div(&new_amount.mul(&n_coins))
+        .mul(&d)
         .mul(&amp_prec)
-        .div(&new_amount.mul(&n_coins.mul(&n_coins)).mul(&leverage));
+        .div(&leverage.mul(&n_coins));
 
     let b = new_amount.add(&d.mul(&amp_prec).div(&leverage));
 
-- 
2.43.0


From 696a831f3d69548061f3436a24474b46684a860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 13/22] fix: factory removes every entry of an account from the
 whitelist

---
 contracts/factory/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 6970225..e7a9c5d 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -264,7 +264,8 @@ impl FactoryTrait for Factory {
         });
 
         to_remove.into_iter().for_each(|addr| {
-            if let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
+            // an account can be listed more than once since the initialization
+            while let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
                 whitelisted_accounts.remove(id as u32);
             }
         });
-- 
2.43.0


From 615c92ec4046c4ffcbcc8f83e7c3aaf31ee54121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 14/22] fix: trader authorizes the pool to collect what it
 trades

The pool moves the offered tokens out of the trading contract in a nested
call, which the contract never authorized: every trade was refused unless
non-root authorizations were mocked.
---
 contracts/trader/src/contract.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 093fcd3..1341069 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -1,6 +1,8 @@
 use phoenix::ttl::{INSTANCE_BUMP_AMOUNT, INSTANCE_LIFETIME_THRESHOLD};
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, Env, String,
+    auth::{ContractContext, InvokerContractAuthEntry, SubContractInvocation},
+    contract, contractimpl, contractmeta, log, panic_with_error, symbol_short, vec, Address, Env,
+    IntoVal, String,
 };
 
 use crate::{
@@ -152,6 +154,24 @@ impl TraderTrait for Trader {
             token_client.balance(&env.current_contract_address())
         };
 
+        // the pool collects the offered tokens, which takes this contract's authorization
+        env.authorize_as_current_contract(vec![
+            &env,
+            InvokerContractAuthEntry::Contract(SubContractInvocation {
+                context: ContractContext {
+                    contract: token_to_swap.clone(),
+                    fn_name: symbol_short!("transfer"),
+                    args: (
+                        env.current_contract_address(),
+                        liquidity_pool.clone(),
+                        amount,
+                    )
+                        .into_val(&env),
+                },
+                sub_invocations: vec![&env],
+            }),
+        ]);
+
         let amount_swapped = lp_client.swap(
             &env.current_contract_address(),
             &token_to_swap,
-- 
2.43.0


From eb0d66f333e574a82e3da06d6c3dca7eb7ce2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 15/22] fix: reward funding is released over its own duration,
 from its start

The end was counted from the current time instead of the start of the
distribution: a funding that starts later was released too fast, or got an
inverted curve. A duration of zero, whose curve divides by zero, is refused.
---
 contracts/stake_rewards/src/contract.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 3c2e1c8..473ce08 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -375,7 +375,7 @@ impl StakingRewardsTrait for StakingRewards {
         let reward_token_client = token_contract::Client::new(&env, &config.reward_token);
         reward_token_client.transfer(&admin, &env.current_contract_address(), &token_amount);
 
-        let end_time = current_time + distribution_duration;
+        let end_time = start_time + distribution_duration;
         // define a distribution curve starting at start_time with token_amount of tokens
         // and ending at end_time with 0 tokens
         let new_reward_distribution = Curve::saturating_linear(
@@ -386,7 +386,12 @@ impl StakingRewardsTrait for StakingRewards {
         // Validate the the curve locks at most the amount provided and
         // also fully unlocks all rewards sent
         let (min, max) = new_reward_distribution.range();
-        if min != 0 || max > convert_i128_to_u128(token_amount) {
+        if min != 0
+            || max > convert_i128_to_u128(token_amount)
+            || new_reward_distribution
+                .validate_monotonic_decreasing()
+                .is_err()
+        {
             log!(
                 &env,
                 "Stake rewards: Fund distribution: Rewards validation failed"
-- 
2.43.0


From 2dc1a2687fc36c306cb0975f261c512a2adf8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 16/22] fix: reward distribution does not underflow when curves
 round up

Combining the curves of two fundings can round the locked amount up by one
above what is left: distributing was refused until the curve had fallen.
---
 contracts/stake_rewards/src/contract.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 473ce08..0491fb5 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -258,7 +258,10 @@ impl StakingRewardsTrait for StakingRewards {
         // Calculate how much we have received since the last time Distributed was called,
         // including only the reward config amount that is eligible for distribution.
         // This is the amount we will distribute to all mem
-        let amount = undistributed_rewards - withdrawable - curve.value(env.ledger().timestamp());
+        // Adding up curves can round the locked amount up by a little: nothing is released until
+        // the curve has fallen to what is left.
+        let amount = (undistributed_rewards - withdrawable)
+            .saturating_sub(curve.value(env.ledger().timestamp()));
 
         if amount == 0 {
             return;
-- 
2.43.0


From 6351597a60dfab325b9d56d36f0c60bffee9a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 17/22] fix: the difference of two decimals does not wrap
 around to a negative one

---
 packages/decimal/src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index ed89696..2753beb 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -263,7 +263,10 @@ impl Decimal {
     }
 
     pub const fn abs_diff(self, other: Self) -> Self {
-        Self(self.0.abs_diff(other.0) as i128)
+        let diff = self.0.abs_diff(other.0);
+        // a difference of more than `Decimal::MAX` must not wrap around to a negative one
+        assert!(diff <= i128::MAX as u128, "Difference does not fit");
+        Self(diff as i128)
     }
 }
 
-- 
2.43.0


From 02c028c5552fd1fa438e483131eaa48a406e4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 18/22] fix: pool upgrade refuses a default slippage out of
 range

---
 contracts/pool/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index 4db9e3d..325e844 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -584,6 +584,8 @@ impl LiquidityPoolTrait for LiquidityPool {
         let admin: Address = utils::get_admin(&env);
         admin.require_auth();
 
+        validate_bps!(new_default_slippage_bps);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_default_slippage_bps(&env, new_default_slippage_bps);
     }
-- 
2.43.0


From 82e0d3253c17db900f4cdfedf7db6210f78b8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 19/22] fix: annualized rewards are not divided by the rewards
 per share paid so far

---
 contracts/stake_rewards/src/contract.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 0491fb5..3c9ff33 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -473,14 +473,9 @@ impl StakingRewardsTrait for StakingRewards {
             };
         }
 
-        // get distribution data for the given reward
-        let distribution = get_distribution(&env, &config.reward_token);
         let curve = get_reward_curve(&env, &config.reward_token);
         let annualized_payout = calculate_annualized_payout(curve, now);
-        let apr = annualized_payout
-            / convert_u128_to_i128(
-                convert_i128_to_u128(total_stake_power) * distribution.shares_per_point,
-            );
+        let apr = annualized_payout / total_stake_power;
 
         AnnualizedRewardResponse {
             asset: config.reward_token.clone(),
-- 
2.43.0


From d853bb70f64cf34e6e987d0b44bf14534d81fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 20/22] fix: the annualized payout of large distributions does
 not overflow

---
 contracts/stake_rewards/src/distribution.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/stake_rewards/src/distribution.rs b/contracts/stake_rewards/src/distribution.rs
index 745607e..c8845aa 100644
--- a/contracts/stake_rewards/src/distribution.rs
+++ b/contracts/stake_rewards/src/distribution.rs
@@ -212,10 +212,14 @@ pub fn calculate_annualized_payout(reward_curve: Option<Curve>, now: u64) -> Dec
                         // which is then extrapolated to a whole year.
                         // Because of the constraints put on `c` when setting it,
                         // we know that `locked_end` is always 0, so we don't need to subtract it.
-                        Decimal::from_ratio(
-                            convert_u128_to_i128(c.value(now) * SECONDS_PER_YEAR as u128),
-                            time_diff,
-                        )
+                        // Whole part and rest are converted one by one, so that large rewards fit.
+                        let yearly = c.value(now) * SECONDS_PER_YEAR as u128;
+                        let time_diff = time_diff as u128;
+                        Decimal::from_atomics(convert_u128_to_i128(yearly / time_diff), 0)
+                            + Decimal::from_ratio(
+                                convert_u128_to_i128(yearly % time_diff),
+                                convert_u128_to_i128(time_diff),
+                            )
                     }
                 }
                 None => {
-- 
2.43.0


From fed62ce1228b55be7e16a66d2143ba5fdacb3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 21/22] fix: negative decimals are printed and read with their
 sign

---
 packages/decimal/src/decimal.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index 2753beb..8451d14 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -366,7 +366,11 @@ impl FromStr for Decimal {
             let exp = Self::DECIMAL_PLACES - fractional_part.len() as i32;
             assert!(exp >= 0, "There must be at least one fractional digit");
             let fractional_factor = 10i128.pow(exp as u32);
-            atomics += fractional * fractional_factor;
+            if whole_part.starts_with('-') {
+                atomics -= fractional * fractional_factor;
+            } else {
+                atomics += fractional * fractional_factor;
+            }
         }
 
         assert!(parts_iter.next().is_none(), "Unexpected number of dots");
@@ -377,11 +381,12 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let whole = self.0 / Self::DECIMAL_FRACTIONAL;
-        let fractional = self.0 % Self::DECIMAL_FRACTIONAL;
+        let sign = if self.0 < 0 { "-" } else { "" };
+        let whole = (self.0 / Self::DECIMAL_FRACTIONAL).abs();
+        let fractional = (self.0 % Self::DECIMAL_FRACTIONAL).abs();
 
         if fractional == 0 {
-            write!(f, "{}", whole)
+            write!(f, "{}{}", sign, whole)
         } else {
             let fractional_string = alloc::format!(
                 "{:0>padding$}",
@@ -389,7 +394,8 @@ impl fmt::Display for Decimal {
                 padding = Self::DECIMAL_PLACES as usize
             );
             f.write_fmt(format_args!(
-                "{}.{}",
+                "{}{}.{}",
+                sign,
                 whole,
                 fractional_string.trim_end_matches('0')
             ))
-- 
2.43.0


From 3b032e843eb8c1baeb877d2d039af603a3fa29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 22/22] fix: a reverse quote beyond what the pool can pay is
 refused

---
 contracts/pool/src/contract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index 325e844..4710384 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -733,6 +733,15 @@ impl LiquidityPoolTrait for LiquidityPool {
             config.protocol_fee_rate(),
         );
 
+        // No offer is large enough to take more than the reserves of the pool
+        if offer_amount < 0 {
+            log!(
+                &env,
+                "Pool: Simulate reverse swap: Asked for more than the pool can pay"
+            );
+            panic_with_error!(env, ContractError::NotEnoughLiquidityProvided);
+        }
+
         SimulateReverseSwapResponse {
             offer_amount,
             spread_amount,
-- 
2.43.0

