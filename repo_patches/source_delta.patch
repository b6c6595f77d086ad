From 784f0fc26b30bcca79c5ceb2b1bacf503550d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 01/26] hook: expose SignedDecimal256 under cfg(vp_hooks)

---
 packages/astroport_pcl_common/src/math/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/astroport_pcl_common/src/math/mod.rs b/packages/astroport_pcl_common/src/math/mod.rs
index f40066f..6a89c8f 100644
--- a/packages/astroport_pcl_common/src/math/mod.rs
+++ b/packages/astroport_pcl_common/src/math/mod.rs
@@ -10,6 +10,8 @@ mod math_f64;
 mod signed_decimal;
 
 pub use math_decimal::half_float_pow;
+#[cfg(vp_hooks)]
+pub use signed_decimal::SignedDecimal256;
 
 /// Calculate D invariant based on known pool volumes.
 ///
-- 
2.43.0


From 96fd2b6bd96ebdc69e5dbc066b7ba27d01854d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 02/26] fix: pair_xastro quotes the first stake after a
 donation to staking

---
 contracts/pair_xastro/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 853c57f..7ae5522 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -190,7 +190,7 @@ pub fn predict_stake(
 ) -> Result<Uint128, ContractError> {
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
-    if total_deposit.is_zero() {
+    if total_shares.is_zero() || total_deposit.is_zero() {
         if amount.saturating_sub(MINIMUM_STAKE_AMOUNT).is_zero() {
             return Err(ContractError::MinimumStakeAmountError {});
         }
-- 
2.43.0


From d06779e99b9f6bf69a767347eeb1165e06dbc7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 03/26] fix: xastro_token adds up repeated initial balances of
 one account

---
 contracts/tokenomics/xastro_token/src/contract.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/xastro_token/src/contract.rs b/contracts/tokenomics/xastro_token/src/contract.rs
index c49495e..67ca71f 100644
--- a/contracts/tokenomics/xastro_token/src/contract.rs
+++ b/contracts/tokenomics/xastro_token/src/contract.rs
@@ -177,7 +177,12 @@ pub fn create_accounts(deps: &mut DepsMut, env: &Env, accounts: &[Cw20Coin]) ->
 
     for row in accounts {
         let address = deps.api.addr_validate(&row.address)?;
-        BALANCES.save(deps.storage, &address, &row.amount, env.block.height)?;
+        BALANCES.update(
+            deps.storage,
+            &address,
+            env.block.height,
+            |balance| -> StdResult<_> { Ok(balance.unwrap_or_default().checked_add(row.amount)?) },
+        )?;
         total_supply += row.amount;
     }
 
-- 
2.43.0


From 7b76043f425340332ad9cb07748f13bf104562c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 04/26] fix: pair_stable accumulates prices for the reserves
 before a deposit

---
 contracts/pair_stable/src/contract.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 332edbc..a5c4fda 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -392,7 +392,13 @@ pub fn provide_liquidity(
 
     let auto_stake = auto_stake.unwrap_or(false);
 
-    let share = calculate_shares(deps.as_ref(), &env, &config, total_share, assets_collection)?;
+    let share = calculate_shares(
+        deps.as_ref(),
+        &env,
+        &config,
+        total_share,
+        assets_collection.clone(),
+    )?;
 
     if total_share.is_zero() {
         messages.extend(mint_liquidity_token_message(
@@ -425,12 +431,13 @@ pub fn provide_liquidity(
         auto_stake,
     )?);
 
-    let pools = pools
+    // Prices are accumulated for the reserves which were in force before this deposit
+    let pools = assets_collection
         .into_iter()
-        .map(|(info, amount)| {
-            let precision = get_precision(deps.storage, &info)?;
+        .map(|(deposit, amount)| {
+            let precision = get_precision(deps.storage, &deposit.info)?;
             Ok(DecimalAsset {
-                info,
+                info: deposit.info,
                 amount: Decimal256::with_precision(amount, precision)?,
             })
         })
-- 
2.43.0


From f013f32437a9055361fe4a7ae690ad34909bba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 05/26] fix: trades of one block form one price observation

---
 contracts/pair_concentrated/src/utils.rs | 5 +++--
 contracts/pair_stable/src/utils.rs       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 4a64a15..49df70e 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -67,8 +67,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
 
         let new_observation;
         if let Some(last_obs) = buffer.read_last(storage)? {
-            // Skip saving observation if it has been already saved
-            if last_obs.ts < precommit_ts {
+            // Skip saving observation if it has been already saved or
+            // the current block can still contribute to it
+            if last_obs.ts < precommit_ts && precommit_ts < env.block.time.seconds() {
                 // Since this is circular buffer the next index contains the oldest value
                 let count = buffer.capacity();
                 if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 71341e2..9032c17 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -344,8 +344,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
 
         let new_observation;
         if let Some(last_obs) = buffer.read_last(storage)? {
-            // Skip saving observation if it has been already saved
-            if last_obs.ts < precommit_ts {
+            // Skip saving observation if it has been already saved or
+            // the current block can still contribute to it
+            if last_obs.ts < precommit_ts && precommit_ts < env.block.time.seconds() {
                 // Since this is circular buffer the next index contains the oldest value
                 let count = buffer.capacity();
                 if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
-- 
2.43.0


From 31760e1cd94463bf2925a59f762a3b99a78a44a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 06/26] fix: the oldest price leaves the moving average of
 price observations

---
 contracts/pair_concentrated/src/utils.rs | 4 ++--
 contracts/pair_stable/src/utils.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 49df70e..5326d0b 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -70,9 +70,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
             // Skip saving observation if it has been already saved or
             // the current block can still contribute to it
             if last_obs.ts < precommit_ts && precommit_ts < env.block.time.seconds() {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 9032c17..2a2e1cd 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -347,9 +347,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
             // Skip saving observation if it has been already saved or
             // the current block can still contribute to it
             if last_obs.ts < precommit_ts && precommit_ts < env.block.time.seconds() {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
-- 
2.43.0


From a9bba6f4d6c3c08ce9c0e996f6c17ef7c838174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 07/26] fix: a route nested in another one no longer replaces
 the outer route's minimum

---
 contracts/router/src/contract.rs | 24 ++++++++++++++----------
 contracts/router/src/state.rs    |  4 +++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/contracts/router/src/contract.rs b/contracts/router/src/contract.rs
index 16ca889..e15a832 100644
--- a/contracts/router/src/contract.rs
+++ b/contracts/router/src/contract.rs
@@ -181,15 +181,14 @@ pub fn execute_swap_operations(
         .collect::<StdResult<Vec<_>>>()?;
 
     let prev_balance = target_asset_info.query_pool(&deps.querier, &to)?;
-    REPLY_DATA.save(
-        deps.storage,
-        &ReplyData {
-            asset_info: target_asset_info,
-            prev_balance,
-            minimum_receive,
-            receiver: to.to_string(),
-        },
-    )?;
+    let mut reply_data = REPLY_DATA.may_load(deps.storage)?.unwrap_or_default();
+    reply_data.push(ReplyData {
+        asset_info: target_asset_info,
+        prev_balance,
+        minimum_receive,
+        receiver: to.to_string(),
+    });
+    REPLY_DATA.save(deps.storage, &reply_data)?;
 
     Ok(Response::new().add_submessages(messages))
 }
@@ -201,7 +200,12 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
             id: AFTER_SWAP_REPLY_ID,
             result: SubMsgResult::Ok(..),
         } => {
-            let reply_data = REPLY_DATA.load(deps.storage)?;
+            let mut stack = REPLY_DATA.load(deps.storage)?;
+            let reply_data = stack
+                .pop()
+                .ok_or_else(|| StdError::generic_err("No reply data"))?;
+            REPLY_DATA.save(deps.storage, &stack)?;
+
             let receiver_balance = reply_data
                 .asset_info
                 .query_pool(&deps.querier, reply_data.receiver)?;
diff --git a/contracts/router/src/state.rs b/contracts/router/src/state.rs
index ea34fef..9ae5a1a 100644
--- a/contracts/router/src/state.rs
+++ b/contracts/router/src/state.rs
@@ -13,7 +13,9 @@ pub struct Config {
     pub astroport_factory: Addr,
 }
 
-pub const REPLY_DATA: Item<ReplyData> = Item::new("reply_data");
+/// Data for the reply of every route being executed, the innermost one last. A token contract can call the router
+/// while it is being traded, thus the data of an outer route must survive a nested one.
+pub const REPLY_DATA: Item<Vec<ReplyData>> = Item::new("reply_data_stack");
 
 #[cw_serde]
 pub struct ReplyData {
-- 
2.43.0


From d8c76210872172f26de53ed6e13748dbc81ea51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 08/26] fix: incentives: rewards finished in the same block no
 longer erase each other's indexes

---
 contracts/tokenomics/incentives/src/state.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..3e3bd92 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -450,9 +450,13 @@ impl PoolInfo {
                 .into_iter()
                 .try_for_each(|(is_zero, group)| {
                     if is_zero {
-                        let finished_indexes = group
-                            .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
-                            .collect_vec();
+                        // Other rewards of this pool might have been finished in the same block
+                        let mut finished_indexes = FINISHED_REWARD_INDEXES
+                            .may_load(storage, (lp_token, self.last_update_ts))?
+                            .unwrap_or_default();
+                        finished_indexes.extend(
+                            group.map(|(reward_asset_info, (index, _))| (reward_asset_info, index)),
+                        );
                         FINISHED_REWARD_INDEXES.save(
                             storage,
                             (lp_token, self.last_update_ts),
-- 
2.43.0


From bbe8c599bdcc1ed691583bf796b8d88d04c041e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 09/26] fix: incentives: orphaned rewards returned on removal
 are not accounted twice

---
 contracts/tokenomics/incentives/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 3e3bd92..455acba 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -379,9 +379,11 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards are part of the returned amount, hence they must not be accounted
+        // in ORPHANED_REWARDS on save()
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From 5fb09c18698a7dc383d3fb1f2770e9af40307f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 10/26] fix: incentives: reward removed in the block of a claim
 no longer distorts later rewards of the same token

---
 contracts/tokenomics/incentives/src/state.rs | 30 +++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 455acba..410fbc8 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -562,7 +562,35 @@ impl UserInfo {
         user: &Addr,
         lp_token: &AssetInfo,
     ) -> StdResult<Option<Self>> {
-        USER_INFO.may_load(storage, (lp_token, user))
+        USER_INFO
+            .may_load(storage, (lp_token, user))?
+            .map(|mut position| {
+                position.drop_settled_indexes(storage, lp_token)?;
+                Ok(position)
+            })
+            .transpose()
+    }
+
+    /// Drop user indexes of rewards which were deregistered after user claimed them but in the same block.
+    /// Such rewards are paid in full and [`FINISHED_REWARD_INDEXES`] lookups start after the last claim time,
+    /// thus these indexes must not be applied if the same reward is incentivized again.
+    fn drop_settled_indexes(
+        &mut self,
+        storage: &dyn Storage,
+        lp_token: &AssetInfo,
+    ) -> StdResult<()> {
+        if let Some(finished) =
+            FINISHED_REWARD_INDEXES.may_load(storage, (lp_token, self.last_claim_time))?
+        {
+            self.last_rewards_index.retain(|(reward, index)| {
+                !(reward.is_external()
+                    && finished.iter().any(|(reward_asset, finished_index)| {
+                        reward_asset == reward.asset_info() && finished_index == index
+                    }))
+            });
+        }
+
+        Ok(())
     }
 
     /// Reset user index for all finished rewards.
-- 
2.43.0


From 920bf162a9e892cc373674c696e0fdc490a9a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 11/26] fix: incentives: deregistered pool is deactivated even
 while emissions are zero

---
 contracts/tokenomics/incentives/src/utils.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..8f37793 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -112,16 +112,18 @@ pub fn deactivate_pool(
 
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
-    match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
-            let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
-
-            let (ind, _) = active_pools
-                .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+    let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
+
+    // Pool is deactivated even if emissions are currently zero. Otherwise, it would start receiving them again
+    match active_pools
+        .iter()
+        .position(|(lp_asset, _)| lp_asset == &lp_token_asset)
+    {
+        Some(ind) => {
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_token_asset)?;
+
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
             pool_info.disable_astro_rewards();
             pool_info.save(deps.storage, &lp_token_asset)?;
@@ -143,7 +145,7 @@ pub fn deactivate_pool(
                 attr("lp_token", lp_token),
             ]))
         }
-        _ => Ok(Response::new()),
+        None => Ok(Response::new()),
     }
 }
 
-- 
2.43.0


From 9e06afc9e9636c35ef41e109d74bf0b9026f9ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 12/26] fix: incentives: pool holding several newly blocked
 tokens is disabled once

---
 contracts/tokenomics/incentives/src/execute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..860dc80 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,12 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    // Pool might contain several blocked tokens but it must be disabled only once
+                    if asset_infos.contains(token_to_block)
+                        && !to_disable
+                            .iter()
+                            .any(|(disable_lp, _)| disable_lp == lp_asset)
+                    {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From 8c5e4f3a452dd14010842909a7a5f06d93ac5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 13/26] fix: incentives: schedules skipped on reward removal do
 not stretch when the reward is incentivized again

---
 contracts/tokenomics/incentives/src/state.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 410fbc8..a56a984 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -424,6 +424,24 @@ impl PoolInfo {
 
                     EXTERNAL_REWARD_SCHEDULES.remove(storage, (lp_asset, reward_asset, update_ts));
                 })
+        } else if EXTERNAL_REWARD_SCHEDULES
+            .prefix((lp_asset, reward_asset))
+            .range(
+                storage,
+                Some(Bound::exclusive(next_update_ts)),
+                None,
+                Order::Ascending,
+            )
+            .next()
+            .is_some()
+        {
+            // Rewards are sent back only until next_update_ts. If this reward is incentivized again
+            // skipped schedules must not be extended to cover that time.
+            EXTERNAL_REWARD_SCHEDULES.save(
+                storage,
+                (lp_asset, reward_asset, next_update_ts),
+                &Decimal256::zero(),
+            )?;
         }
 
         // Take orphaned rewards as well
-- 
2.43.0


From ea7efbf47074e53abe48d273a1659c77eff50a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 14/26] fix: maker: fees held in the dev fund's asset do not
 leave with the dev fund's share

---
 contracts/tokenomics/maker/src/contract.rs | 12 ++++++++++--
 contracts/tokenomics/maker/src/reply.rs    |  6 ++++--
 contracts/tokenomics/maker/src/state.rs    |  3 +++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index 283fe45..5ea5e80 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -22,7 +22,9 @@ use astroport::pair::MAX_ALLOWED_SLIPPAGE;
 use crate::error::ContractError;
 use crate::migration::migrate_from_v120_plus;
 use crate::reply::PROCESS_DEV_FUND_REPLY_ID;
-use crate::state::{BRIDGES, CONFIG, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG};
+use crate::state::{
+    BRIDGES, CONFIG, DEV_FUND_BALANCE, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG,
+};
 use crate::utils::{
     build_distribute_msg, build_send_msg, build_swap_msg, get_pool, try_build_swap_msg,
     update_second_receiver_cfg, validate_bridge, validate_cooldown, BRIDGES_EXECUTION_MAX_DEPTH,
@@ -649,7 +651,13 @@ fn distribute(
         let dev_share = amount * dev_fund_conf.share;
 
         if !dev_share.is_zero() {
-            // Swap ASTRO and process result in reply
+            // Swap ASTRO and process result in reply.
+            // Collected fees kept in the same asset don't belong to the dev fund
+            let balance_before = dev_fund_conf
+                .asset_info
+                .query_pool(&deps.querier, &env.contract.address)?;
+            DEV_FUND_BALANCE.save(deps.storage, &balance_before)?;
+
             let pool = get_pool(
                 &deps.querier,
                 &cfg.factory_contract,
diff --git a/contracts/tokenomics/maker/src/reply.rs b/contracts/tokenomics/maker/src/reply.rs
index 0391765..cf7eaec 100644
--- a/contracts/tokenomics/maker/src/reply.rs
+++ b/contracts/tokenomics/maker/src/reply.rs
@@ -1,4 +1,4 @@
-use crate::state::CONFIG;
+use crate::state::{CONFIG, DEV_FUND_BALANCE};
 use astroport::asset::AssetInfoExt;
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
@@ -13,9 +13,11 @@ pub fn reply(deps: DepsMut, env: Env, msg: Reply) -> StdResult<Response> {
             let config = CONFIG.load(deps.storage)?;
             let dev_fund_conf = config.dev_fund_conf.expect("Dev fund config must be set");
 
+            // Only what the swap brought in belongs to the dev fund
             let amount = dev_fund_conf
                 .asset_info
-                .query_pool(&deps.querier, env.contract.address)?;
+                .query_pool(&deps.querier, env.contract.address)?
+                .checked_sub(DEV_FUND_BALANCE.load(deps.storage)?)?;
             let dev_fee = dev_fund_conf.asset_info.with_balance(amount);
 
             Ok(Response::new()
diff --git a/contracts/tokenomics/maker/src/state.rs b/contracts/tokenomics/maker/src/state.rs
index 75eec72..0688e73 100644
--- a/contracts/tokenomics/maker/src/state.rs
+++ b/contracts/tokenomics/maker/src/state.rs
@@ -1,6 +1,7 @@
 use astroport::asset::AssetInfo;
 use astroport::common::OwnershipProposal;
 use astroport::maker::{Config, SeizeConfig};
+use cosmwasm_std::Uint128;
 use cw_storage_plus::{Item, Map};
 
 /// Stores the contract configuration at the given key
@@ -15,3 +16,5 @@ pub const BRIDGES: Map<String, AssetInfo> = Map::new("bridges");
 pub const LAST_COLLECT_TS: Item<u64> = Item::new("last_collect_ts");
 /// Stores seize config
 pub const SEIZE_CONFIG: Item<SeizeConfig> = Item::new("seize_config");
+/// Maker's balance of the dev fund asset right before ASTRO is swapped into it
+pub const DEV_FUND_BALANCE: Item<Uint128> = Item::new("dev_fund_balance");
-- 
2.43.0


From 4bf97498152978699343ad57f2a5fd96b86f6139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 15/26] fix: transmuter: reverse quotes compare amounts in the
 asset's own decimals and round the offer up

---
 contracts/pair_transmuter/src/queries.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/contracts/pair_transmuter/src/queries.rs b/contracts/pair_transmuter/src/queries.rs
index b07f8e8..f4a28d8 100644
--- a/contracts/pair_transmuter/src/queries.rs
+++ b/contracts/pair_transmuter/src/queries.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{entry_point, to_json_binary, Binary, Deps, Env, StdResult, Uint128};
+use cosmwasm_std::{entry_point, to_json_binary, Binary, Deps, Env, StdError, StdResult, Uint128};
 
 use astroport::asset::{Asset, AssetInfo, AssetInfoExt};
 use astroport::pair::{
@@ -118,11 +118,16 @@ pub fn reverse_swap(
         .find(|asset| asset.info == ask_asset.info)
         .ok_or_else(|| ContractError::InvalidAsset(ask_asset.info.to_string()))?;
 
-    let ask_asset = config.normalize(&ask_asset)?;
-
     if ask_pool.amount >= ask_asset.amount {
-        let offer_asset = offer_asset_info.with_balance(ask_asset.amount);
-        config.denormalize(&offer_asset).map(|asset| asset.amount)
+        let ask_asset = config.normalize(&ask_asset)?;
+        let offer_unit = config.normalize(&offer_asset_info.with_balance(1u8))?;
+
+        // Round up so that swapping the offer amount returns at least the ask amount
+        Ok(ask_asset
+            .amount
+            .checked_add(offer_unit.amount - Uint128::one())
+            .map_err(StdError::from)?
+            / offer_unit.amount)
     } else {
         Err(ContractError::InsufficientPoolBalance {
             asset: ask_asset.info.to_string(),
-- 
2.43.0


From 43c511ab369e7115e19dd12950994d1506a85ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 16/26] fix: pair_concentrated: do not record an observation
 for a swap that paid nothing

---
 contracts/pair_concentrated/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 3d5dfb6..00db685 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -779,7 +779,9 @@ fn swap(
     // Store time series data in precommit observation.
     // Skipping small unsafe values which can seriously mess oracle price due to rounding errors.
     // This data will be reflected in observations in the next action.
-    if offer_asset_dec.amount >= MIN_TRADE_SIZE && swap_result.dy >= MIN_TRADE_SIZE {
+    if offer_asset_dec.amount >= MIN_TRADE_SIZE
+        && return_amount.to_decimal256(ask_asset_prec)? >= MIN_TRADE_SIZE
+    {
         let (base_amount, quote_amount) = if offer_ind == 0 {
             (offer_asset.amount, return_amount)
         } else {
-- 
2.43.0


From cb9c0a3fe5ca7e43e5ac6801c2ba636c100a1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 17/26] fix: pcl_common: a pool whose profit measure is below
 one keeps accepting swaps

---
 packages/astroport_pcl_common/src/state.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 95d67cd..dab18d4 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -356,9 +356,10 @@ impl PoolState {
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
         if norm >= scale_delta
-            && price_state.xcp_profit_real - Decimal256::one()
-                > (xcp_profit - Decimal256::one()) / TWO
-                    + Decimal256::from(pool_params.repeg_profit_threshold)
+            && TWO * price_state.xcp_profit_real
+                > xcp_profit
+                    + Decimal256::one()
+                    + TWO * Decimal256::from(pool_params.repeg_profit_threshold)
         {
             let numerator = price_state.price_scale * (norm - scale_delta)
                 + scale_delta * price_state.oracle_price;
-- 
2.43.0


From 35d4e209edde11b3f5af3356c336cc420b299b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 18/26] fix: pair, pair_stable: compare each declared minimum
 with the refund of its own asset

---
 contracts/pair/src/contract.rs        | 30 ++++++++++-----------------
 contracts/pair_stable/src/contract.rs | 30 ++++++++++-----------------
 2 files changed, 22 insertions(+), 38 deletions(-)

diff --git a/contracts/pair/src/contract.rs b/contracts/pair/src/contract.rs
index 6c07b57..9bfc0a7 100644
--- a/contracts/pair/src/contract.rs
+++ b/contracts/pair/src/contract.rs
@@ -1437,7 +1437,7 @@ pub fn pool_info(querier: QuerierWrapper, config: &Config) -> StdResult<(Vec<Ass
 
 fn ensure_min_assets_to_receive(
     config: &Config,
-    mut refund_assets: Vec<Asset>,
+    refund_assets: Vec<Asset>,
     min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<(), ContractError> {
     if let Some(min_assets_to_receive) = min_assets_to_receive {
@@ -1454,24 +1454,16 @@ fn ensure_min_assets_to_receive(
             }
         }
 
-        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
-            refund_assets.swap(0, 1)
-        }
-
-        if refund_assets[0].amount < min_assets_to_receive[0].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[0].info.to_string(),
-                received: refund_assets[0].amount,
-                expected: min_assets_to_receive[0].amount,
-            });
-        }
-
-        if refund_assets[1].amount < min_assets_to_receive[1].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[1].info.to_string(),
-                received: refund_assets[1].amount,
-                expected: min_assets_to_receive[1].amount,
-            });
+        for refund in &refund_assets {
+            for min in &min_assets_to_receive {
+                if refund.info == min.info && refund.amount < min.amount {
+                    return Err(ContractError::WithdrawSlippageViolation {
+                        asset_name: refund.info.to_string(),
+                        received: refund.amount,
+                        expected: min.amount,
+                    });
+                }
+            }
         }
     }
 
diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index a5c4fda..6a3162c 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -1216,7 +1216,7 @@ fn query_compute_d(deps: Deps, env: Env) -> StdResult<Uint128> {
 
 fn ensure_min_assets_to_receive(
     config: &Config,
-    mut refund_assets: Vec<Asset>,
+    refund_assets: Vec<Asset>,
     min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<(), ContractError> {
     if let Some(min_assets_to_receive) = min_assets_to_receive {
@@ -1233,24 +1233,16 @@ fn ensure_min_assets_to_receive(
             }
         }
 
-        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
-            refund_assets.swap(0, 1)
-        }
-
-        if refund_assets[0].amount < min_assets_to_receive[0].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[0].info.to_string(),
-                received: refund_assets[0].amount,
-                expected: min_assets_to_receive[0].amount,
-            });
-        }
-
-        if refund_assets[1].amount < min_assets_to_receive[1].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[1].info.to_string(),
-                received: refund_assets[1].amount,
-                expected: min_assets_to_receive[1].amount,
-            });
+        for refund in &refund_assets {
+            for min in &min_assets_to_receive {
+                if refund.info == min.info && refund.amount < min.amount {
+                    return Err(ContractError::WithdrawSlippageViolation {
+                        asset_name: refund.info.to_string(),
+                        received: refund.amount,
+                        expected: min.amount,
+                    });
+                }
+            }
         }
     }
 
-- 
2.43.0


From be55e585a77a78718768e5121c943eea4fe579ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 19/26] fix: pair_xyk_sale_tax: honour min_lp_to_receive and
 min_assets_to_receive

---
 contracts/pair_xyk_sale_tax/src/contract.rs | 57 ++++++++++++++++++++-
 contracts/pair_xyk_sale_tax/src/error.rs    | 15 +++++-
 2 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_xyk_sale_tax/src/contract.rs b/contracts/pair_xyk_sale_tax/src/contract.rs
index 2e889d8..f51faef 100644
--- a/contracts/pair_xyk_sale_tax/src/contract.rs
+++ b/contracts/pair_xyk_sale_tax/src/contract.rs
@@ -229,7 +229,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
-            ..
+            min_lp_to_receive,
         } => provide_liquidity(
             deps,
             env,
@@ -238,6 +238,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
+            min_lp_to_receive,
         ),
         ExecuteMsg::Swap {
             offer_asset,
@@ -265,7 +266,10 @@ pub fn execute(
             )
         }
         ExecuteMsg::UpdateConfig { params } => update_config(deps, info, params),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NonSupported {}),
     }
 }
@@ -336,6 +340,7 @@ pub fn receive_cw20(
 /// If no custom receiver is specified, the pair will mint LP tokens for the function caller.
 ///
 /// NOTE - the address that wants to provide liquidity should approve the pair contract to pull its relevant tokens.
+#[allow(clippy::too_many_arguments)]
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
@@ -344,6 +349,7 @@ pub fn provide_liquidity(
     slippage_tolerance: Option<Decimal>,
     auto_stake: Option<bool>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -382,6 +388,14 @@ pub fn provide_liquidity(
     let total_share = query_native_supply(&deps.querier, &config.pair_info.liquidity_token)?;
 
     let share = calculate_shares(&deposits, &pools, total_share, slippage_tolerance)?;
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
 
     if total_share.is_zero() {
         messages.extend(mint_liquidity_token_message(
@@ -492,6 +506,7 @@ pub fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage).unwrap();
 
@@ -512,6 +527,8 @@ pub fn withdraw_liquidity(
         return Err(StdError::generic_err("Imbalanced withdraw is currently disabled").into());
     };
 
+    ensure_min_assets_to_receive(&config, &refund_assets, min_assets_to_receive)?;
+
     if config.track_asset_balances {
         for (i, pool) in pools.iter().enumerate() {
             BALANCES.save(
@@ -555,6 +572,42 @@ pub fn withdraw_liquidity(
     ]))
 }
 
+/// Checks that a withdrawal pays at least the declared minimum of every asset.
+fn ensure_min_assets_to_receive(
+    config: &Config,
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for asset in &min_assets_to_receive {
+            if !config.pair_info.asset_infos.contains(&asset.info) {
+                return Err(ContractError::AssetMismatch {});
+            }
+        }
+
+        for refund in refund_assets {
+            for min in &min_assets_to_receive {
+                if refund.info == min.info && refund.amount < min.amount {
+                    return Err(ContractError::WithdrawSlippageViolation {
+                        asset_name: refund.info.to_string(),
+                        received: refund.amount,
+                        expected: min.amount,
+                    });
+                }
+            }
+        }
+    }
+
+    Ok(())
+}
+
 /// Returns the amount of pool assets that correspond to an amount of LP tokens.
 ///
 /// * **pools** is the array with assets in the pool.
diff --git a/contracts/pair_xyk_sale_tax/src/error.rs b/contracts/pair_xyk_sale_tax/src/error.rs
index cfdb47e..30d230d 100644
--- a/contracts/pair_xyk_sale_tax/src/error.rs
+++ b/contracts/pair_xyk_sale_tax/src/error.rs
@@ -1,5 +1,5 @@
 use astroport::asset::MINIMUM_LIQUIDITY_AMOUNT;
-use cosmwasm_std::{OverflowError, StdError};
+use cosmwasm_std::{OverflowError, StdError, Uint128};
 use cw_utils::{ParseReplyError, PaymentError};
 use thiserror::Error;
 
@@ -36,6 +36,19 @@ pub enum ContractError {
     #[error("Operation exceeds max splippage tolerance")]
     MaxSlippageAssertion {},
 
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Doubling assets in asset infos")]
     DoublingAssets {},
 
-- 
2.43.0


From 2b3e380b7910491fec9101ec3b788815629c8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 20/26] fix: pair_concentrated: honour min_assets_to_receive

---
 contracts/pair_concentrated/src/contract.rs | 44 ++++++++++++++++++++-
 contracts/pair_concentrated/src/error.rs    | 10 +++++
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 00db685..5817a86 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -366,7 +366,10 @@ pub fn execute(
             })
             .map_err(Into::into)
         }
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -557,6 +560,7 @@ fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -610,6 +614,8 @@ fn withdraw_liquidity(
         })
         .collect::<StdResult<Vec<_>>>()?;
 
+    ensure_min_assets_to_receive(&config, &refund_assets, min_assets_to_receive)?;
+
     messages.extend(
         refund_assets
             .iter()
@@ -646,6 +652,42 @@ fn withdraw_liquidity(
     ]))
 }
 
+/// Checks that a withdrawal pays at least the declared minimum of every asset.
+fn ensure_min_assets_to_receive(
+    config: &Config,
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for asset in &min_assets_to_receive {
+            if !config.pair_info.asset_infos.contains(&asset.info) {
+                return Err(ContractError::InvalidAsset(asset.info.to_string()));
+            }
+        }
+
+        for refund in refund_assets {
+            for min in &min_assets_to_receive {
+                if refund.info == min.info && refund.amount < min.amount {
+                    return Err(ContractError::WithdrawSlippageViolation {
+                        asset_name: refund.info.to_string(),
+                        received: refund.amount,
+                        expected: min.amount,
+                    });
+                }
+            }
+        }
+    }
+
+    Ok(())
+}
+
 /// Performs an swap operation with the specified parameters. The trader must approve the
 /// pool contract to transfer offer assets from their wallet.
 ///
diff --git a/contracts/pair_concentrated/src/error.rs b/contracts/pair_concentrated/src/error.rs
index b4e0cd5..761dead 100644
--- a/contracts/pair_concentrated/src/error.rs
+++ b/contracts/pair_concentrated/src/error.rs
@@ -70,6 +70,16 @@ pub enum ContractError {
     #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
     ProvideSlippageViolation(Uint128, Uint128),
 
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Operation is not supported")]
     NotSupported {},
 }
-- 
2.43.0


From a2ec0bb03cee9f1b16a81edfb415b81250cac97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 21/26] fix: pair_transmuter: honour min_lp_to_receive and
 min_assets_to_receive

---
 contracts/pair_transmuter/src/contract.rs | 40 +++++++++++++++++++++--
 contracts/pair_transmuter/src/error.rs    | 10 ++++++
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_transmuter/src/contract.rs b/contracts/pair_transmuter/src/contract.rs
index ae87870..9067d73 100644
--- a/contracts/pair_transmuter/src/contract.rs
+++ b/contracts/pair_transmuter/src/contract.rs
@@ -108,6 +108,7 @@ pub fn execute(
             assets,
             auto_stake,
             receiver,
+            min_lp_to_receive,
             ..
         } => {
             ensure!(
@@ -115,7 +116,7 @@ pub fn execute(
                 StdError::generic_err("Auto stake is not supported")
             );
 
-            provide_liquidity(deps, env, info, assets, receiver)
+            provide_liquidity(deps, env, info, assets, receiver, min_lp_to_receive)
         }
         ExecuteMsg::Swap {
             offer_asset,
@@ -123,7 +124,10 @@ pub fn execute(
             ask_asset_info,
             ..
         } => swap(deps, info, offer_asset, ask_asset_info, to),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -138,6 +142,7 @@ pub fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
@@ -201,6 +206,30 @@ pub fn withdraw_liquidity(
         assets
     };
 
+    if let Some(min_assets) = min_assets_to_receive {
+        for min in &min_assets {
+            ensure!(
+                config.pair_info.asset_infos.contains(&min.info),
+                ContractError::InvalidAsset(min.info.to_string())
+            );
+
+            let received: Uint128 = refund_assets
+                .iter()
+                .filter(|refund| refund.info == min.info)
+                .map(|refund| refund.amount)
+                .sum();
+
+            ensure!(
+                received >= min.amount,
+                ContractError::WithdrawSlippageViolation {
+                    asset_name: min.info.to_string(),
+                    received,
+                    expected: min.amount,
+                }
+            );
+        }
+    }
+
     let send_msgs = refund_assets
         .clone()
         .into_iter()
@@ -231,6 +260,7 @@ pub fn provide_liquidity(
     info: MessageInfo,
     assets: Vec<Asset>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     check_assets(deps.api, &assets)?;
 
@@ -244,6 +274,12 @@ pub fn provide_liquidity(
         .map(|asset| config.normalize(asset).unwrap())
         .fold(Uint128::zero(), |acc, asset| acc + asset.amount);
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+    ensure!(
+        share >= min_amount_lp,
+        ContractError::ProvideSlippageViolation(share, min_amount_lp)
+    );
+
     // Mint LP token for the caller (or for the receiver if it was set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
 
diff --git a/contracts/pair_transmuter/src/error.rs b/contracts/pair_transmuter/src/error.rs
index bf76c08..be9d323 100644
--- a/contracts/pair_transmuter/src/error.rs
+++ b/contracts/pair_transmuter/src/error.rs
@@ -56,4 +56,14 @@ pub enum ContractError {
 
     #[error("ask_asset_info must be set for pools with >2 assets")]
     AskAssetMustBeSet {},
+
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
 }
-- 
2.43.0


From b1962b07b2b97f8c3d856f78a4e2004180c287bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 22/26] fix: transmuter: coins attached to a deposit without
 being declared are not swallowed

assert_coins_properly_sent compared the attached coins with the pool's assets
instead of the declared ones.
---
 packages/astroport/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/astroport/src/asset.rs b/packages/astroport/src/asset.rs
index 907050c..4bf1961 100644
--- a/packages/astroport/src/asset.rs
+++ b/packages/astroport/src/asset.rs
@@ -338,9 +338,10 @@ impl CoinsExt for Vec<Coin> {
         })?;
 
         self.iter().try_for_each(|coin| {
-            if pool_asset_infos.contains(&AssetInfo::NativeToken {
+            let info = AssetInfo::NativeToken {
                 denom: coin.denom.clone(),
-            }) {
+            };
+            if input_assets.iter().any(|asset| asset.info == info) {
                 Ok(())
             } else {
                 Err(StdError::generic_err(format!(
-- 
2.43.0


From 0c6b500f0551a4a3a818f7c95f085c5a6dc757de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 23/26] fix: transmuter: a cw20 asset named like a denom of the
 pool cannot be offered

Nothing was received for it, and the pool paid the asked asset.
---
 contracts/pair_transmuter/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/pair_transmuter/src/utils.rs b/contracts/pair_transmuter/src/utils.rs
index e70f600..df60929 100644
--- a/contracts/pair_transmuter/src/utils.rs
+++ b/contracts/pair_transmuter/src/utils.rs
@@ -60,6 +60,11 @@ pub fn assert_and_swap(
 ) -> Result<Asset, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
+    // Normalization coefficients are keyed by asset name only, which a cw20 asset may share with a denom of the pool
+    if !config.pair_info.asset_infos.contains(&offer_asset.info) {
+        return Err(ContractError::InvalidAsset(offer_asset.info.to_string()));
+    }
+
     let offer_asset = config.normalize(offer_asset)?;
 
     let pools = config
-- 
2.43.0


From c3d084e46d93bf9da790f3b25c46a3d1abdea269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 24/26] fix: pcl_common: a minimum fee updated alone cannot
 reach the maximum fee

---
 packages/astroport_pcl_common/src/state.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index dab18d4..1da7d39 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -98,17 +98,21 @@ impl PoolParams {
 
         if let Some(out_fee) = update_params.out_fee {
             validate_param("out_fee", out_fee, MIN_FEE, MAX_FEE)?;
-            if out_fee <= self.mid_fee {
-                return Err(StdError::generic_err(format!(
-                    "out_fee {out_fee} must be more than mid_fee {}",
-                    self.mid_fee
-                ))
-                .into());
-            }
             self.out_fee = out_fee;
             attributes.push(attr("out_fee", out_fee.to_string()));
         }
 
+        // Either fee may have been updated alone
+        if (update_params.mid_fee.is_some() || update_params.out_fee.is_some())
+            && self.out_fee <= self.mid_fee
+        {
+            return Err(StdError::generic_err(format!(
+                "out_fee {} must be more than mid_fee {}",
+                self.out_fee, self.mid_fee
+            ))
+            .into());
+        }
+
         if let Some(fee_gamma) = update_params.fee_gamma {
             validate_param("fee_gamma", fee_gamma, FEE_GAMMA_MIN, FEE_GAMMA_MAX)?;
             self.fee_gamma = fee_gamma;
-- 
2.43.0


From 2a4c6bbbdaa3cd98c9404d720b441a97fcb36592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 25/26] fix: pcl_common: re-peg does not divide by the distance
 between oracle price and price scale, which may be zero or a few units of
 precision

---
 packages/astroport_pcl_common/src/state.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 1da7d39..fe2a067 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -365,9 +365,15 @@ impl PoolState {
                     + Decimal256::one()
                     + TWO * Decimal256::from(pool_params.repeg_profit_threshold)
         {
-            let numerator = price_state.price_scale * (norm - scale_delta)
-                + scale_delta * price_state.oracle_price;
-            let price_scale_new = numerator / norm;
+            // (price_scale * (norm - scale_delta) + scale_delta * oracle_price) / norm, simplified:
+            // the price scale moves by scale_delta towards the oracle price. There is no division by norm,
+            // which may be zero or too small for the numerator's precision.
+            let step = price_state.price_scale * scale_delta;
+            let price_scale_new = if price_state.oracle_price > price_state.price_scale {
+                price_state.price_scale + step
+            } else {
+                price_state.price_scale - step
+            };
 
             let xs = [
                 cur_xs[0],
-- 
2.43.0


From 5ca7edf504ee941f78b43fb0b9db6792ef8466e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:32 +0000
Subject: [PATCH 26/26] fix: incentives: PoolStakers pages hold at most
 MAX_PAGE_LIMIT stakers, as asked for

The limit given by the caller was raised to the maximum page size instead of being capped by it.
---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index a56a984..977708c 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -520,7 +520,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0

