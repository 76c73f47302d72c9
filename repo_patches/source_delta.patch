From 6b4fcb36d2a0df82a0bf807cc05670de49393b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:26 +0000
Subject: [PATCH 1/5] fix: report members removed by multisig SetMembers to
 weight change hooks

---
 .../multisig-membership-impl/src/execute.rs     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/multisig-membership-impl/src/execute.rs b/packages/multisig-membership-impl/src/execute.rs
index 96d5345..25f6f8f 100644
--- a/packages/multisig-membership-impl/src/execute.rs
+++ b/packages/multisig-membership-impl/src/execute.rs
@@ -8,7 +8,7 @@ use membership_common::weight_change_hooks::report_weight_change_submsgs;
 use membership_common_api::api::UserWeightChange;
 use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
 use multisig_membership_api::error::MultisigMembershipResult;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Update members' weights. Only the current admin can execute this.
 pub fn update_members(
@@ -52,9 +52,9 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     // only governance controller can execute this
     enterprise_governance_controller_only(ctx, None)?;
 
-    let old_member_weights = MEMBER_WEIGHTS
+    let mut old_member_weights = MEMBER_WEIGHTS
         .range(ctx.deps.storage, None, None, Order::Ascending)
-        .collect::<StdResult<HashMap<Addr, Uint128>>>()?;
+        .collect::<StdResult<BTreeMap<Addr, Uint128>>>()?;
 
     MEMBER_WEIGHTS.clear(ctx.deps.storage);
 
@@ -67,7 +67,7 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     for (member, weight) in deduped_edit_members {
         total_weight += weight;
 
-        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();
+        let old_weight = old_member_weights.remove(&member).unwrap_or_default();
         weight_changes.push(UserWeightChange {
             user: member.to_string(),
             old_weight,
@@ -77,6 +77,15 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
         set_member_weight(ctx.deps.storage, member, weight)?;
     }
 
+    // members that are not among the new ones lose their weight, which has to be reported too
+    for (member, old_weight) in old_member_weights {
+        weight_changes.push(UserWeightChange {
+            user: member.to_string(),
+            old_weight,
+            new_weight: Uint128::zero(),
+        });
+    }
+
     save_total_weight(ctx.deps.storage, &total_weight, &ctx.env.block)?;
 
     let report_weight_change_submsgs = report_weight_change_submsgs(ctx, weight_changes)?;
-- 
2.43.0


From caf76b842bad431d6bcf8830e6dccf1fee57dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:53 +0000
Subject: [PATCH 2/5] fix: refuse to upgrade a DAO to a version that does not
 exist

---
 contracts/enterprise/src/contract.rs      | 8 ++++++++
 packages/enterprise-protocol/src/error.rs | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/contracts/enterprise/src/contract.rs b/contracts/enterprise/src/contract.rs
index 2f48feb..5be79a5 100644
--- a/contracts/enterprise/src/contract.rs
+++ b/contracts/enterprise/src/contract.rs
@@ -24,6 +24,7 @@ use enterprise_protocol::api::{
 };
 use enterprise_protocol::error::DaoError::{
     AlreadyInitialized, DuplicateVersionMigrateMsgFound, MigratingToLowerVersion, Unauthorized,
+    VersionNotFound,
 };
 use enterprise_protocol::error::DaoResult;
 use enterprise_protocol::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
@@ -232,6 +233,13 @@ fn upgrade_dao(ctx: &mut Context, msg: UpgradeDaoMsg) -> DaoResult<Response> {
     let versions =
         get_versions_between_current_and_target(ctx, current_version, msg.new_version.clone())?;
 
+    // the last version we're migrating to has to be the target, otherwise the target does not exist
+    if versions.last().map(|info| &info.version) != Some(&msg.new_version) {
+        return Err(VersionNotFound {
+            version: msg.new_version,
+        });
+    }
+
     let mut submsgs = vec![];
 
     for version in versions {
diff --git a/packages/enterprise-protocol/src/error.rs b/packages/enterprise-protocol/src/error.rs
index 3978180..ecee7f1 100644
--- a/packages/enterprise-protocol/src/error.rs
+++ b/packages/enterprise-protocol/src/error.rs
@@ -39,6 +39,9 @@ pub enum DaoError {
     #[error("Attempting to migrate from {current} to a lower version ({target})")]
     MigratingToLowerVersion { current: Version, target: Version },
 
+    #[error("Version {version} does not exist")]
+    VersionNotFound { version: Version },
+
     #[error("Supplied migrate msg array contains a duplicate migrate msg for version {version}")]
     DuplicateVersionMigrateMsgFound { version: Version },
 
-- 
2.43.0


From ed54cca289a8aaa030fe99b94f11652a0ae82ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 3/5] fix: do not give council members a share in rewards of a
 new DAO

---
 .../src/multisig_membership.rs                 | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/contracts/enterprise-factory/src/multisig_membership.rs b/contracts/enterprise-factory/src/multisig_membership.rs
index 36a5f0b..16b6eb2 100644
--- a/contracts/enterprise-factory/src/multisig_membership.rs
+++ b/contracts/enterprise-factory/src/multisig_membership.rs
@@ -94,13 +94,17 @@ pub fn instantiate_multisig_membership_contract(
     let enterprise_contract = dao_being_created.require_enterprise_address()?;
     let version_info = dao_being_created.require_version_info()?;
 
-    DAO_BEING_CREATED.save(
-        deps.storage,
-        &DaoBeingCreated {
-            initial_weights: Some(initial_weights.clone()),
-            ..dao_being_created
-        },
-    )?;
+    // only weights of DAO's members are used as the initial weights for rewards distribution,
+    // council members' weights should not end up there
+    if reply_id == MEMBERSHIP_CONTRACT_INSTANTIATE_REPLY_ID {
+        DAO_BEING_CREATED.save(
+            deps.storage,
+            &DaoBeingCreated {
+                initial_weights: Some(initial_weights.clone()),
+                ..dao_being_created
+            },
+        )?;
+    }
 
     let submsg = SubMsg::reply_on_success(
         Wasm(Instantiate {
-- 
2.43.0


From e3307465b5da12a27a362f7b4d7cf9d0cdd2cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:24 +0000
Subject: [PATCH 4/5] fix: do not judge a remote treasury's NFT whitelist by
 this chain's address rules

---
 .../src/validate.rs                                 | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/contracts/enterprise-governance-controller/src/validate.rs b/contracts/enterprise-governance-controller/src/validate.rs
index 83a32b1..99468df 100644
--- a/contracts/enterprise-governance-controller/src/validate.rs
+++ b/contracts/enterprise-governance-controller/src/validate.rs
@@ -112,7 +112,12 @@ pub fn validate_proposal_actions(
                 &msg.add,
                 &msg.remove,
             )?,
-            UpdateNftWhitelist(msg) => validate_nft_whitelist_changes(deps, &msg.add, &msg.remove)?,
+            UpdateNftWhitelist(msg) => validate_nft_whitelist_changes(
+                deps,
+                &msg.remote_treasury_target,
+                &msg.add,
+                &msg.remove,
+            )?,
             UpgradeDao(msg) => validate_upgrade_dao(deps, msg)?,
             ExecuteMsgs(msg) => validate_execute_msgs(msg)?,
             ExecuteTreasuryMsgs(msg) => validate_execute_treasury_msgs(msg)?,
@@ -295,9 +300,15 @@ struct AssetInfoHashSets {
 
 fn validate_nft_whitelist_changes(
     deps: Deps,
+    remote_treasury_target: &Option<RemoteTreasuryTarget>,
     add: &Vec<String>,
     remove: &Vec<String>,
 ) -> GovernanceControllerResult<()> {
+    if remote_treasury_target.is_some() {
+        // we can't do any validation, the NFTs are from a different chain
+        return Ok(());
+    }
+
     let mut add_nfts: HashSet<Addr> = HashSet::new();
     for nft in add {
         let nft = deps.api.addr_validate(nft)?;
-- 
2.43.0


From 06cfcef83d0f8771bfc52f764e3c9de71c5957be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:43 +0000
Subject: [PATCH 5/5] fix: refuse remote treasury actions in proposals of
 pre-rewrite DAOs

The old DAOs only have a treasury on their own chain. The facade dropped the
remote treasury of whitelist updates and funding requests, turning them into
proposals to do the same on the local treasury.
---
 .../enterprise-facade-v1/src/facade_v1.rs     | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/contracts/enterprise-facade-v1/src/facade_v1.rs b/contracts/enterprise-facade-v1/src/facade_v1.rs
index 802b617..46e1622 100644
--- a/contracts/enterprise-facade-v1/src/facade_v1.rs
+++ b/contracts/enterprise-facade-v1/src/facade_v1.rs
@@ -41,7 +41,9 @@ use enterprise_facade_api::error::EnterpriseFacadeError::Dao;
 use enterprise_facade_api::error::{EnterpriseFacadeError, EnterpriseFacadeResult};
 use enterprise_facade_common::facade::EnterpriseFacade;
 use enterprise_governance_controller_api::api::{CreateProposalWithNftDepositMsg, ProposalAction};
-use enterprise_outposts_api::api::{CrossChainTreasuriesParams, CrossChainTreasuriesResponse};
+use enterprise_outposts_api::api::{
+    CrossChainTreasuriesParams, CrossChainTreasuriesResponse, RemoteTreasuryTarget,
+};
 use enterprise_treasury_api::api::{
     HasIncompleteV2MigrationResponse, HasUnmovedStakesOrClaimsResponse,
 };
@@ -551,9 +553,18 @@ impl EnterpriseFacadeV1 {
             ProposalAction::UpdateMetadata(msg) => Ok(UpdateMetadata(msg.into())),
             ProposalAction::UpdateGovConfig(msg) => Ok(UpdateGovConfig(msg.into())),
             ProposalAction::UpdateCouncil(msg) => Ok(UpdateCouncil(msg.into())),
-            ProposalAction::UpdateAssetWhitelist(msg) => Ok(UpdateAssetWhitelist(msg.into())),
-            ProposalAction::UpdateNftWhitelist(msg) => Ok(UpdateNftWhitelist(msg.into())),
-            ProposalAction::RequestFundingFromDao(msg) => Ok(RequestFundingFromDao(msg.into())),
+            ProposalAction::UpdateAssetWhitelist(msg) => {
+                refuse_remote_treasury(&msg.remote_treasury_target)?;
+                Ok(UpdateAssetWhitelist(msg.into()))
+            }
+            ProposalAction::UpdateNftWhitelist(msg) => {
+                refuse_remote_treasury(&msg.remote_treasury_target)?;
+                Ok(UpdateNftWhitelist(msg.into()))
+            }
+            ProposalAction::RequestFundingFromDao(msg) => {
+                refuse_remote_treasury(&msg.remote_treasury_target)?;
+                Ok(RequestFundingFromDao(msg.into()))
+            }
             ProposalAction::UpgradeDao(msg) => {
                 let version_1_0_0 = Version {
                     major: 1,
@@ -694,3 +705,12 @@ impl EnterpriseFacadeV1 {
         Ok(fixed_response)
     }
 }
+
+/// DAOs prior to the contract rewrite only have a treasury on this chain.
+/// An action meant for a remote one must not end up being performed on the local one instead.
+fn refuse_remote_treasury(target: &Option<RemoteTreasuryTarget>) -> StdResult<()> {
+    match target {
+        Some(_) => Err(StdError::generic_err("remote treasuries not supported")),
+        None => Ok(()),
+    }
+}
-- 
2.43.0

