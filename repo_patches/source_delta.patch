From ed07112aabf85cb076fe44eac4a86c38e1ff7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:02 +0000
Subject: [PATCH 1/5] fix: report weight loss of members dropped by SetMembers
 to weight change hooks

---
 .../multisig-membership-impl/src/execute.rs     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/multisig-membership-impl/src/execute.rs b/packages/multisig-membership-impl/src/execute.rs
index 96d5345..977361a 100644
--- a/packages/multisig-membership-impl/src/execute.rs
+++ b/packages/multisig-membership-impl/src/execute.rs
@@ -8,7 +8,7 @@ use membership_common::weight_change_hooks::report_weight_change_submsgs;
 use membership_common_api::api::UserWeightChange;
 use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
 use multisig_membership_api::error::MultisigMembershipResult;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Update members' weights. Only the current admin can execute this.
 pub fn update_members(
@@ -52,9 +52,9 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     // only governance controller can execute this
     enterprise_governance_controller_only(ctx, None)?;
 
-    let old_member_weights = MEMBER_WEIGHTS
+    let mut old_member_weights = MEMBER_WEIGHTS
         .range(ctx.deps.storage, None, None, Order::Ascending)
-        .collect::<StdResult<HashMap<Addr, Uint128>>>()?;
+        .collect::<StdResult<BTreeMap<Addr, Uint128>>>()?;
 
     MEMBER_WEIGHTS.clear(ctx.deps.storage);
 
@@ -67,7 +67,7 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     for (member, weight) in deduped_edit_members {
         total_weight += weight;
 
-        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();
+        let old_weight = old_member_weights.remove(&member).unwrap_or_default();
         weight_changes.push(UserWeightChange {
             user: member.to_string(),
             old_weight,
@@ -77,6 +77,15 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
         set_member_weight(ctx.deps.storage, member, weight)?;
     }
 
+    // members that were not carried over have lost their weight, and that has to be reported too
+    for (member, old_weight) in old_member_weights {
+        weight_changes.push(UserWeightChange {
+            user: member.to_string(),
+            old_weight,
+            new_weight: Uint128::zero(),
+        });
+    }
+
     save_total_weight(ctx.deps.storage, &total_weight, &ctx.env.block)?;
 
     let report_weight_change_submsgs = report_weight_change_submsgs(ctx, weight_changes)?;
-- 
2.43.0


From fd8ca2d622b617b05a9354c8d73673ae8697505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:46 +0000
Subject: [PATCH 2/5] fix: keep council members out of the initial weights of
 the DAO's funds distributor

---
 .../src/multisig_membership.rs                 | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/contracts/enterprise-factory/src/multisig_membership.rs b/contracts/enterprise-factory/src/multisig_membership.rs
index 36a5f0b..ef1422e 100644
--- a/contracts/enterprise-factory/src/multisig_membership.rs
+++ b/contracts/enterprise-factory/src/multisig_membership.rs
@@ -94,13 +94,17 @@ pub fn instantiate_multisig_membership_contract(
     let enterprise_contract = dao_being_created.require_enterprise_address()?;
     let version_info = dao_being_created.require_version_info()?;
 
-    DAO_BEING_CREATED.save(
-        deps.storage,
-        &DaoBeingCreated {
-            initial_weights: Some(initial_weights.clone()),
-            ..dao_being_created
-        },
-    )?;
+    // only weights in the DAO's main membership are relevant for the DAO's funds distribution,
+    // council members' weights must not end up there
+    if reply_id == MEMBERSHIP_CONTRACT_INSTANTIATE_REPLY_ID {
+        DAO_BEING_CREATED.save(
+            deps.storage,
+            &DaoBeingCreated {
+                initial_weights: Some(initial_weights.clone()),
+                ..dao_being_created
+            },
+        )?;
+    }
 
     let submsg = SubMsg::reply_on_success(
         Wasm(Instantiate {
-- 
2.43.0


From 201bd2c11a0db69b4d0d6a531a998b4e53ed736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:41 +0000
Subject: [PATCH 3/5] fix: do not re-weight council votes when the voter's
 general membership weight changes

---
 .../src/contract.rs                           | 21 ++++++++++++++++++-
 .../enterprise-governance/src/contract.rs     |  4 ++++
 packages/poll-engine-api/src/api.rs           |  3 +++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/contracts/enterprise-governance-controller/src/contract.rs b/contracts/enterprise-governance-controller/src/contract.rs
index 5586591..96494c0 100644
--- a/contracts/enterprise-governance-controller/src/contract.rs
+++ b/contracts/enterprise-governance-controller/src/contract.rs
@@ -85,7 +85,7 @@ use poll_engine_api::api::{
     CastVoteParams, CreatePollParams, EndPollParams, Poll, PollId, PollParams, PollRejectionReason,
     PollResponse, PollStatus, PollStatusFilter, PollStatusResponse, PollVoterParams,
     PollVoterResponse, PollVotersParams, PollVotersResponse, PollsParams, PollsResponse,
-    UpdateVotesParams, VotingScheme,
+    UpdateVotesParams, VoterParams, VoterResponse, VotingScheme,
 };
 use poll_engine_api::error::PollError::PollInProgress;
 use std::cmp::min;
@@ -1343,11 +1343,30 @@ pub fn update_user_votes(
     let mut update_votes_submsgs: Vec<SubMsg> = vec![];
 
     for user_weight_change in user_weight_changes {
+        let user_votes: VoterResponse = deps.querier.query_wasm_smart(
+            governance_contract.to_string(),
+            &enterprise_governance_api::msg::QueryMsg::Voter(VoterParams {
+                voter_addr: user_weight_change.user.clone(),
+                start_after: None,
+                limit: None,
+            }),
+        )?;
+
+        // council votes do not depend on user's weight in the general membership
+        let mut council_polls: Vec<PollId> = vec![];
+        for vote in user_votes.votes {
+            let proposal_info = PROPOSAL_INFOS.may_load(deps.storage, vote.poll_id)?;
+            if matches!(proposal_info, Some(info) if info.proposal_type == Council) {
+                council_polls.push(vote.poll_id);
+            }
+        }
+
         update_votes_submsgs.push(SubMsg::new(wasm_execute(
             governance_contract.to_string(),
             &UpdateVotes(UpdateVotesParams {
                 voter: user_weight_change.user.clone(),
                 new_amount: user_weight_change.new_weight,
+                excluded_polls: council_polls,
             }),
             vec![],
         )?));
diff --git a/contracts/enterprise-governance/src/contract.rs b/contracts/enterprise-governance/src/contract.rs
index 18e60d0..afe96d0 100644
--- a/contracts/enterprise-governance/src/contract.rs
+++ b/contracts/enterprise-governance/src/contract.rs
@@ -87,6 +87,10 @@ fn update_votes(ctx: &mut Context, params: UpdateVotesParams) -> PollResult<Resp
     let votes = query_voter(&qctx, &params.voter, None, None)?;
 
     for vote in votes.votes {
+        if params.excluded_polls.contains(&vote.poll_id) {
+            continue;
+        }
+
         let qctx = QueryContext::from(ctx.deps.as_ref(), ctx.env.clone());
         let status = query_poll_status(&qctx, vote.poll_id)?;
         if let PollStatus::InProgress { ends_at } = status.status {
diff --git a/packages/poll-engine-api/src/api.rs b/packages/poll-engine-api/src/api.rs
index 6a8127a..1a66370 100644
--- a/packages/poll-engine-api/src/api.rs
+++ b/packages/poll-engine-api/src/api.rs
@@ -154,6 +154,9 @@ pub struct UpdateVotesParams {
     pub voter: String,
     /// New number of user's available votes.
     pub new_amount: Uint128,
+    /// Polls on which the user's votes should be left as they are.
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
+    pub excluded_polls: Vec<PollId>,
 }
 
 #[cw_serde]
-- 
2.43.0


From 1ca7c39c9174060c13cd08ffbed76e81005f5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:28 +0000
Subject: [PATCH 4/5] fix: refuse a new multisig DAO none of whose members has
 any weight

---
 contracts/enterprise-factory/src/contract.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/contracts/enterprise-factory/src/contract.rs b/contracts/enterprise-factory/src/contract.rs
index df77826..5b3b199 100644
--- a/contracts/enterprise-factory/src/contract.rs
+++ b/contracts/enterprise-factory/src/contract.rs
@@ -708,8 +708,13 @@ pub fn reply(mut deps: DepsMut, env: Env, msg: Reply) -> DaoResult<Response> {
                     import_ics721_membership(deps.branch(), msg, weight_change_hooks)?
                 }
                 NewMultisig(msg) => {
-                    // multisig DAO with no initial members is meaningless - it's locked from the get-go
-                    if msg.multisig_members.is_empty() {
+                    // multisig DAO with no initial members (or none with any weight) is meaningless -
+                    // it's locked from the get-go
+                    if msg
+                        .multisig_members
+                        .iter()
+                        .all(|member| member.weight.is_zero())
+                    {
                         return Err(MultisigDaoWithNoInitialMembers);
                     }
                     instantiate_new_multisig_membership(deps.branch(), msg, weight_change_hooks)?
-- 
2.43.0


From 51baf56fb2c6724e2dab507de8610a6348e27d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:00 +0000
Subject: [PATCH 5/5] fix: report every council member through the facade, not
 just the first hundred

---
 .../enterprise-facade-v2/src/facade_v2.rs     | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/contracts/enterprise-facade-v2/src/facade_v2.rs b/contracts/enterprise-facade-v2/src/facade_v2.rs
index 8174188..fde3c93 100644
--- a/contracts/enterprise-facade-v2/src/facade_v2.rs
+++ b/contracts/enterprise-facade-v2/src/facade_v2.rs
@@ -138,18 +138,26 @@ impl EnterpriseFacade for EnterpriseFacadeV2 {
             }
         };
 
-        let council_members_response: MembersResponse = qctx.deps.querier.query_wasm_smart(
-            gov_config.dao_council_membership_contract.to_string(),
-            &Members(MembersParams {
-                start_after: None,
-                limit: Some(1000u32),
-            }),
-        )?;
-        let council_members = council_members_response
-            .members
-            .into_iter()
-            .map(|user_weight| user_weight.user)
-            .collect();
+        // membership contract limits the size of a page, so go through all of them
+        let mut council_members: Vec<Addr> = vec![];
+        loop {
+            let council_members_response: MembersResponse = qctx.deps.querier.query_wasm_smart(
+                gov_config.dao_council_membership_contract.to_string(),
+                &Members(MembersParams {
+                    start_after: council_members.last().map(|member| member.to_string()),
+                    limit: Some(1000u32),
+                }),
+            )?;
+            if council_members_response.members.is_empty() {
+                break;
+            }
+            council_members.extend(
+                council_members_response
+                    .members
+                    .into_iter()
+                    .map(|user_weight| user_weight.user),
+            );
+        }
 
         let dao_council = gov_config.council_gov_config.map(|config| DaoCouncil {
             members: council_members,
-- 
2.43.0

