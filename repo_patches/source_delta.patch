From 00223674bce5cb938170a510de75f45358958b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 01/11] fix: voluntary exits measure minimum activity from the
 activation epoch

The consensus specs require current_epoch >= activation_epoch +
SHARD_COMMITTEE_PERIOD; the check used activation_eligibility_epoch.
---
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..8210b9b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -819,8 +819,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From 34ab45e675ff409436e804eb0534c3006188338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 02/11] fix: pay the proposer its share of the whistleblower
 reward

PROPOSER_WEIGHT / WEIGHT_DENOMINATOR is zero in integer arithmetic, so the
proposer never received its part of the reward for a slashing.
---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From a9837b0792ebb3e508f01dd4b6a9e8a601421610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 03/11] fix: offset aggregation bits by committee length in
 electra attesting indices

---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..0574a5f 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From 3bdc7d7d91d98a71714528291ab1f04dc6ba9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 04/11] fix: meter electra consolidations with the
 consolidation churn limit

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 0574a5f..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -628,7 +628,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From a7b01bd980496b639a8a463891250d9994102259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 05/11] fix: electra partial withdrawals name the validator
 that requested them

---
 ethereum-consensus/src/electra/block_processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8210b9b..2a8a01f 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From a4f233e2df0f741c2e27396fa8fd2945ab4ef6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 06/11] fix: resume the electra withdrawal sweep after the last
 withdrawn validator

---
 ethereum-consensus/src/electra/block_processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 2a8a01f..266b86f 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -207,7 +207,7 @@ pub fn process_withdrawals<
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
         let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+            expected_withdrawals.last().map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 59d6303c6766e2400ceeeec9e6e8030e646715b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 07/11] fix: enforce the expected eth1 deposit count in electra
 blocks

---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 266b86f..592a76f 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -448,11 +448,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From 34b85ac57eddc8024df391521c0a816cd6d681f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 08/11] fix: ignore electra deposits whose signature is invalid

---
 .../src/electra/block_processing.rs           | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 592a76f..39ba4d9 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -657,30 +657,34 @@ pub fn apply_deposit<
     if let Some((index, validator)) = validator {
         state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        is_valid_deposit_signature(
-            public_key,
-            withdrawal_credentials.clone(),
-            amount,
-            signature,
-            context,
-        )?;
-
-        // NOTE: if we did not return from signature check, then we know the signature is valid
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_deposit_signature(
+                public_key,
+                withdrawal_credentials.clone(),
+                amount,
+                signature,
+                context,
+            )
+            .is_ok()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
+    if is_valid_deposit_signature(
         public_key,
         withdrawal_credentials.clone(),
         amount,
         signature,
         context,
-    )?;
+    )
+    .is_err()
+    {
+        // NOTE: explicitly return with no error and also no further mutations to `state`
+        return Ok(());
+    }
     add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
     Ok(())
 }
-- 
2.43.0


From 65488b21a813c71e6a5d7a177d9b52068f8a5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 09/11] fix: derive consolidation withdrawable epoch from the
 assigned exit epoch

---
 ethereum-consensus/src/electra/block_processing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 39ba4d9..c141d49 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1145,7 +1145,8 @@ pub fn process_consolidation<
             context,
         )?;
     state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+        state.validators[consolidation.source_index].exit_epoch +
+            context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From a33862587e89701d177b55177c5e28ee5b7a2692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 10/11] fix: keep trailing bits that spill past a full blob

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..c9b0ace 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,11 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From d810ea3082dfc38c095bb6c090502870ce78bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 11/11] fix: reject framed payload sizes larger than the
 payload

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0

