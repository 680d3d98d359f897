From 9d0b891abcc16d3bf2fdc53f8b393738f0266212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 01/29] fix: tolerate a failing init_commitment_hash only
 before anything is removed from the queues

With insertion_can_fail set, errors raised after the batch had been removed
from the commitment queue (missing metadata child account, empty metadata
queue, no room in the tree) were swallowed, so the batch was lost.
---
 elusiv/src/processor/commitment.rs | 66 +++++++++++++++---------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..cea27cd 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -34,7 +34,9 @@ use ark_ff::BigInteger256;
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_computation::PartialComputation;
 use elusiv_types::UnverifiedAccountInfo;
-use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult};
+use solana_program::{
+    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
+};
 
 #[derive(BorshDeserialize, BorshSerialize, BorshSerDeSized, PartialEq, Clone, Debug)]
 #[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
@@ -375,30 +377,44 @@ pub fn init_commitment_hash(
 
     insertion_can_fail: bool,
 ) -> ProgramResult {
-    match init_commitment_hash_inner(
-        commitment_queue,
-        metadata_queue,
-        hashing_account,
-        metadata_account,
-    ) {
-        Ok(()) => Ok(()),
+    let (batch, batching_rate) = match next_commitment_hash_batch(commitment_queue, hashing_account)
+    {
+        Ok(next_batch) => next_batch,
         Err(e) => {
-            if insertion_can_fail {
+            // Only failures occurring before any account has been mutated can be tolerated
+            return if insertion_can_fail {
                 solana_program::msg!("Instruction failed: {:?}", e);
                 Ok(())
             } else {
                 Err(e)
-            }
+            };
         }
+    };
+
+    CommitmentQueue::new(commitment_queue).remove(usize_as_u32_safe(batch.len()))?;
+
+    let mut metadata_queue = MetadataQueue::new(metadata_queue);
+    for _ in 0..batch.len() {
+        let metadata = metadata_queue.dequeue_first()?;
+        metadata_account.add_commitment_metadata(&metadata)?;
+    }
+
+    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
+    let fee_version = batch.first().unwrap().fee_version;
+
+    let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
+    for i in 0..batch.len() {
+        commitments[i] = batch[i].commitment;
     }
+
+    hashing_account.reset(batching_rate, fee_version, &commitments)
 }
 
-fn init_commitment_hash_inner(
+/// Returns the next batch (and its batching rate), if it can be placed in the [`CommitmentHashingAccount`]
+fn next_commitment_hash_batch(
     commitment_queue: &mut CommitmentQueueAccount,
-    metadata_queue: &mut MetadataQueueAccount,
-    hashing_account: &mut CommitmentHashingAccount,
-    metadata_account: &mut MetadataAccount,
-) -> ProgramResult {
+    hashing_account: &CommitmentHashingAccount,
+) -> Result<(Vec<CommitmentHashRequest>, u32), ProgramError> {
     guard!(
         !hashing_account.get_is_active(),
         ElusivError::ComputationIsNotYetFinished
@@ -408,18 +424,7 @@ fn init_commitment_hash_inner(
         ElusivError::ComputationIsNotYetFinished
     );
 
-    let mut commitment_queue = CommitmentQueue::new(commitment_queue);
-    let (batch, batching_rate) = commitment_queue.next_batch()?;
-    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
-
-    let mut metadata_queue = MetadataQueue::new(metadata_queue);
-    for _ in 0..batch.len() {
-        let metadata = metadata_queue.dequeue_first()?;
-        metadata_account.add_commitment_metadata(&metadata)?;
-    }
-
-    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
-    let fee_version = batch.first().unwrap().fee_version;
+    let (batch, batching_rate) = CommitmentQueue::new(commitment_queue).next_batch()?;
 
     // Check for room for the commitment batch
     guard!(
@@ -427,12 +432,7 @@ fn init_commitment_hash_inner(
         ElusivError::NoRoomForCommitment
     );
 
-    let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
-    for i in 0..batch.len() {
-        commitments[i] = batch[i].commitment;
-    }
-
-    hashing_account.reset(batching_rate, fee_version, &commitments)
+    Ok((batch, batching_rate))
 }
 
 pub fn compute_commitment_hash<'a>(
-- 
2.43.0


From 3ffa3d00420bfb3badfd47589d53db19450569ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 02/29] fix: never start a batch for which the active tree can
 be closed

is_mt_full allows closing the active tree as soon as the next batch reaches
its last leaf, while the same batch could still be started. Closing the tree
with that batch in progress left the stale batch to be written into the next
tree (re-creating roots of spent notes there).
---
 elusiv/src/processor/commitment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index cea27cd..41b0e0f 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -427,8 +427,9 @@ fn next_commitment_hash_batch(
     let (batch, batching_rate) = CommitmentQueue::new(commitment_queue).next_batch()?;
 
     // Check for room for the commitment batch
+    // - a batch that allows the active MT to be closed (see `is_mt_full`) cannot be started, it belongs to the next MT
     guard!(
-        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
+        hashing_account.get_ordering() as usize + batch.len() < MT_COMMITMENT_COUNT,
         ElusivError::NoRoomForCommitment
     );
 
-- 
2.43.0


From 6522a85f40c4c65ea96b55c157e107a2fef58c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 03/29] fix: store the roots of batches consecutively in the
 root history

is_root_valid searches the first min(mt_roots_count, HISTORY_ARRAY_SIZE)
entries, but a root was stored at its commitment index modulo the history
size, so with batching (index != number of batches) recent roots (even the
current one) were refused, and unset entries (zero) were accepted.
---
 elusiv/src/state/commitment.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index dac3b7c..f57d9f2 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -259,11 +259,12 @@ impl<'a> CommitmentHashingAccount<'a> {
             );
 
             // This inserts the new root into the `active_mt_root_history`
+            let roots_count = storage_account.get_mt_roots_count();
             storage_account.set_active_mt_root_history(
-                ordering as usize % HISTORY_ARRAY_SIZE,
+                roots_count as usize % HISTORY_ARRAY_SIZE,
                 &storage_account.get_root().unwrap(),
             );
-            storage_account.set_mt_roots_count(&(storage_account.get_mt_roots_count() + 1));
+            storage_account.set_mt_roots_count(&(roots_count + 1));
         }
     }
 }
-- 
2.43.0


From dcc025502401b1202c511b45622c7f2323ad0306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 04/29] fix: keep the metadata pointer aligned with the
 commitments of the active tree

The metadata pointer was never reset when the active tree is closed, so after
the first closed tree no further batch could be started (the pointer exceeds
the metadata children).
---
 elusiv/src/processor/commitment.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index 41b0e0f..2cc84e9 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -393,6 +393,9 @@ pub fn init_commitment_hash(
 
     CommitmentQueue::new(commitment_queue).remove(usize_as_u32_safe(batch.len()))?;
 
+    // Metadata is stored at the index of its commitment in the active MT
+    metadata_account.set_next_metadata_ptr(&hashing_account.get_ordering());
+
     let mut metadata_queue = MetadataQueue::new(metadata_queue);
     for _ in 0..batch.len() {
         let metadata = metadata_queue.dequeue_first()?;
-- 
2.43.0


From 7361e72129e9f63d8b34404e6cf925c6fc6772d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 05/29] fix: refuse proof requests whose total amount overflows

amount + fee wraps around (release builds), so a proof over a tiny total
amount could be used to withdraw an arbitrary amount from the pool.
---
 elusiv/src/types.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/elusiv/src/types.rs b/elusiv/src/types.rs
index e9c40fc..4f0a843 100644
--- a/elusiv/src/types.rs
+++ b/elusiv/src/types.rs
@@ -464,6 +464,16 @@ impl PublicInputs for SendPublicInputs {
             return false;
         }
 
+        // The total amount (a public signal) cannot overflow
+        if self
+            .join_split
+            .amount
+            .checked_add(self.join_split.fee)
+            .is_none()
+        {
+            return false;
+        }
+
         true
     }
 
-- 
2.43.0


From 2b2dd9d090676441d19477573161958c946f61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 06/29] fix: refuse roots of trees that do not exist yet

For a tree index larger than the index of the active tree the root zero (of
the fresh nullifier account) was accepted.
---
 elusiv/src/processor/proof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..6ac705d 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -157,6 +157,15 @@ pub fn init_verification<'a, 'b, 'c, 'd>(
         &tree_indices,
     )?;
 
+    // Only the active MT and closed MTs have roots
+    let roots_count = join_split.roots().iter().flatten().count();
+    guard!(
+        tree_indices[..roots_count]
+            .iter()
+            .all(|tree_index| *tree_index <= storage_account.get_trees_count()),
+        ElusivError::InvalidMerkleRoot
+    );
+
     // Open [`NullifierDuplicateAccount`]
     // - this account is used to prevent two proof verifications (of the same nullifier-hashes) at the same time
     // - using `skip_nullifier_pda` a second verification can be initialized, for more details see OS-ELV-ADV-05
-- 
2.43.0


From e7ba2b59130ccdc2984d7d20b6e2ce714755a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 07/29] fix: forward the associated token account rent of an
 invalid proof only if it was reserved

---
 elusiv/src/processor/proof.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 6ac705d..6b58dc0 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -893,11 +893,21 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
+        // `associated_token_account_rent` has only been reserved for associated token accounts
+        let associated_token_account_rent = match &request {
+            ProofRequest::Send(public_inputs)
+                if public_inputs.recipient_is_associated_token_account =>
+            {
+                spl_token_account_rent()?
+            }
+            _ => Lamports(0),
+        };
+
         // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
         transfer_lamports_from_pda_checked(
             pool,
             fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
+            (data.commitment_hash_fee + associated_token_account_rent)?.0,
         )?;
 
         return Ok(());
-- 
2.43.0


From 488e8060a2002685ed988b46a1644742f740942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 08/29] fix: a lamports solana-pay transfer does not pay the
 optional fee twice

---
 elusiv/src/processor/proof.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 6b58dc0..79ad3d1 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -745,11 +745,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
             if public_inputs.solana_pay_transfer {
                 // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From 582475bfd9e75d12db6f4b03010fa1cdc0cca4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 09/29] fix: the network fee of large amounts does not wrap
 around

---
 elusiv/src/state/fee.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 7695ae0..1bc8fa2 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -17,7 +17,10 @@ pub struct BasisPointFee(pub u64);
 
 impl BasisPointFee {
     pub fn calc(&self, amount: u64) -> u64 {
-        self.0 * amount / 10_000
+        let fee = self.0 as u128 * amount as u128 / 10_000;
+
+        // A fee that exceeds the maximum amount cannot be paid
+        u64::try_from(fee).unwrap_or(u64::MAX)
     }
 }
 
-- 
2.43.0


From f1127bd3414ed9a5237a095058ab4a8f161c9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 10/29] fix: evaluate the last two lines of the Miller loop
 also if the prepared inputs are the point at infinity

---
 elusiv/src/proof/verifier.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 172ba97..5c29d35 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -600,10 +600,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
             partial v = mul_by_characteristics(storage, alt_b.get()) {
                 _ = alt_b.set(G2Affine::new(v.x, v.y.neg(), v.infinity));
@@ -613,10 +611,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
         }
         {   /// 500
-- 
2.43.0


From 39fbaa116c15643de14bdcaa48c5b9ffc09099e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 11/29] fix: a proof whose B is the point at infinity is
 verified with a pairing of one

---
 elusiv/src/proof/verifier.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 5c29d35..b510ad8 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -127,8 +127,13 @@ pub fn combined_miller_loop(
     let mut alt_b = verification_account.alt_b.get();
     let mut coeff_index = verification_account.get_coeff_index() as usize;
 
-    let a = verification_account.a.get().0;
     let b = verification_account.b.get().0;
+    // The pairing with the point at infinity is one, no matter in which of the two groups it is
+    let a = if b.is_zero() {
+        G1Affine::zero()
+    } else {
+        verification_account.a.get().0
+    };
     let c = verification_account.c.get().0;
     let prepared_inputs = verification_account.prepared_inputs.get().0;
 
-- 
2.43.0


From 254012b952a80e0001509ffeddc3e962b871d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 12/29] fix: all instructions of a finalization have to belong
 to the same fee payer's verification

---
 elusiv/src/processor/proof.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 79ad3d1..7816c90 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -578,6 +578,7 @@ pub fn finalize_verification_send(
         instructions_account,
         public_inputs.join_split.token_id == 0,
         verification_account_index,
+        &verification_account.get_other_data().fee_payer.skip_mr(),
     )?;
 
     let (commitment_index, mt_index) = minimum_commitment_mt_index(
@@ -1242,16 +1243,34 @@ fn enforce_finalize_send_instructions(
     instructions_account: &AccountInfo,
     uses_lamports: bool,
     verification_account_index: u8,
+    original_fee_payer: &U256,
 ) -> ProgramResult {
     if cfg!(test) {
         return Ok(());
     }
 
+    let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
     enforce_finalize_send_instructions_inner(
-        &DefaultInstructionsSysvar(instructions_account),
+        &instructions_sysvar,
         uses_lamports,
         verification_account_index,
-    )
+    )?;
+
+    // Other fee-payers can use the same index, so we also check that all instructions belong to this verification
+    let mut index = instructions_sysvar.current_index()? as usize + 1;
+    loop {
+        let ix = instructions_sysvar.instruction_at_index(index)?;
+        guard!(
+            ix.accounts.first().map(|a| a.pubkey.to_bytes()) == Some(*original_fee_payer),
+            ElusivError::InvalidOtherInstruction
+        );
+
+        // The instructions end with a single transfer
+        if ix.data[0] != ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX {
+            return Ok(());
+        }
+        index += 1;
+    }
 }
 
 fn verify_finalize_send_instruction<I: InstructionsSysvar>(
-- 
2.43.0


From c0550dc29112142aa7bf41258b37a43fad1e7ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 13/29] fix: the last instruction of a transaction pays for one
 solana-pay transfer only

---
 elusiv/src/processor/proof.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 7816c90..91f8af6 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -750,6 +750,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
+                enforce_exclusive_last_instruction(&instructions_sysvar)?;
                 enforce_instruction(
                     &instructions_sysvar,
                     instructions_sysvar.find_instruction_count()? - 1,
@@ -989,6 +990,7 @@ pub fn finalize_verification_transfer_token<'a>(
 
                 // Last instruction: `original_fee_payer_account` transfers `amount` to `recipient` (token)
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
+                enforce_exclusive_last_instruction(&instructions_sysvar)?;
                 enforce_instruction(
                     &instructions_sysvar,
                     instructions_sysvar.find_instruction_count()? - 1,
@@ -1343,6 +1345,21 @@ fn enforce_finalize_send_instructions_inner<I: InstructionsSysvar>(
     Ok(())
 }
 
+/// Enforces that no later instruction of this program can refer to the last instruction of the transaction as well
+fn enforce_exclusive_last_instruction<I: InstructionsSysvar>(
+    instruction_sysvar: &I,
+) -> ProgramResult {
+    let current_ix_index = instruction_sysvar.current_index()? as usize;
+    for index in current_ix_index + 1..instruction_sysvar.find_instruction_count()? {
+        guard!(
+            instruction_sysvar.instruction_at_index(index)?.program_id != crate::id(),
+            ElusivError::InvalidOtherInstruction
+        );
+    }
+
+    Ok(())
+}
+
 fn enforce_instruction<I: InstructionsSysvar>(
     instruction_sysvar: &I,
     index: usize,
-- 
2.43.0


From 5c2990191548fb7541b31b7ab7d9165738002664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:53 +0000
Subject: [PATCH 14/29] fix: map lookups return the value stored for the key,
 not the one at its sorted position

---
 elusiv/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..5d5c4d3 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -179,7 +179,7 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
                     low_ptr = self.get_next(&mid_ptr);
                 }
                 Ordering::Equal => {
-                    return Err(ElusivMapError::Duplicate(self.values.get(mid as usize)))
+                    return Err(ElusivMapError::Duplicate(self.value(&mid_ptr)))
                 }
             }
         }
-- 
2.43.0


From 6905428a2ed9d3e639308c5ffed98c2ed968a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 15/29] fix: inserting directly before the maximum of a full
 map makes the new entry the maximum

---
 elusiv/src/map.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 5d5c4d3..6203ee1 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -231,6 +231,8 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
             let ptr = self.max_ptr.get();
             self.link_ptrs(&ptr, &new_ptr);
             self.max_ptr.set(new_ptr);
+        } else if is_full && index == self.len.get() - 1 {
+            // The new entry takes the position of the dropped maximum, so no relinking is required
         } else {
             // Insert at index
             let min_ptr = self.min_ptr.get();
@@ -242,18 +244,20 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
             self.link_ptrs(&new_ptr, &next);
         }
 
-        self.update_mid_ptrs(index);
-
         if is_full {
             // Update `max_ptr`
-            let prev = if index == self.len.get() {
+            let max_ptr = if index == self.len.get() - 1 {
                 new_ptr
             } else {
                 max_ptr_predecessor
             };
 
-            self.max_ptr.set(prev);
+            self.max_ptr.set(max_ptr);
+        }
+
+        self.update_mid_ptrs(index);
 
+        if is_full {
             // Return the previous max key and value
             return Ok(Some((max_key.unwrap(), max_value.unwrap())));
         }
@@ -281,7 +285,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
                 if mid == new_mid || is_full {
                     // Adjust by decreasing by one ptr
                     let mid_ptr = self.mid_ptr.get(i);
-                    let next_mid_ptr = self.get_prev(&mid_ptr);
+                    let next_mid_ptr = if is_full && mid == len - 1 {
+                        self.max_ptr.get()
+                    } else {
+                        self.get_prev(&mid_ptr)
+                    };
                     self.mid_ptr.set(i, next_mid_ptr);
                 }
             } else if mid != new_mid {
-- 
2.43.0


From a263cd9242b1eb8f76c031ae8c7e52fdb34a7ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 16/29] fix: resetting a map also resets its minimum and
 position pointers

---
 elusiv/src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6203ee1..f94dbfb 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -432,7 +432,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
     pub fn reset(&mut self) {
         self.len.set(0);
+        self.min_ptr.set(ElusivMapPtr(0));
         self.max_ptr.set(ElusivMapPtr(0));
+        for i in 0..MID_PTR_COUNT {
+            self.mid_ptr.set(i, ElusivMapPtr(0));
+        }
 
         // The first ptr points to itself
         self.next.set(0, &ElusivMapPtr(0));
-- 
2.43.0


From af8a4865b9acd57d7210cb82e8dc06d904cb0a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 17/29] fix: warden statistics store the incremented counters,
 for every day of the year

---
 elusiv-warden-network/src/processor/basic_warden.rs | 2 ++
 elusiv-warden-network/src/warden.rs                 | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..ba7809f 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -353,6 +353,8 @@ fn track_basic_warden_stats_inner(
             ProgramError::IncorrectProgramId
         );
 
+        // `day` is one-based, the statistics use the zero-based day as index
+        let day = day - 1;
         stats_account.set_store(stats_account.get_store().inc(day)?);
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..acdf1e6 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,14 +197,16 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
+    /// Increments the counters for a zero-based day of the year
+    pub fn inc(&mut self, day: u32) -> Result<&Self, ProgramError> {
         guard!(day < 366, ElusivWardenNetworkError::StatsError);
 
-        self.total
+        self.total = self
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        self.activity[day as usize] = self.activity[day as usize]
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-- 
2.43.0


From 28a207f1d9e3dc2d123196c6517dfb72cfc31157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 18/29] fix: track finalized transfers as send activity of a
 warden

---
 .../src/processor/basic_warden.rs              | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index ba7809f..cbb799b 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -268,9 +268,15 @@ pub fn open_basic_warden_stats_account<'b>(
 
 const ELUSIV_PROGRAM_ID: Pubkey = crate::macros::program_id!(elusiv);
 
+pub enum WardenActivity {
+    Store,
+    Send,
+}
+
 pub struct TrackableElusivInstruction {
     pub instruction_id: u8,
     pub warden_index: u8,
+    pub activity: WardenActivity,
 }
 
 pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
@@ -278,16 +284,19 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     TrackableElusivInstruction {
         instruction_id: 2,
         warden_index: 0,
+        activity: WardenActivity::Store,
     },
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
         warden_index: 1,
+        activity: WardenActivity::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
         warden_index: 3,
+        activity: WardenActivity::Send,
     },
 ];
 
@@ -355,7 +364,14 @@ fn track_basic_warden_stats_inner(
 
         // `day` is one-based, the statistics use the zero-based day as index
         let day = day - 1;
-        stats_account.set_store(stats_account.get_store().inc(day)?);
+        match ix.activity {
+            WardenActivity::Store => {
+                stats_account.set_store(stats_account.get_store().inc(day)?);
+            }
+            WardenActivity::Send => {
+                stats_account.set_send(stats_account.get_send().inc(day)?);
+            }
+        }
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
     }
-- 
2.43.0


From b207b332163b07a3edb89714e64f8c485d588930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 19/29] fix: store the attested metadata in the warden's
 account

---
 elusiv-warden-network/src/processor/basic_warden.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index cbb799b..e5369ef 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -235,6 +235,8 @@ pub fn attest_basic_warden_metadata(
     warden.config.region = region;
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
 
+    warden_account.set_warden(&warden);
+
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
 
     Ok(())
-- 
2.43.0


From 0c9b9385c1cb7cd14378e1ed39e01f1055ebe353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 20/29] fix: a warden cannot register itself as metadata
 attester

---
 elusiv-warden-network/src/processor/basic_warden.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index e5369ef..5616b61 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -31,6 +31,12 @@ pub fn register_basic_warden<'a, 'b>(
 ) -> ProgramResult {
     guard!(config.key == *warden.key, ProgramError::InvalidArgument);
 
+    // The attestation role is only granted by `METADATA_ATTESTER_AUTHORITY`
+    guard!(
+        !config.warden_features.attestation,
+        ProgramError::InvalidArgument
+    );
+
     basic_network_account.try_add_member(
         warden_id,
         &config.basic_warden_features,
-- 
2.43.0


From 196df6d0eceb597362b6726976b1a1f4ad00e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 21/29] fix: store the key of a registered warden operator

---
 elusiv-warden-network/src/processor/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/operator.rs b/elusiv-warden-network/src/processor/operator.rs
index d0e4e3e..ba07ede 100644
--- a/elusiv-warden-network/src/processor/operator.rs
+++ b/elusiv-warden-network/src/processor/operator.rs
@@ -29,6 +29,7 @@ pub fn register_warden_operator<'b>(
         WardenOperatorAccount,
         operator_account.get_safe()?
     );
+    operator_account.set_key(operator.key);
     operator_account.set_ident(&ident);
     operator_account.set_url(&url);
     operator_account.set_jurisdiction(&jurisdiction.into());
-- 
2.43.0


From 46ed6ac539b0e7d54193d321f392368dbddb6ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 22/29] fix: the region update only accepts the index of a
 network member

---
 elusiv-warden-network/src/network.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..579d0cc 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -79,6 +79,10 @@ impl<'a> BasicWardenNetworkAccount<'a> {
         member_index: usize,
         region: &WardenRegion,
     ) -> ProgramResult {
+        guard!(
+            member_index < self.get_members_count() as usize,
+            ElusivWardenNetworkError::InvalidInstructionData
+        );
         guard!(
             self.get_members(member_index) == warden_id,
             ElusivWardenNetworkError::InvalidInstructionData
-- 
2.43.0


From e1504ce50fec3f46c1ba013604517bf40ecba43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 23/29] fix: the second half of a quote is stored at the
 warden's member index

---
 elusiv-warden-network/src/network.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index 579d0cc..caae289 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -166,10 +166,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
         );
 
         let member_index = (0..self.get_members_count() as usize)
-            .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .find(|i| self.get_members(*i) == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From d1279cdfd914f88fa8c14a7aa41b5b2f7669a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 24/29] fix: a proposal of a token freezing authority names the
 token

---
 elusiv-warden-network/src/processor/apa.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..0274543 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -34,6 +34,17 @@ pub fn propose_apa_proposal<'b>(
     proposal.timestamp = current_timestamp()?;
     proposal.proponent = *proponent.key;
 
+    // A freezing authority can only propose for the token it is the authority of
+    if matches!(
+        proposal.proponent_role,
+        ApaProponentRole::TokenFreezingAuthority
+    ) {
+        guard!(
+            proposal.token_constraint.option().is_some(),
+            ElusivWardenNetworkError::ProposalError
+        );
+    }
+
     if let Some(token_id) = proposal.token_constraint.option() {
         guard!(
             token_id as usize <= SPL_TOKEN_COUNT,
-- 
2.43.0


From 4a3b66f737079172798b38f15f07a38ccd068810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 25/29] fix: refuse prices that are not positive

---
 shared/elusiv-types/src/tokens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shared/elusiv-types/src/tokens.rs b/shared/elusiv-types/src/tokens.rs
index fa13bce..73484a7 100644
--- a/shared/elusiv-types/src/tokens.rs
+++ b/shared/elusiv-types/src/tokens.rs
@@ -302,6 +302,11 @@ impl TokenPrice {
             .cmul(1, -(elusiv_token(token_id)?.price_base_exp as i32))
             .ok_or(TokenError::PriceError)?;
 
+        // A price that is not positive cannot be converted with
+        if price.price <= 0 {
+            return Err(TokenError::PriceError);
+        }
+
         Ok(price)
     }
 
-- 
2.43.0


From 987c4ea8bd09c881a1c0452e0582c85d69c0d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 26/29] fix: the warden that executes a tracked transfer is its
 fee payer

---
 elusiv-warden-network/src/processor/basic_warden.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 5616b61..5efc27f 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -297,13 +297,13 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
-        warden_index: 1,
+        warden_index: 0,
         activity: WardenActivity::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
-        warden_index: 3,
+        warden_index: 0,
         activity: WardenActivity::Send,
     },
 ];
-- 
2.43.0


From 9f95b544bc10269094128842f7b6879095522121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 27/29] fix: a value of a computation that is changed over
 multiple rounds stays where it is read

---
 elusiv/elusiv-interpreter/src/interpreter.rs | 5 +++--
 elusiv/elusiv-interpreter/src/storage.rs     | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/elusiv/elusiv-interpreter/src/interpreter.rs b/elusiv/elusiv-interpreter/src/interpreter.rs
index 35f066b..973ea79 100644
--- a/elusiv/elusiv-interpreter/src/interpreter.rs
+++ b/elusiv/elusiv-interpreter/src/interpreter.rs
@@ -133,7 +133,8 @@ pub fn interpret(
             read.extend(storage.read(r.clone()));
         }
         for w in scope.write.clone() {
-            write.extend(storage.write(w));
+            // (values that are written in multiple rounds, are also read in multiple rounds, so they stay where they are)
+            write.extend(storage.write(w, result.rounds == 0));
         }
 
         let mut ram_in = quote! {};
@@ -159,7 +160,7 @@ pub fn interpret(
                 if scope.free.iter().any(|x| x.id == w.id) {
                     continue;
                 }
-                write_after_free.extend(storage.write(w.clone()));
+                write_after_free.extend(storage.write(w.clone(), true));
             }
 
             if result.rounds == 0 {
diff --git a/elusiv/elusiv-interpreter/src/storage.rs b/elusiv/elusiv-interpreter/src/storage.rs
index 75c651d..afd1a1a 100644
--- a/elusiv/elusiv-interpreter/src/storage.rs
+++ b/elusiv/elusiv-interpreter/src/storage.rs
@@ -101,7 +101,7 @@ impl StorageMappings {
         m.deallocate(&r.id);
     }
 
-    pub fn write(&mut self, w: MemoryId) -> TokenStream {
+    pub fn write(&mut self, w: MemoryId, can_move: bool) -> TokenStream {
         let m = self.get_mapping(&w.ty);
         if !m.contains(&w.id) {
             m.allocate(&w.id);
@@ -111,9 +111,9 @@ impl StorageMappings {
         let name = ram_name(&w.ty);
         let id = &w.id.parse::<TokenStream>().unwrap();
 
-        // if there is a lower spot, than index, use that
+        // if there is a lower spot, than index, use that (when the value is allowed to be moved)
         let first = m.first_free();
-        if first < index {
+        if can_move && first < index {
             m.deallocate(&w.id);
             m.allocate(&w.id);
             quote! {
-- 
2.43.0


From bd6ba3729317633668bc397932e089ff71da5bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 28/29] fix: operators of equal binding apply from left to
 right, unary operators before binary ones

---
 elusiv/elusiv-interpreter/src/parser.rs | 79 +++++++++----------------
 1 file changed, 28 insertions(+), 51 deletions(-)

diff --git a/elusiv/elusiv-interpreter/src/parser.rs b/elusiv/elusiv-interpreter/src/parser.rs
index cab9bef..63c195b 100644
--- a/elusiv/elusiv-interpreter/src/parser.rs
+++ b/elusiv/elusiv-interpreter/src/parser.rs
@@ -247,67 +247,44 @@ impl From<&Vec<Token>> for Stmt {
     }
 }
 
-const UN_OP_BINDING: [UnOp; 3] = [UnOp::Ref, UnOp::Deref, UnOp::Not];
-const BIN_OP_BINDING: [BinOp; 6] = [
-    BinOp::Add,
-    BinOp::Sub,
-    BinOp::Mul,
-    BinOp::LargerThan,
-    BinOp::LessThan,
-    BinOp::Equals,
+/// Binary operators, from those that bind the least to those that bind the most
+const BIN_OP_BINDING: [&[BinOp]; 3] = [
+    &[BinOp::LargerThan, BinOp::LessThan, BinOp::Equals],
+    &[BinOp::Add, BinOp::Sub],
+    &[BinOp::Mul],
 ];
 
 impl From<&[Token]> for Expr {
     fn from(tree: &[Token]) -> Self {
-        // Unops
-        if let Some(Punct(first)) = tree.first() {
-            for op in &UN_OP_BINDING {
-                let op = Some(op.clone());
-                if first.as_unop() == op {
-                    for i in 2..=tree.len() {
-                        let expr: Expr = (&tree[1..i]).into();
-                        if !matches!(expr, Expr::Invalid) {
-                            let un_expr = Expr::UnOp(op.unwrap(), Box::new(expr));
-                            if i == tree.len() {
-                                // full expr is just an unop expr
-                                return un_expr;
-                            } else {
-                                // if tokens remain on the right, we know that we have to be part of a binop expr
-                                if let Punct(p) = &tree[i] {
-                                    let bop = p.as_binop().unwrap();
-                                    return Expr::BinOp(
-                                        Box::new(un_expr),
-                                        bop,
-                                        Box::new((&tree[i + 1..]).into()),
-                                    );
-                                }
-                            }
-                            println!("Invalid unary operation");
-                            return Expr::Invalid;
-                        }
+        // Binops
+        // - an operator that binds less is applied later (so it splits the expression first)
+        // - operators that bind equally are applied from left to right (so the last one splits the expression first)
+        for ops in BIN_OP_BINDING {
+            for (bop_pos, token) in tree.iter().enumerate().rev() {
+                let op = match token {
+                    Punct(p) => p.as_binop(),
+                    _ => None,
+                };
+
+                if let Some(op) = op.filter(|op| ops.contains(op)) {
+                    let l: Expr = (&tree[..bop_pos]).into();
+                    let r: Expr = (&tree[bop_pos + 1..]).into();
+
+                    if !matches!(l, Expr::Invalid) && !matches!(r, Expr::Invalid) {
+                        return Expr::BinOp(Box::new(l), op, Box::new(r));
                     }
-                    println!("Invalid unary operation");
-                    return Expr::Invalid;
                 }
             }
         }
 
-        // Binops
-        for op in &BIN_OP_BINDING {
-            let op = Some(op.clone());
-            if let Some(bop_pos) = tree.iter().position(|t| {
-                if let Punct(p) = t {
-                    p.as_binop() == op
-                } else {
-                    false
-                }
-            }) {
-                let l: Expr = (&tree[..bop_pos]).into();
-                let r: Expr = (&tree[bop_pos + 1..]).into();
-
-                if !matches!(l, Expr::Invalid) && !matches!(r, Expr::Invalid) {
-                    return Expr::BinOp(Box::new(l), op.unwrap(), Box::new(r));
+        // Unops (they bind more than any binop)
+        if let Some(Punct(first)) = tree.first() {
+            if let Some(op) = first.as_unop() {
+                let expr: Expr = (&tree[1..]).into();
+                if matches!(expr, Expr::Invalid) {
+                    return Expr::Invalid;
                 }
+                return Expr::UnOp(op, Box::new(expr));
             }
         }
 
-- 
2.43.0


From fee4d392db19e239c2539b135864b903b1186a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 29/29] fix: statements after a loop or a block of a
 computation are not dropped

---
 elusiv/elusiv-interpreter/src/parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/elusiv/elusiv-interpreter/src/parser.rs b/elusiv/elusiv-interpreter/src/parser.rs
index 63c195b..05c201f 100644
--- a/elusiv/elusiv-interpreter/src/parser.rs
+++ b/elusiv/elusiv-interpreter/src/parser.rs
@@ -114,12 +114,15 @@ impl From<&[Token]> for Stmt {
             ),
 
             // For loop
-            [FOR, Ident(iter_id), COMMA, Ident(var_id), IN, arr, Group(g, Delimiter::Brace)] => {
-                Stmt::For(
-                    SingleId(iter_id.clone()),
-                    SingleId(var_id.clone()),
-                    vec![arr.clone()].into(),
-                    Box::new(g.into()),
+            [FOR, Ident(iter_id), COMMA, Ident(var_id), IN, arr, Group(g, Delimiter::Brace), tail @ ..] => {
+                try_stmt_tail(
+                    Stmt::For(
+                        SingleId(iter_id.clone()),
+                        SingleId(var_id.clone()),
+                        vec![arr.clone()].into(),
+                        Box::new(g.into()),
+                    ),
+                    tail,
                 )
             }
 
@@ -225,8 +228,12 @@ pub fn try_parse_usize(source: &str) -> Option<usize> {
 }
 
 fn try_stmt_tail(head: Stmt, tail: &[Token]) -> Stmt {
+    if tail.is_empty() {
+        return head;
+    }
+
     match tail.into() {
-        Stmt::Invalid => head,
+        Stmt::Invalid => Stmt::Invalid,
         Stmt::Collection(c) => {
             let mut c = c;
             c.insert(0, head);
-- 
2.43.0

