B = "ethereum-consensus/src/"
SEEDS = [
dict(ID="inactivity-recovery-absent-only", PROP="E03", NEEDS="a participating validator with an inactivity score above one while the chain is not leaking",
 BREAKS="participating validators no longer recover at the full rate once the leak ends",
 EDITS=[(B+"altair/epoch_processing.rs", "        // Decrease the inactivity score of all eligible validators during a leak-free epoch\n        if not_is_leaking {", "        // Decrease the inactivity score of all eligible validators during a leak-free epoch\n        if not_is_leaking && !unslashed_participating_indices.contains(&index) {")],
 DEMO='''//PRELUDE
use ethereum_consensus::altair::minimal as spec;
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    s.slot = context.slots_per_epoch * 3;
    s.finalized_checkpoint.epoch = 1;
    for _ in 0..4 {
        let v = ethereum_consensus::phase0::Validator { exit_epoch: u64::MAX, withdrawable_epoch: u64::MAX, effective_balance: 32_000_000_000, ..Default::default() };
        s.validators.push(v);
        s.previous_epoch_participation.push(0);
        s.inactivity_scores.push(100);
    }
    s.previous_epoch_participation[1] = 0b111;
    ethereum_consensus::altair::epoch_processing::process_inactivity_updates(&mut s, &context).unwrap();
    assert_eq!(s.inactivity_scores[0], 100 + context.inactivity_score_bias - context.inactivity_score_recovery_rate);
    assert_eq!(s.inactivity_scores[1], 100 - 1 - context.inactivity_score_recovery_rate);
}
'''),
dict(ID="deposit-leftover-after-drain", PROP="E09", NEEDS="an epoch in which every pending balance deposit is applied and some churn is left over",
 BREAKS="unused deposit churn is carried into the next epoch even though the queue was emptied",
 EDITS=[(B+"electra/epoch_processing.rs", "    state.pending_balance_deposits.drain(..next_deposit_index);\n\n    if state.pending_balance_deposits.is_empty() {\n        state.deposit_balance_to_consume = 0;\n    } else {\n        state.deposit_balance_to_consume = available_for_processing - processed_amount;\n    }\n",
 "    if state.pending_balance_deposits.is_empty() {\n        state.deposit_balance_to_consume = 0;\n    } else {\n        state.deposit_balance_to_consume = available_for_processing - processed_amount;\n    }\n\n    state.pending_balance_deposits.drain(..next_deposit_index);\n")],
 DEMO='''//PRELUDE
fn main() {
    let context = Context::for_minimal();
    let mut s = ElectraState::default();
    s.slot = context.slots_per_epoch * 3;
    s.validators.push(ethereum_consensus::electra::Validator { exit_epoch: u64::MAX, withdrawable_epoch: u64::MAX, effective_balance: 32_000_000_000, ..Default::default() });
    s.balances.push(32_000_000_000);
    let mut d = ethereum_consensus::electra::PendingBalanceDeposit::default();
    d.amount = 5;
    s.pending_balance_deposits.push(d);
    ethereum_consensus::electra::epoch_processing::process_pending_balance_deposits(&mut s, &context).unwrap();
    assert!(s.pending_balance_deposits.is_empty());
    assert_eq!(s.balances[0], 32_000_000_005);
    assert_eq!(s.deposit_balance_to_consume, 0);
}
'''),
dict(ID="header-decode-older-first", PROP="L05", NEEDS="JSON of a deneb execution payload header (its fields are a superset of capella's)",
 BREAKS="a deneb header decodes as a capella header and silently loses its blob gas fields",
 EDITS=[(B+"types/execution_payload_header.rs", "            return Ok(Self::Deneb(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Capella(inner));", "            return Ok(Self::Capella(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Deneb(inner));")],
 DEMO='''//PRELUDE
use ethereum_consensus::types::mainnet::ExecutionPayloadHeader as H;
fn main() {
    let mut h = ethereum_consensus::deneb::mainnet::ExecutionPayloadHeader::default();
    h.blob_gas_used = 7;
    let j = serde_json::to_string(&H::Deneb(h.clone())).unwrap();
    let back: H = serde_json::from_str(&j).unwrap();
    assert!(matches!(back.version(), ethereum_consensus::Fork::Deneb));
    assert_eq!(back.blob_gas_used(), Some(7));
    let c = ethereum_consensus::capella::mainnet::ExecutionPayloadHeader::default();
    let j = serde_json::to_string(&H::Capella(c)).unwrap();
    let back: H = serde_json::from_str(&j).unwrap();
    assert!(matches!(back.version(), ethereum_consensus::Fork::Capella));
}
'''),
dict(ID="context-altair-penalty-source", PROP="K03", NEEDS="running altair inactivity penalties with a runtime context",
 BREAKS="the altair inactivity penalty quotient is taken from the phase0 preset",
 EDITS=[(B+"state_transition/context.rs", "            inactivity_penalty_quotient_altair: altair_preset.inactivity_penalty_quotient_altair,", "            inactivity_penalty_quotient_altair: phase0_preset.inactivity_penalty_quotient,")],
 DEMO='''//PRELUDE
fn main() {
    let c = Context::for_mainnet();
    assert_eq!(c.inactivity_penalty_quotient_altair, 3 * (1 << 24));
    assert_eq!(c.inactivity_penalty_quotient, 1 << 26);
}
'''),
dict(ID="shuffle-second-half-source", PROP="H01", NEEDS="batch shuffling of more than 256 validators with the optimised routine, so the second half crosses a 256-index boundary",
 BREAKS="the second half of a round keeps using a stale hash block, so batch shuffling is no longer the specified permutation",
 EDITS=[(B+"phase0/helpers.rs", "        for (k, i) in ((pivot + 1)..mirror).enumerate() {\n            let j = end - k;\n            if j & 0xff == 0xff {", "        for (k, i) in ((pivot + 1)..mirror).enumerate() {\n            let j = end - k;\n            if j & 0xff == 0xff && k == 0 {")],
 FEATURES=["optimized"],
 DEMO='''//PRELUDE
use ethereum_consensus::phase0::helpers::{compute_shuffled_index, compute_shuffled_indices};
fn main() {
    let context = Context::for_minimal();
    let seed: Bytes32 = [7u8; 32].as_ref().try_into().unwrap();
    for n in [1usize, 10, 300, 1000] {
        let input: Vec<usize> = (0..n).collect();
        let out = compute_shuffled_indices(&input, &seed, &context);
        for i in 0..n {
            assert_eq!(out[i], input[compute_shuffled_index(i, n, &seed, &context).unwrap()], "n={n} i={i}");
        }
    }
}
'''),
dict(ID="executor-first-slot-block", PROP="T03", NEEDS="a bellatrix block in the very first slot after the upgrade, applied to an altair state",
 BREAKS="the first block of a fork is rejected because its slot is processed twice",
 EDITS=[(B+"state_transition/executor.rs", "                altair::process_slots(state, fork_slot, &self.context)?;\n                let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);\n                if signed_block.message.slot == state.slot {", "                altair::process_slots(state, fork_slot, &self.context)?;\n                let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);\n                if signed_block.message.slot < state.slot {")],
 DEMO='''//PRELUDE
use ethereum_consensus::{altair::minimal as altair, bellatrix::minimal as bellatrix, state_transition::minimal::Executor, types::minimal::BeaconState};
fn main() {
    let mut context = Context::for_minimal();
    context.altair_fork_epoch = 0;
    context.bellatrix_fork_epoch = 1;
    let mut s = altair::BeaconState::default();
    s.slot = context.slots_per_epoch - 1;
    for i in 0..16u8 {
        let sk = crypto::SecretKey::try_from([i + 1; 32].as_ref()).unwrap();
        s.validators.push(ethereum_consensus::phase0::Validator { public_key: sk.public_key(), exit_epoch: u64::MAX, withdrawable_epoch: u64::MAX, effective_balance: 32_000_000_000, ..Default::default() });
        s.balances.push(32_000_000_000);
        s.previous_epoch_participation.push(0);
        s.current_epoch_participation.push(0);
        s.inactivity_scores.push(0);
    }
    let mut b = bellatrix::SignedBeaconBlock::default();
    b.message.slot = context.slots_per_epoch;
    let mut ex = Executor::new(BeaconState::Altair(s), context);
    // the block is invalid, but not for its slot
    let e = ex.apply_bellatrix_block_with_validation(&b, ethereum_consensus::state_transition::Validation::Disabled).unwrap_err();
    assert!(!format!("{e:?}").contains("TransitionToPreviousSlot"), "{e:?}");
}
'''),
]
