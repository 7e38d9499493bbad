B = "ethereum-consensus/src/"
VAL = "ethereum_consensus::phase0::Validator { exit_epoch: u64::MAX, withdrawable_epoch: u64::MAX, effective_balance: 32_000_000_000, ..Default::default() }"
SEEDS = [
dict(ID="sweep-index-not-wrapped", PROP="B09", NEEDS="a full set of withdrawals whose last one belongs to the last validator of the registry",
 BREAKS="the next sweep starts one past the end of the registry instead of at validator 0",
 EDITS=[(B+"capella/block_processing.rs", "        let next_validator_index = (latest_withdrawal.validator_index + 1) % state.validators.len();\n        state.next_withdrawal_validator_index = next_validator_index;", "        let next_validator_index = latest_withdrawal.validator_index + 1;\n        state.next_withdrawal_validator_index = next_validator_index.min(state.validators.len());")],
 DEMO='''//PRELUDE
use ethereum_consensus::capella::minimal as spec;
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    for _ in 0..6 {
        let mut v = VAL;
        let mut c = [0u8; 32];
        c[0] = 1;
        v.withdrawal_credentials = c.as_ref().try_into().unwrap();
        v.withdrawable_epoch = 0;
        s.validators.push(v);
        s.balances.push(32_000_000_000);
    }
    s.next_withdrawal_validator_index = 2;
    for want in [0usize, 4, 2, 0] {
        let w = ethereum_consensus::capella::block_processing::get_expected_withdrawals(&s, &context);
        let mut p = spec::ExecutionPayload::default();
        for x in &w { p.withdrawals.push(x.clone()); }
        assert_eq!(w.len(), context.max_withdrawals_per_payload);
        ethereum_consensus::capella::block_processing::process_withdrawals(&mut s, &p, &context).unwrap();
        assert_eq!(s.next_withdrawal_validator_index, want);
        for i in 0..6 { s.balances[i] = 32_000_000_000; }
    }
}
'''.replace("VAL", VAL)),
dict(ID="exit-churn-exact-multiple", PROP="B17", NEEDS="an exit whose balance beyond the epoch's remaining churn is an exact multiple of the churn limit",
 BREAKS="the exit is delayed by one epoch too many and the extra churn stays available",
 EDITS=[(B+"electra/helpers.rs", "        let balance_to_process = exit_balance - exit_balance_to_consume;\n        let additional_epochs = (balance_to_process - 1) / per_epoch_churn + 1;", "        let balance_to_process = exit_balance - exit_balance_to_consume;\n        let additional_epochs = balance_to_process / per_epoch_churn + 1;")],
 DEMO='''//PRELUDE
use ethereum_consensus::electra::helpers::*;
fn main() {
    let context = Context::for_minimal();
    let mut s = ElectraState::default();
    s.slot = context.slots_per_epoch * 10;
    for _ in 0..8 { s.validators.push(VAL); s.balances.push(32_000_000_000); }
    let churn = get_activation_exit_churn_limit(&s, &context).unwrap();
    let first = compute_activation_exit_epoch(10, &context);
    for (amount, epoch, left) in [(churn, first, 0), (churn, first + 1, 0), (2 * churn, first + 3, 0), (churn / 2, first + 4, churn - churn / 2), (churn, first + 5, churn - churn / 2)] {
        assert_eq!(compute_exit_epoch_and_update_churn(&mut s, amount, &context).unwrap(), epoch);
        assert_eq!(s.exit_balance_to_consume, left);
    }
}
fn compute_activation_exit_epoch(e: u64, c: &Context) -> u64 { e + 1 + c.max_seed_lookahead }
'''.replace("VAL", VAL)),
dict(ID="sync-sampling-byte-block", PROP="H03", NEEDS="more than 32 sampled candidates with at least one rejected, so the hash block and the number of accepted members drift apart",
 BREAKS="sync committee sampling takes its random bytes from the wrong hash block",
 EDITS=[(B+"altair/helpers.rs", "        let i_bytes: [u8; 8] = ((i / 32) as u64).to_le_bytes();\n        hash_input[32..].copy_from_slice(&i_bytes);\n        let random_byte = hash(hash_input).as_ref()[i % 32] as u64;", "        let block = sync_committee_indices.len() / 32;\n        let i_bytes: [u8; 8] = (block as u64).to_le_bytes();\n        hash_input[32..].copy_from_slice(&i_bytes);\n        let random_byte = hash(hash_input).as_ref()[i % 32] as u64;")],
 DEMO='''//PRELUDE
use ethereum_consensus::{altair::minimal as spec, altair::helpers::get_next_sync_committee_indices, phase0::helpers::compute_shuffled_index, domains::DomainType};
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    for i in 0..64u64 {
        let mut v = VAL;
        v.effective_balance = if i % 2 == 0 { 32_000_000_000 } else { 8_000_000_000 };
        s.validators.push(v);
        s.balances.push(32_000_000_000);
    }
    let seed = ethereum_consensus::altair::spec::get_seed(&s, 1, DomainType::SyncCommittee, &context);
    let mut want = vec![];
    let mut i = 0usize;
    while want.len() < context.sync_committee_size {
        let c = compute_shuffled_index(i % 64, 64, &seed, &context).unwrap();
        let mut input = seed.as_ref().to_vec();
        input.extend_from_slice(&((i / 32) as u64).to_le_bytes());
        let byte = crypto::hash(input).as_ref()[i % 32] as u64;
        if s.validators[c].effective_balance * 255 >= 32_000_000_000 * byte { want.push(c); }
        i += 1;
    }
    assert!(i > 32);
    assert_eq!(get_next_sync_committee_indices(&s, &context).unwrap(), want);
}
'''.replace("VAL", VAL)),
dict(ID="genesis-counts-everyone", PROP="T05", NEEDS="a genesis candidate with enough deposits but too few fully funded validators",
 BREAKS="genesis triggers although too few validators are active",
 EDITS=[(B+"phase0/genesis.rs", "    get_active_validator_indices(state, GENESIS_EPOCH).len() >=\n        context.min_genesis_active_validator_count", "    let pending = state.validators.iter().filter(|v| v.exit_epoch > GENESIS_EPOCH);\n    pending.count() >= context.min_genesis_active_validator_count")],
 DEMO='''//PRELUDE
use ethereum_consensus::phase0::minimal as spec;
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    s.genesis_time = context.min_genesis_time;
    let n = context.min_genesis_active_validator_count;
    for i in 0..n {
        let mut v = VAL;
        v.activation_epoch = if i == 0 { u64::MAX } else { 0 };
        s.validators.push(v);
    }
    assert!(!ethereum_consensus::phase0::genesis::is_valid_genesis_state(&s, &context));
    s.validators[0].activation_epoch = 0;
    assert!(ethereum_consensus::phase0::genesis::is_valid_genesis_state(&s, &context));
    s.genesis_time -= 1;
    assert!(!ethereum_consensus::phase0::genesis::is_valid_genesis_state(&s, &context));
}
'''.replace("VAL", VAL)),
dict(ID="domain-version-at-fork-epoch", PROP="H05", NEEDS="a message signed for the very epoch in which the fork activates",
 BREAKS="signatures made in the first epoch of a fork are checked under the previous fork's version",
 EDITS=[(B+"phase0/helpers.rs", "    let fork_version = if epoch < state.fork.epoch {\n        state.fork.previous_version\n    } else {\n        state.fork.current_version\n    };", "    let fork = &state.fork;\n    let fork_version = match epoch.checked_sub(fork.epoch) {\n        Some(age) if age > 0 || fork.epoch == 0 => fork.current_version,\n        _ => fork.previous_version,\n    };")],
 DEMO='''//PRELUDE
use ethereum_consensus::{phase0::minimal as spec, domains::DomainType, phase0::helpers::{get_domain, compute_domain}};
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    s.fork.previous_version = [1; 4];
    s.fork.current_version = [2; 4];
    s.fork.epoch = 5;
    for (e, v) in [(4u64, [1u8; 4]), (5, [2; 4]), (6, [2; 4])] {
        let want = compute_domain(DomainType::Randao, Some(v), Some(s.genesis_validators_root), &context).unwrap();
        assert_eq!(get_domain(&s, DomainType::Randao, Some(e), &context).unwrap(), want, "epoch {e}");
    }
}
'''),
dict(ID="receipt-start-index-moves", PROP="B15", NEEDS="two deposit receipts arriving one after the other",
 BREAKS="the start index of deposit receipts follows the latest receipt instead of staying at the first one",
 EDITS=[(B+"electra/block_processing.rs", "    if state.deposit_receipts_start_index == UNSET_DEPOSIT_RECEIPTS_START_INDEX {\n        state.deposit_receipts_start_index = deposit_receipt.index;", "    let start_index = state.deposit_receipts_start_index;\n    if start_index == UNSET_DEPOSIT_RECEIPTS_START_INDEX || start_index < deposit_receipt.index {\n        state.deposit_receipts_start_index = deposit_receipt.index;")],
 DEMO='''//PRELUDE
fn main() {
    let context = Context::for_minimal();
    let mut s = ElectraState::default();
    s.deposit_receipts_start_index = u64::MAX;
    for i in [7u64, 8, 9, 3] {
        let mut r = ethereum_consensus::electra::DepositReceipt::default();
        r.index = i;
        let _ = ethereum_consensus::electra::block_processing::process_deposit_receipt(&mut s, &r, &context);
        assert_eq!(s.deposit_receipts_start_index, 7);
    }
}
'''),
dict(ID="slashing-penalty-late-epochs", PROP="E05", NEEDS="a slashed validator in an epoch before the middle of its withdrawability window",
 BREAKS="the correlated penalty is charged in several epochs instead of once",
 EDITS=[(B+"bellatrix/epoch_processing.rs", "        if validator.slashed &&\n            (epoch + context.epochs_per_slashings_vector / 2) == validator.withdrawable_epoch\n", "        let remaining = validator.withdrawable_epoch.saturating_sub(epoch);\n        if validator.slashed &&\n            remaining / 2 == context.epochs_per_slashings_vector / 4\n")],
 DEMO='''//PRELUDE
use ethereum_consensus::bellatrix::minimal as spec;
fn main() {
    let context = Context::for_minimal();
    let half = context.epochs_per_slashings_vector / 2;
    for (d, penalised) in [(half - 1, false), (half, true), (half + 1, false)] {
        let mut s = spec::BeaconState::default();
        s.slot = context.slots_per_epoch * 100;
        for _ in 0..4 { s.validators.push(VAL); s.balances.push(32_000_000_000); }
        s.validators[1].slashed = true;
        s.validators[1].exit_epoch = 90;
        s.validators[1].withdrawable_epoch = 100 + d;
        s.slashings[3] = 32_000_000_000;
        ethereum_consensus::bellatrix::epoch_processing::process_slashings(&mut s, &context).unwrap();
        assert_eq!(s.balances[1] < 32_000_000_000, penalised, "distance {d}");
        assert_eq!(s.balances[0], 32_000_000_000);
    }
}
'''.replace("VAL", VAL)),
dict(ID="historical-summary-roots-swapped", PROP="E07", NEEDS="crossing the end of a historical period in capella or later",
 BREAKS="the summary stores the state history under the block root and the other way round",
 EDITS=[(B+"capella/epoch_processing.rs", "        let historical_summary = HistoricalSummary {\n            block_summary_root: state.block_roots.hash_tree_root()?,\n            state_summary_root: state.state_roots.hash_tree_root()?,\n        };", "        let roots = [state.state_roots.hash_tree_root()?, state.block_roots.hash_tree_root()?];\n        let [block_summary_root, state_summary_root] = roots;\n        let historical_summary = HistoricalSummary { block_summary_root, state_summary_root };")],
 DEMO='''//PRELUDE
use ethereum_consensus::capella::minimal as spec;
use ssz_rs::prelude::*;
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    let period = context.slots_per_historical_root / context.slots_per_epoch;
    s.block_roots[0] = [9u8; 32].as_ref().try_into().unwrap();
    let (b, t) = (s.block_roots.hash_tree_root().unwrap(), s.state_roots.hash_tree_root().unwrap());
    assert_ne!(b, t);
    s.slot = context.slots_per_epoch * (period - 1);
    ethereum_consensus::capella::epoch_processing::process_historical_summaries_update(&mut s, &context).unwrap();
    assert_eq!(s.historical_summaries.len(), 1);
    assert_eq!(s.historical_summaries[0].block_summary_root, b);
    assert_eq!(s.historical_summaries[0].state_summary_root, t);
}
'''),
dict(ID="effective-balance-cap-by-prefix", PROP="E06", NEEDS="a validator with old-style withdrawal credentials holding more than 32 ether at an epoch boundary",
 BREAKS="validators without compounding credentials are credited above the 32 ether cap",
 EDITS=[(B+"electra/epoch_processing.rs", "        let effective_balance_limit = if has_compounding_withdrawal_credential(validator) {\n            context.max_effective_balance_electra\n        } else {\n            context.min_activation_balance\n        };", "        let effective_balance_limit = if has_compounding_withdrawal_credential(validator) {\n            context.max_effective_balance_electra\n        } else {\n            context.max_effective_balance.max(validator.effective_balance + upward_threshold)\n        };")],
 DEMO='''//PRELUDE
fn main() {
    let context = Context::for_minimal();
    let mut s = ElectraState::default();
    for (p, b, e) in [(1u8, 40_000_000_000u64, 32_000_000_000u64), (2, 40_000_000_000, 40_000_000_000), (0, 33_500_000_000, 32_000_000_000), (1, 31_000_000_000, 31_000_000_000), (2, 5_000_000_000_000, 2_048_000_000_000)] {
        let mut v = VAL;
        let mut c = [0u8; 32];
        c[0] = p;
        v.withdrawal_credentials = c.as_ref().try_into().unwrap();
        s.validators.push(v);
        s.balances.push(b);
        ethereum_consensus::electra::epoch_processing::process_effective_balance_updates(&mut s, &context);
        let i = s.validators.len() - 1;
        assert_eq!(s.validators[i].effective_balance, e, "prefix {p} balance {b}");
    }
}
'''.replace("VAL", VAL)),
dict(ID="secret-key-debug-inverted", PROP="C02", NEEDS="formatting a secret key with {:?} in a build without the debugging feature",
 BREAKS="the default build prints secret key bytes in debug output",
 EDITS=[(B+"crypto/bls.rs", "        f.debug_tuple(\"SecretKey\").finish()", "        let inner = Bytes32::try_from(self.0.to_bytes().as_ref()).unwrap();\n        f.debug_tuple(\"SecretKey\").field(&inner).finish()")],
 DEMO='''//PRELUDE
fn main() {
    let sk = crypto::SecretKey::try_from([0x5au8; 32].as_ref()).unwrap();
    let s = format!("{sk:?}");
    assert!(!s.to_lowercase().contains("5a5a"), "{s}");
    assert!(s.contains("SecretKey"));
}
'''),
dict(ID="fork-lookup-slot-of-boundary", PROP="K04", NEEDS="asking for the fork of the first slot of a fork's first epoch",
 BREAKS="the first slot of the deneb epoch is reported as capella",
 EDITS=[(B+"state_transition/context.rs", "        } else if epoch >= self.deneb_fork_epoch {\n            Fork::Deneb\n        } else if epoch >= self.capella_fork_epoch {", "        } else if slot.div_ceil(self.slots_per_epoch) > self.deneb_fork_epoch {\n            Fork::Deneb\n        } else if epoch >= self.capella_fork_epoch {")],
 DEMO='''//PRELUDE
use ethereum_consensus::Fork;
fn main() {
    let c = Context::for_mainnet();
    let n = c.slots_per_epoch;
    for (e, f, before) in [(c.altair_fork_epoch, Fork::Altair, Fork::Phase0), (c.bellatrix_fork_epoch, Fork::Bellatrix, Fork::Altair), (c.capella_fork_epoch, Fork::Capella, Fork::Bellatrix), (c.deneb_fork_epoch, Fork::Deneb, Fork::Capella)] {
        assert_eq!(format!("{:?}", c.fork_for(e * n)), format!("{:?}", f));
        assert_eq!(format!("{:?}", c.fork_for(e * n + 1)), format!("{:?}", f));
        assert_eq!(format!("{:?}", c.fork_for(e * n - 1)), format!("{:?}", before));
    }
}
'''),
dict(ID="bls-change-domain-of-current-fork", PROP="B06", NEEDS="a credential change whose message was signed under the genesis fork version, on a chain past genesis",
 BREAKS="the change is verified under the current fork version, so properly signed changes are rejected",
 EDITS=[(B+"capella/block_processing.rs", "    let domain = compute_domain(\n        DomainType::BlsToExecutionChange,\n        None,", "    let domain = compute_domain(\n        DomainType::BlsToExecutionChange,\n        Some(state.fork.current_version),")],
 DEMO='''//PRELUDE
use ethereum_consensus::{capella::minimal as spec, capella::{BlsToExecutionChange, SignedBlsToExecutionChange}, domains::DomainType, signing::sign_with_domain, phase0::helpers::compute_domain};
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    s.fork.current_version = [3, 0, 0, 1];
    let sk = crypto::SecretKey::try_from([9u8; 32].as_ref()).unwrap();
    let mut v = VAL;
    let mut h: [u8; 32] = crypto::hash(sk.public_key().as_ref()).as_ref().try_into().unwrap();
    h[0] = 0;
    v.withdrawal_credentials = h.as_ref().try_into().unwrap();
    s.validators.push(v);
    s.balances.push(1);
    let m = BlsToExecutionChange { validator_index: 0, from_bls_public_key: sk.public_key(), to_execution_address: Default::default() };
    let domain = compute_domain(DomainType::BlsToExecutionChange, Some(context.genesis_fork_version), Some(s.genesis_validators_root), &context).unwrap();
    let signature = sign_with_domain(&m, &sk, domain).unwrap();
    let signed = SignedBlsToExecutionChange { message: m, signature };
    ethereum_consensus::capella::block_processing::process_bls_to_execution_change(&mut s, &signed, &context).unwrap();
    assert_eq!(s.validators[0].withdrawal_credentials[0], 1);
}
'''.replace("VAL", VAL)),
]
