from props1 import p, P
p("E01", "Justification and finalization follow the two-thirds and four-epoch rules",
  "At each epoch boundary the justified checkpoints and bits are updated only by two-thirds target balance of the previous or current epoch, the finalized checkpoint only by the four consecutive-justification rules, and nothing changes in the first two epochs.",
  "every state and participation pattern, in every fork", ["phase0/epoch_processing.rs", "altair/epoch_processing.rs"], [("update", "weigh_justification_and_finalization, process_justification_and_finalization")],
  "fork ALL process_justification_and_finalization weigh_justification_and_finalization get_block_root get_matching_target_attestations get_unslashed_participating_indices get_total_balance get_attesting_balance")
p("E02", "Attestation rewards and penalties equal the fork's formulas for every validator",
  "At each epoch boundary every eligible validator's balance changes by exactly the source, target, head, inclusion and inactivity components of its fork, penalties saturate at zero, and no changes are made in the genesis epoch.",
  "every state and participation pattern, in every fork", ["phase0/epoch_processing.rs", "altair/epoch_processing.rs", "altair/helpers.rs", "bellatrix/helpers.rs"], [("deltas", "get_flag_index_deltas, get_inactivity_penalty_deltas, get_attestation_deltas"), ("application", "process_rewards_and_penalties")],
  "fork ALL process_rewards_and_penalties get_flag_index_deltas get_inactivity_penalty_deltas get_attestation_deltas get_source_deltas get_target_deltas get_head_deltas get_inclusion_delay_deltas get_attestation_component_deltas get_base_reward get_base_reward_per_increment get_proposer_reward get_finality_delay is_in_inactivity_leak get_eligible_validator_indices get_matching_source_attestations get_matching_head_attestations get_unslashed_attesting_indices")
p("E03", "Inactivity scores rise for absent validators and recover for participants",
  "From Altair on, at each epoch boundary an eligible validator's inactivity score decreases by at most one when it voted timely for the target and increases by the bias otherwise, then decreases by at most the recovery rate outside a leak; scores never go negative and nothing happens in the genesis epoch.",
  "every state, Altair onward", ["altair/epoch_processing.rs"], [("scores", "process_inactivity_updates")],
  "fork ALL process_inactivity_updates is_in_inactivity_leak get_unslashed_participating_indices")
p("E04", "Registry updates queue, activate and eject exactly the qualifying validators",
  "At each epoch boundary validators that qualify are put in the activation queue, validators at or below the ejection balance start exiting, and finalized-eligible validators are activated in eligibility-epoch then index order up to the fork's churn limit (Electra: without limit).",
  "every registry, in every fork", ["phase0/epoch_processing.rs", "deneb/epoch_processing.rs", "electra/epoch_processing.rs"], [("registry", "process_registry_updates")],
  "fork ALL process_registry_updates is_eligible_for_activation_queue is_eligible_for_activation is_active_validator")
p("E05", "Correlated slashing penalties hit slashed validators only at the window midpoint",
  "At each epoch boundary exactly the slashed validators whose withdrawable epoch is half a slashing window away lose the proportional penalty given by the total slashed balance, the fork's multiplier and the total active balance, in whole increments.",
  "every state, in every fork", ["phase0/epoch_processing.rs", "altair/epoch_processing.rs", "bellatrix/epoch_processing.rs"], [("penalty", "process_slashings")],
  "fork ALL process_slashings")
p("E06", "Effective balances move only past the hysteresis thresholds, within the cap",
  "At each epoch boundary a validator's effective balance changes only if its balance left the downward or upward hysteresis band, becoming the balance rounded down to an increment and capped at the validator's maximum.",
  "every state, in every fork", ["phase0/epoch_processing.rs", "electra/epoch_processing.rs"], [("update", "process_effective_balance_updates")],
  "fork ALL process_effective_balance_updates get_validator_max_effective_balance")
p("E07", "Epoch rotations reset exactly the next period's accumulators and archive history",
  "At the boundary of an epoch or period the eth1 votes, next slashing slot, next randomness mix, participation records and sync committees are reset or rotated exactly when due, and the batch of block and state roots is archived once per full history period.",
  "every epoch number and state, in every fork", ["phase0/epoch_processing.rs", "altair/epoch_processing.rs", "capella/epoch_processing.rs"], [("resets", "process_eth1_data_reset, process_slashings_reset, process_randao_mixes_reset, process_participation_flag_updates"), ("archives", "process_historical_roots_update, process_historical_summaries_update")],
  "fork ALL process_eth1_data_reset process_slashings_reset process_randao_mixes_reset process_historical_roots_update process_historical_summaries_update process_participation_record_updates process_participation_flag_updates process_sync_committee_updates")
p("E08", "Epoch processing runs every step of its fork once, in the specified order",
  "For every fork the epoch transition performs all of the fork's steps exactly once and in the protocol's order, and fails if any of them fails.",
  "every state, in every fork", ["phase0/epoch_processing.rs", "altair/epoch_processing.rs", "bellatrix/epoch_processing.rs", "capella/epoch_processing.rs", "electra/epoch_processing.rs"], [("sequence", "process_epoch")],
  "fork ALL process_epoch")
p("E09", "Pending deposits and consolidations are applied within churn and only when due",
  "In Electra pending balance deposits are credited in order while the epoch's churn budget (including carry-over) allows, the unused budget carries over only if deposits remain, and pending consolidations move the source's active balance to the target once the source is withdrawable, skipping slashed sources.",
  "every queue content, Electra", ["electra/epoch_processing.rs", "electra/helpers.rs"], [("queues", "process_pending_balance_deposits, process_pending_consolidations")],
  "fork electra process_pending_balance_deposits process_pending_consolidations get_active_balance switch_to_compounding_validator queue_excess_active_balance queue_entire_balance_and_reset_validator get_activation_exit_churn_limit")
p("T01", "Slot processing caches roots and runs the epoch transition exactly at boundaries",
  "Advancing the state to a later slot caches the state root and block root for every slot passed, fills in the latest header's state root once, runs the epoch transition exactly before each epoch boundary, and refuses to go to a slot that is not in the future.",
  "every state and target slot, in every fork", ["phase0/slot_processing.rs"], [("slots", "process_slots, process_slot")],
  "fork ALL process_slots process_slot")
p("T02", "A block is applied only if its signature and claimed state root check out",
  "With validation enabled, applying a signed block advances to its slot, verifies the proposer's signature, processes the block and accepts only if the resulting state root equals the one the block claims; with validation disabled only those two checks are skipped.",
  "every state, block and validation mode, in every fork", ["phase0/state_transition.rs", "bellatrix/state_transition.rs"], [("transition", "state_transition, state_transition_block_in_slot"), ("signature", "verify_block_signature")],
  "fork ALL state_transition state_transition_block_in_slot verify_block_signature")
p("T03", "The fork-agnostic executor applies blocks across upgrades by the right rules",
  "Applying any signed block through the executor upgrades the state through every intermediate fork exactly at the configured epochs, applies the block with its own fork's transition and validation mode, and rejects blocks whose fork precedes the state's.",
  "every state, block and fork schedule", ["state_transition/executor.rs", "types/beacon_state.rs"], [("dispatch", "Executor methods")],
  "fn lib state_transition::executor *", over=("inputs", "histories", "configurations"))
p("T04", "Fork upgrades carry over every field and initialise the new ones as specified",
  "Upgrading a state to the next fork preserves every existing field, rotates the fork record to the new version at the current epoch, and initialises each new field to the protocol-defined value (participation translation, sync committees, empty payload header, withdrawal cursors, churn budgets, re-queued pending validators).",
  "every pre-fork state, for each fork boundary", ["altair/fork.rs", "bellatrix/fork.rs", "capella/fork.rs", "deneb/fork.rs", "electra/fork.rs"], [("upgrades", "upgrade_to_*")],
  "fork ALL upgrade_to_* translate_participation\nfn lib altair::fork *\nfn lib bellatrix::fork *\nfn lib capella::fork *\nfn lib deneb::fork *\nfn lib electra::fork *")
p("T05", "Genesis states are built deterministically from deposits, with a validity test",
  "Building a genesis state from an eth1 block and deposits applies every deposit against the incrementally built deposit root, activates exactly fully funded validators, sets the genesis time, validators root, header and fork, and a genesis state is valid only past the minimum time and active-validator count.",
  "every eth1 block and deposit list, in every fork", ["phase0/genesis.rs", "altair/genesis.rs", "bellatrix/genesis.rs", "capella/genesis.rs", "deneb/genesis.rs", "electra/genesis.rs"], [("genesis", "initialize_beacon_state_from_eth1, is_valid_genesis_state, get_genesis_block")],
  "fork ALL initialize_beacon_state_from_eth1 is_valid_genesis_state get_genesis_block")
p("H01", "Shuffling is the specified swap-or-not permutation, single-index and batch alike",
  "The shuffled position of an index and the batch shuffle of a list follow the swap-or-not network with the configured round count, seed and hash-byte selection; out-of-range indices are rejected.",
  "every index, list and seed", ["phase0/helpers.rs"], [("shuffle", "compute_shuffled_index, compute_shuffled_indices")],
  "fork ALL compute_shuffled_index compute_shuffled_indices")
p("H02", "Committees partition the active validators by slot and index",
  "The committee of a slot and index is the specified contiguous slice of the shuffled active set for that epoch's attester seed, and the number of committees per slot follows the configured bounds and target size.",
  "every state, slot and index", ["phase0/helpers.rs"], [("committees", "get_beacon_committee, compute_committee, get_committee_count_per_slot")],
  "fork ALL get_beacon_committee compute_committee get_committee_count_per_slot get_active_validator_indices")
p("H03", "Proposers and sync committees are sampled in proportion to effective balance",
  "The proposer and the next sync committee are selected by the seeded rejection sampling over the shuffled active validators with acceptance proportional to effective balance, duplicates being allowed only in the sync committee, and an empty active set is an error.",
  "every state, in every fork", ["phase0/helpers.rs", "altair/helpers.rs"], [("sampling", "sample_proposer_index, compute_proposer_index, get_next_sync_committee_indices")],
  "fork ALL compute_proposer_index sample_proposer_index get_beacon_proposer_index get_next_sync_committee_indices get_next_sync_committee")
p("H04", "Seeds, randomness and historical roots come from the right ring-buffer position",
  "The seed for an epoch and domain hashes the domain, epoch and the mix from the configured lookahead earlier, and block-root lookups return the entry for the requested slot only while it is inside the stored window, otherwise an error.",
  "every state, epoch and slot", ["phase0/helpers.rs"], [("lookups", "get_seed, get_randao_mix, get_block_root_at_slot, get_block_root")],
  "fork ALL get_seed get_randao_mix get_block_root get_block_root_at_slot")
p("H05", "Signing domains bind message, domain type, fork version and genesis root",
  "Every signing domain is the four-byte domain type followed by the leading bytes of the fork-data root for the fork version in force at the message epoch and the genesis validators root, every domain type has its protocol value, and every signing root commits to both the object root and the domain.",
  "every message, domain type and fork", ["domains.rs", "signing.rs", "phase0/helpers.rs"], [("domains", "DomainType, get_domain, compute_domain"), ("roots", "compute_signing_root, compute_fork_data_root")],
  "fork ALL get_domain compute_domain compute_fork_data_root compute_fork_digest\nfn lib domains *\nfn lib signing *\ntype lib domains *\ntype lib signing *\nfn lib builder *")
p("H06", "Epoch and slot arithmetic is exact, including genesis",
  "Conversion between slots, epochs and epoch start slots, the previous epoch (never before genesis), the activation-exit delay and the timestamp of a slot follow the configured constants for every value in range.",
  "every slot and epoch", ["phase0/helpers.rs", "bellatrix/helpers.rs"], [("arithmetic", "compute_epoch_at_slot, compute_start_slot_at_epoch, get_previous_epoch, compute_activation_exit_epoch, compute_timestamp_at_slot")],
  "fork ALL compute_epoch_at_slot compute_start_slot_at_epoch get_current_epoch get_previous_epoch compute_activation_exit_epoch compute_timestamp_at_slot")
p("H07", "Balance totals and updates are exact and never underflow",
  "The total balance of a set of validators is the sum of effective balances floored at one increment, the total active balance covers exactly the active set, increases add the amount and decreases saturate at zero for only the named validator.",
  "every state and validator set", ["phase0/helpers.rs"], [("balances", "get_total_balance, get_total_active_balance, increase_balance, decrease_balance")],
  "fork ALL get_total_balance get_total_active_balance increase_balance decrease_balance get_attesting_balance")
p("H08", "Validator predicates hold exactly on the specified epochs and credentials",
  "Whether a validator is active, eligible for activation, slashable, fully or partially withdrawable, or holds a credential type is decided exactly by the half-open epoch intervals, balances and credential prefixes of its fork.",
  "every validator record and epoch, in every fork", ["phase0/helpers.rs", "capella/helpers.rs", "electra/helpers.rs"], [("predicates", "is_active_validator and others")],
  "fork ALL is_active_validator is_eligible_for_activation_queue is_eligible_for_activation is_slashable_validator is_fully_withdrawable_validator is_partially_withdrawable_validator has_eth1_withdrawal_credential has_compounding_withdrawal_credential has_execution_withdrawal_credential is_compounding_withdrawal_credential get_active_validator_indices get_eligible_validator_indices add_flag has_flag")
