# (id, title, statement, over, quantifier text, files, mechanisms[(name, where)], obligations)
EC = "ethereum-consensus/src/"
P = []
def p(id, title, st, q, files, mech, obl, over=("inputs", "histories")):
    P.append(dict(id=id, title=title, st=st, q=q, files=[EC + f if not f.startswith(("beacon-api", "spec-gen")) else f for f in files], mech=mech, obl=obl.strip().splitlines(), over=list(over)))

p("B01", "Voluntary exits are accepted exactly when allowed and queue one exit",
  "In every fork a signed voluntary exit is accepted only if the validator exists, is active, has not already initiated an exit, has served the minimum number of epochs since activation, the exit epoch has been reached, no partial withdrawal is pending (Electra), and its signature verifies under the fork's exit domain. An accepted exit schedules that validator's exit and withdrawable epochs at the end of the churn-limited exit queue and changes nothing else.",
  "every state, signed exit and fork", ["phase0/block_processing.rs", "deneb/block_processing.rs", "electra/block_processing.rs", "phase0/helpers.rs", "electra/helpers.rs"],
  [("acceptance conditions", "process_voluntary_exit"), ("exit queue", "initiate_validator_exit")],
  "fork ALL process_voluntary_exit initiate_validator_exit compute_exit_epoch_and_update_churn")
p("B02", "Proposer slashings require two distinct validly signed headers of one proposer",
  "A proposer slashing is accepted only if both headers have the same slot and proposer, differ, the proposer exists and is slashable at the current epoch, and both signatures verify under the proposer domain of the header's epoch. On acceptance exactly that proposer is slashed.",
  "every state and proposer slashing, in every fork", ["phase0/block_processing.rs", "phase0/helpers.rs"],
  [("acceptance conditions", "process_proposer_slashing"), ("penalty", "slash_validator")],
  "fork ALL process_proposer_slashing is_slashable_validator")
p("B03", "Attester slashings slash exactly the slashable validators in both attestations",
  "An attester slashing is accepted only if the two attestation data are a double or surround vote, both indexed attestations have non-empty sorted unique indices with valid aggregate signatures, and at least one common validator is slashable. On acceptance precisely the slashable validators contained in both are slashed.",
  "every state and attester slashing, in every fork", ["phase0/block_processing.rs", "phase0/helpers.rs"],
  [("acceptance conditions", "process_attester_slashing"), ("slashable data", "is_slashable_attestation_data"), ("indexed attestation", "is_valid_indexed_attestation")],
  "fork ALL process_attester_slashing is_slashable_attestation_data is_valid_indexed_attestation is_slashable_validator")
p("B04", "Attestations are included under the fork's window, source and committee rules",
  "An attestation is accepted only if its target epoch is current or previous and matches its slot, it lies in the fork's inclusion window, its committee(s) exist, its bitfield length equals the committee size(s), its source equals the justified checkpoint of that epoch and its aggregate signature verifies. Acceptance records exactly the earned participation (or pending attestation) for the attesting validators and pays the proposer the reward for newly set flags only.",
  "every state and attestation, in every fork", ["phase0/block_processing.rs", "altair/block_processing.rs", "altair/helpers.rs", "deneb/block_processing.rs", "deneb/helpers.rs", "electra/block_processing.rs", "electra/helpers.rs"],
  [("acceptance and rewards", "process_attestation"), ("timeliness flags", "get_attestation_participation_flag_indices"), ("attesting set", "get_attesting_indices")],
  "fork ALL process_attestation get_attestation_participation_flag_indices get_attesting_indices get_indexed_attestation get_committee_indices is_valid_indexed_attestation add_flag has_flag")
p("B05", "Deposits are proven, applied once in order, and bad signatures are ignored",
  "A deposit is accepted only if its Merkle branch proves it at the next deposit index under the known deposit root, and processing advances that index by one. A deposit for a known key tops it up; one for a new key with a valid deposit signature adds a fully initialised validator with all parallel per-validator lists extended; one for a new key with an invalid signature changes nothing else.",
  "every state and deposit, in every fork", ["phase0/block_processing.rs", "altair/block_processing.rs", "electra/block_processing.rs"],
  [("proof and index", "process_deposit"), ("registry effects", "apply_deposit"), ("new validator", "add_validator_to_registry, get_validator_from_deposit")],
  "fork ALL process_deposit apply_deposit add_validator_to_registry get_validator_from_deposit is_valid_deposit_signature")
p("B06", "Withdrawal credentials change only once, to the address signed by the BLS key",
  "A BLS-to-execution change is accepted only if the validator exists, still has BLS withdrawal credentials, the credentials commit to the supplied public key and the signature verifies under the genesis-fork domain. On acceptance the credentials become the execution-address form of exactly the signed address and nothing else changes.",
  "every state and signed change, Capella onward", ["capella/block_processing.rs", "capella/helpers.rs"],
  [("acceptance and effect", "process_bls_to_execution_change")],
  "fork ALL process_bls_to_execution_change")
p("B07", "Sync aggregates verify against the previous block and settle rewards exactly",
  "A sync aggregate is accepted only if its aggregate signature by the participating current committee members over the previous slot's block root verifies (with the empty-set infinity rule). Each participant gains, and each absent member loses, the participant reward, and the proposer gains the proposer share per participant, with balances never going below zero.",
  "every state and sync aggregate, Altair onward", ["altair/block_processing.rs", "crypto/bls.rs"],
  [("verification and rewards", "process_sync_aggregate"), ("aggregate check", "eth_fast_aggregate_verify")],
  "fork ALL process_sync_aggregate\nfn lib crypto::bls eth_fast_aggregate_verify fast_aggregate_verify")
p("B08", "Payloads are bound to parent, randomness, time, blob limit and engine verdict",
  "An execution payload is accepted only if its parent hash matches (once merged), its previous randomness equals the state's mix, its timestamp equals the slot's time, blob commitments do not exceed the limit (Deneb onward) and the execution engine reports the payload and block hash valid for the versioned hashes. On acceptance the stored header copies every field of that payload, with list roots, and pre-merge blocks without payload leave it untouched.",
  "every state, payload and engine verdict, Bellatrix onward", ["bellatrix/block_processing.rs", "bellatrix/helpers.rs", "capella/block_processing.rs", "deneb/block_processing.rs", "electra/block_processing.rs", "execution_engine.rs"],
  [("acceptance and header", "process_execution_payload"), ("merge predicates", "is_merge_transition_complete, is_execution_enabled"), ("engine", "ExecutionEngine")],
  "fork ALL process_execution_payload is_merge_transition_complete is_merge_transition_block is_execution_enabled compute_timestamp_at_slot kzg_commitment_to_versioned_hash\nfn lib execution_engine *\nfn lib *::execution_payload *")
p("B09", "Withdrawals are exactly the expected sweep and balances drop by those amounts",
  "A block's payload must carry exactly the withdrawals determined by the state: (Electra) due pending partial withdrawals first, then the bounded validator sweep of full and excess balances, with consecutive withdrawal indices and each entry naming the validator it pays. Processing deducts exactly those amounts, consumes exactly the pending entries used, and moves the withdrawal index and sweep cursor to continue without skipping or repeating.",
  "every state and withdrawal list, Capella onward", ["capella/block_processing.rs", "capella/helpers.rs", "electra/block_processing.rs", "electra/helpers.rs"],
  [("expected list", "get_expected_withdrawals"), ("application", "process_withdrawals"), ("predicates", "is_fully_withdrawable_validator, is_partially_withdrawable_validator")],
  "fork ALL get_expected_withdrawals process_withdrawals is_fully_withdrawable_validator is_partially_withdrawable_validator has_eth1_withdrawal_credential has_compounding_withdrawal_credential has_execution_withdrawal_credential get_validator_max_effective_balance is_compounding_withdrawal_credential")
p("B10", "Block headers must extend the chain by the expected unslashed proposer",
  "A block is accepted only if its slot equals the state's slot, is newer than the latest header, names the expected proposer, references the latest header's root and the proposer is not slashed. The stored header then carries the block's slot, proposer, parent and body root with a zero state root.",
  "every state and block, in every fork", ["phase0/block_processing.rs"], [("header checks", "process_block_header")],
  "fork ALL process_block_header get_beacon_proposer_index")
p("B11", "RANDAO reveals are verified and mixed into the current epoch's entry only",
  "A block's randomness reveal is accepted only if it is the proposer's valid signature over the current epoch under the RANDAO domain. Acceptance xors its hash into the current epoch's mix and changes no other mix.",
  "every state and reveal, in every fork", ["phase0/block_processing.rs"], [("verification and mixing", "process_randao")],
  "fork ALL process_randao get_randao_mix xor")
p("B12", "Eth1 data is adopted only with a strict majority of the voting period's slots",
  "Every block appends its eth1 vote, and the state's eth1 data changes only when equal votes exceed half of the slots in the voting period, in which case it becomes that vote.",
  "every vote history, in every fork", ["phase0/block_processing.rs"], [("voting", "process_eth1_data")],
  "fork ALL process_eth1_data")
p("B13", "Block operations are all applied in protocol order with the exact deposit count",
  "A block is rejected unless it carries exactly the expected number of deposits, and each fork's operation lists are all processed, each element once, in the protocol's order; any rejected operation rejects the block.",
  "every state and block body, in every fork", ["phase0/block_processing.rs", "capella/block_processing.rs", "electra/block_processing.rs"], [("operation loop", "process_operations")],
  "fork ALL process_operations")
p("B14", "Block processing runs every step of its fork in the specified order",
  "For every fork, processing a block performs header, withdrawal, payload, randomness, eth1, operations and sync-aggregate steps that the fork defines, each exactly once and in the order the protocol fixes, and fails if any step fails.",
  "every state and block, in every fork", ["phase0/block_processing.rs", "altair/block_processing.rs", "bellatrix/block_processing.rs", "capella/block_processing.rs", "deneb/block_processing.rs"], [("step sequence", "process_block")],
  "fork ALL process_block")
p("B15", "Execution-layer requests and deposit receipts have exactly the specified effect",
  "A withdrawal request takes effect only for an existing validator with matching execution credentials that is active, not exiting and old enough: a full exit when requested and nothing is pending, or a queued partial withdrawal bounded by the excess balance; otherwise it is ignored. A deposit receipt records the first receipt index and then applies its deposit.",
  "every state and request, Electra", ["electra/block_processing.rs", "electra/helpers.rs"], [("requests", "process_execution_layer_withdrawal_request"), ("receipts", "process_deposit_receipt")],
  "fork electra process_execution_layer_withdrawal_request process_deposit_receipt get_pending_balance_to_withdraw compute_exit_epoch_and_update_churn apply_deposit switch_to_compounding_validator queue_excess_active_balance queue_entire_balance_and_reset_validator")
p("B16", "Consolidations only join eligible validators with matching withdrawal addresses",
  "A consolidation is accepted only with queue space, sufficient consolidation churn, distinct existing active non-exiting validators, reached epoch, execution credentials with the same address on both and a signature by both keys. Acceptance sets the source's exit and withdrawable epochs from the consolidation churn queue and enqueues exactly one pending consolidation.",
  "every state and consolidation, Electra", ["electra/block_processing.rs", "electra/helpers.rs"], [("acceptance and effect", "process_consolidation"), ("queue", "compute_consolidation_epoch_and_update_churn")],
  "fork electra process_consolidation compute_consolidation_epoch_and_update_churn get_consolidation_churn_limit has_execution_withdrawal_credential")
p("B17", "Churn limits and churn queues meter exits, activations and consolidations",
  "The per-epoch churn follows the fork's formula from active validators or active balance with its minimum and caps, and every use of balance churn advances the earliest epoch and remaining budget exactly as needed so that no epoch exceeds its limit.",
  "every registry and request sequence, in every fork", ["phase0/helpers.rs", "deneb/helpers.rs", "electra/helpers.rs"], [("limits", "get_validator_churn_limit, get_validator_activation_churn_limit, get_balance_churn_limit"), ("queues", "compute_exit_epoch_and_update_churn")],
  "fork ALL get_validator_churn_limit get_validator_activation_churn_limit get_balance_churn_limit get_activation_exit_churn_limit get_consolidation_churn_limit compute_exit_epoch_and_update_churn compute_consolidation_epoch_and_update_churn initiate_validator_exit compute_activation_exit_epoch")
p("S01", "Slashing applies every immediate consequence and pays the right parties",
  "Slashing a validator initiates its exit, marks it slashed, extends its withdrawable epoch by the slashing window, adds its effective balance to the current slashing total, deducts the fork's immediate penalty and splits the whistleblower reward between proposer and whistleblower in the fork's proportions.",
  "every state, offender and whistleblower, in every fork", ["phase0/helpers.rs", "altair/helpers.rs", "bellatrix/helpers.rs", "electra/helpers.rs"], [("slashing", "slash_validator")],
  "fork ALL slash_validator increase_balance decrease_balance")
