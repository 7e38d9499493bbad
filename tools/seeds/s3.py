B = "ethereum-consensus/src/"
VAL = "ethereum_consensus::phase0::Validator { exit_epoch: u64::MAX, withdrawable_epoch: u64::MAX, effective_balance: 32_000_000_000, ..Default::default() }"
RUSTC = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r -- "$t"' EXIT
sed "s|@REPO@|$repo|g" "$here/demo.rs.in" > "$t/demo.rs"
(cd "$t" && rustc --edition 2021 -A warnings -o demo demo.rs && ./demo)
'''
SEEDS = [
dict(ID="clock-slot-before-genesis", PROP="M01", NEEDS="a timestamp in whole seconds from before genesis",
 BREAKS="times before genesis are reported as slot 0 instead of as having no slot",
 EDITS=[(B+"clock.rs", """    timestamp: u64,
    genesis_time: u64,
    seconds_per_slot: u64,
) -> Option<Slot> {
    let delta = timestamp.checked_sub(genesis_time)?;""", """    timestamp: u64,
    genesis_time: u64,
    seconds_per_slot: u64,
) -> Option<Slot> {
    let delta = timestamp.saturating_sub(genesis_time);""")],
 DEMO="""//PRELUDE
use ethereum_consensus::clock::convert_timestamp_to_slot;
fn main() {
    for (t, slot) in [(0u64, None), (99, None), (100, Some(0u64)), (111, Some(0)), (112, Some(1))] { assert_eq!(convert_timestamp_to_slot(t, 100, 12), slot, "{t}"); }
}
"""),
dict(ID="hex-prefix-repeated", PROP="L02", NEEDS="a hex string with the prefix written twice",
 BREAKS="malformed hex strings with several prefixes are accepted and decode to shorter data",
 EDITS=[(B+"serde.rs", "s.strip_prefix(HEX_ENCODING_PREFIX).unwrap_or(s);", "s.trim_start_matches(HEX_ENCODING_PREFIX);")],
 DEMO='''//PRELUDE
use ethereum_consensus::serde::try_bytes_from_hex_str;
fn main() {
    assert_eq!(try_bytes_from_hex_str("0x0102").unwrap(), vec![1, 2]);
    assert_eq!(try_bytes_from_hex_str("0102").unwrap(), vec![1, 2]);
    assert!(try_bytes_from_hex_str("0x0x0102").is_err());
}
'''),
dict(ID="committee-split-by-width", PROP="H02", NEEDS="a committee count that does not divide the number of active validators",
 BREAKS="the validators left over by the even division sit in no committee",
 EDITS=[(B+"phase0/helpers.rs", "        let end = indices.len() * (index + 1) / count;", "        let end = start + indices.len() / count;")],
 DEMO='''//PRELUDE
use ethereum_consensus::phase0::helpers::compute_committee;
fn main() {
    let context = Context::for_minimal();
    for n in [12usize, 13, 17, 31] {
        let v: Vec<usize> = (0..n).map(|i| i * 3).collect();
        let seed = Bytes32::default();
        let mut all = vec![];
        for c in 0..4 { all.extend(compute_committee(&v, &seed, c, 4, &context).unwrap()); }
        all.sort();
        assert_eq!(all, v);
    }
}
'''),
dict(ID="slashable-at-withdrawable-epoch", PROP="H08", NEEDS="a validator whose withdrawable epoch is the current one",
 BREAKS="a validator can be slashed in the epoch in which its stake has become withdrawable",
 EDITS=[(B+"phase0/helpers.rs", "        epoch < validator.withdrawable_epoch\n}\n\npub fn is_slashable_attestation_data", "        !(validator.withdrawable_epoch < epoch)\n}\n\npub fn is_slashable_attestation_data")],
 DEMO='''//PRELUDE
use ethereum_consensus::phase0::helpers::is_slashable_validator;
fn main() {
    let mut v = VAL;
    v.activation_epoch = 3;
    v.withdrawable_epoch = 9;
    for e in 0..12u64 { assert_eq!(is_slashable_validator(&v, e), (3..9).contains(&e), "{e}"); }
}
'''.replace("VAL", VAL)),
dict(ID="inclusion-delay-latest-tie", PROP="E02", NEEDS="two attestations of the same validator with the same inclusion delay from different proposers",
 BREAKS="the proposer of a later attestation takes the inclusion reward of the first one",
 EDITS=[(B+"phase0/epoch_processing.rs", "            .min_by(|&a, &b| a.inclusion_delay.cmp(&b.inclusion_delay))", "            .max_by(|&a, &b| b.inclusion_delay.cmp(&a.inclusion_delay))")],
 DEMO='''//PRELUDE
use ethereum_consensus::{phase0::minimal as spec, phase0::helpers::get_beacon_committee, phase0::epoch_processing::get_inclusion_delay_deltas};
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    s.slot = context.slots_per_epoch * 2 - 1;
    for _ in 0..64 { let mut v = VAL; v.activation_epoch = 0; s.validators.push(v); s.balances.push(32_000_000_000); }
    let c = get_beacon_committee(&s, 3, 0, &context).unwrap();
    let outside: Vec<usize> = (0..64).filter(|i| !c.contains(i)).collect();
    for p in [outside[0], outside[1]] {
        let mut a = spec::PendingAttestation::default();
        a.data.slot = 3;
        a.aggregation_bits = ssz_rs::prelude::Bitlist::with_length(c.len());
        a.aggregation_bits.set(0, true);
        a.inclusion_delay = 2;
        a.proposer_index = p;
        s.previous_epoch_attestations.push(a);
    }
    let (r, _) = get_inclusion_delay_deltas(&s, &context).unwrap();
    assert!(r[outside[0]] > 0 && r[outside[1]] == 0, "{} {}", r[outside[0]], r[outside[1]]);
}
'''.replace("VAL", VAL)),
dict(ID="eth1-vote-half", PROP="B12", NEEDS="exactly half of the voting period's slots voting for the same data",
 BREAKS="half of the votes already replace the deposit contract data",
 EDITS=[(B+"phase0/block_processing.rs", "    if votes_count * 2 > context.epochs_per_eth1_voting_period * context.slots_per_epoch {", "    if votes_count > (context.epochs_per_eth1_voting_period * context.slots_per_epoch - 1) / 2 {")],
 DEMO='''//PRELUDE
use ethereum_consensus::{phase0::minimal as spec, phase0::block_processing::process_eth1_data};
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    let mut b = spec::BeaconBlockBody::default();
    b.eth1_data.deposit_count = 7;
    let n = context.epochs_per_eth1_voting_period * context.slots_per_epoch;
    for i in 1..=n {
        process_eth1_data(&mut s, &b, &context);
        assert_eq!(s.eth1_data.deposit_count == 7, i * 2 > n, "{i} of {n}");
    }
}
'''),
dict(ID="old-block-root-off-by-one", PROP="H04", NEEDS="the oldest block root still held, one full history before the state's slot",
 BREAKS="the oldest root in the history can no longer be read",
 EDITS=[(B+"phase0/helpers.rs", "    if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {", "    if slot >= state.slot || state.slot - slot >= SLOTS_PER_HISTORICAL_ROOT as Slot {")],
 DEMO='''//PRELUDE
use ethereum_consensus::{phase0::minimal as spec, phase0::helpers::get_block_root_at_slot};
fn main() {
    let mut s = spec::BeaconState::default();
    s.slot = 200;
    for slot in 0..210u64 { assert_eq!(get_block_root_at_slot(&s, slot).is_ok(), slot < 200 && slot + 64 >= 200, "{slot}"); }
}
'''),
dict(ID="upgrade-queue-by-index", PROP="T04", NEEDS="two validators awaiting activation at the electra fork, the later registered one having become eligible first",
 BREAKS="validators waiting at the fork are queued by index instead of by the epoch they became eligible",
 EDITS=[(B+"electra/fork.rs", "                Some((validator.activation_eligibility_epoch, index))", "                Some((index, validator.activation_eligibility_epoch))"),
        (B+"electra/fork.rs", "    for (_, index) in pre_activation_validators {", "    for (index, _) in pre_activation_validators {")],
 DEMO='''//PRELUDE
use ethereum_consensus::{deneb::minimal as deneb, electra::fork::upgrade_to_electra};
fn main() {
    let context = Context::for_minimal();
    let mut s = deneb::BeaconState::default();
    s.slot = context.slots_per_epoch * 4;
    for i in 0..8u64 {
        let mut v = VAL;
        v.activation_epoch = if i < 4 { 0 } else { u64::MAX };
        v.activation_eligibility_epoch = if i < 4 { 0 } else { 20 - i };
        if i == 0 { v.exit_epoch = 9; }
        s.validators.push(v);
        s.balances.push(32_000_000_000);
    }
    let e: ElectraState = upgrade_to_electra(&s, &context).unwrap();
    let q: Vec<usize> = e.pending_balance_deposits.iter().map(|d| d.index as usize).collect();
    assert_eq!(q, vec![7, 6, 5, 4]);
}
'''.replace("VAL", VAL)),
dict(ID="frame-length-wraps", PROP="X04", NEEDS="a payload of four gigabytes or more",
 BREAKS="the stored size wraps around, so unpacking returns only a fragment of the payload",
 EDITS=[(B+"bin/ec/blobs/framing.rs", "    let size = u32::try_from(data_byte_length).map_err(|_| Error::InvalidPayloadSize)?;\n", "    let size = data_byte_length as u32;\n")],
 SCRIPT=RUSTC, FILES={"demo.rs.in": '''mod blobs { #[derive(Debug)] pub enum Error { InvalidPayloadSize, ExpectedHeaderForSizedFraming, UnsupportedSizedFramingVersion } }
#[path = "@REPO@/ethereum-consensus/src/bin/ec/blobs/framing.rs"]
mod framing;
fn main() {
    for n in [0usize, 1, 131072, u32::MAX as usize] { assert!(framing::sized_header(n).is_ok()); }
    for n in [1usize << 32, (1 << 32) + 9] { assert!(framing::sized_header(n).is_err()); }
}
'''}, DEMO=""),
dict(ID="mnemonic-passphrase-trimmed", PROP="X01", NEEDS="a seed passphrase that starts or ends with a space",
 BREAKS="another seed, and so other keys, is derived than every other implementation of the standard derives",
 EDITS=[(B+"bin/ec/validator/mnemonic.rs", '    mnemonic.to_seed(passphrase.unwrap_or(""))', '    mnemonic.to_seed(passphrase.map(str::trim).unwrap_or_default())')],
 SCRIPT=RUSTC.replace('rustc --edition', 'mkdir bip39 rand_core && rustc --edition 2021 -A warnings --crate-type lib --crate-name bip39 "$here/bip39.rs" && rustc --edition 2021 -A warnings --crate-type lib --crate-name rand_core "$here/rand_core.rs" && rustc -L . --extern bip39=libbip39.rlib --extern rand_core=librand_core.rlib --edition'),
 FILES={"bip39.rs": '''#[derive(Debug)] pub struct Error;
pub struct Mnemonic(pub Vec<u8>);
impl Mnemonic {
    pub fn from_entropy(e: &[u8]) -> Result<Self, Error> { Ok(Self(e.to_vec())) }
    pub fn to_seed<T: AsRef<str>>(&self, p: T) -> [u8; 64] { let mut s = [0u8; 64]; for (i, b) in p.as_ref().bytes().enumerate() { s[i % 64] = s[i % 64].wrapping_mul(31).wrapping_add(b); } s }
}
impl std::str::FromStr for Mnemonic { type Err = Error; fn from_str(s: &str) -> Result<Self, Error> { Ok(Self(s.as_bytes().to_vec())) } }
''', "rand_core.rs": '''pub struct OsRng;
pub trait RngCore { fn fill_bytes(&mut self, b: &mut [u8]); }
impl RngCore for OsRng { fn fill_bytes(&mut self, b: &mut [u8]) { b.fill(7) } }
''', "demo.rs.in": '''#[path = "@REPO@/ethereum-consensus/src/bin/ec/validator/mnemonic.rs"]
mod mnemonic;
fn main() {
    for p in ["", "TREZOR", " a", "a ", " "] {
        let m = || mnemonic::recover_from_phrase("abandon").unwrap();
        assert_eq!(mnemonic::to_seed(m(), Some(p)), m().to_seed(p), "{p:?}");
    }
}
'''}, DEMO=""),
dict(ID="deneb-target-flag-in-window", PROP="B04", NEEDS="an attestation included more than one epoch after its slot in a deneb block",
 BREAKS="late deneb attestations are admitted but no longer count for the target vote",
 EDITS=[(B+"deneb/helpers.rs", "    if is_matching_target {\n        participation_flag_indices.push(TIMELY_TARGET_FLAG_INDEX);", "    if is_matching_target && inclusion_delay <= context.slots_per_epoch {\n        participation_flag_indices.push(TIMELY_TARGET_FLAG_INDEX);")],
 DEMO='''//PRELUDE
use ethereum_consensus::{deneb::minimal as spec, phase0::AttestationData, deneb::helpers::get_attestation_participation_flag_indices};
fn main() {
    let context = Context::for_minimal();
    let mut s = spec::BeaconState::default();
    s.slot = 30;
    let mut d = AttestationData::default();
    d.target.epoch = 2;
    d.slot = 16;
    for delay in [1u64, 2, 3, 8, 9, 14] {
        let f = get_attestation_participation_flag_indices(&s, &d, delay, &context).unwrap();
        assert!(f.contains(&1), "{delay}");
    }
}
'''),
]
