"""Properties static analysis does not decide here, and technique overrides."""
EC = "ethereum-consensus/src/"
def n(id, title, st, q, files, mech, reason, over=("inputs",)):
    return dict(id=id, title=title, st=st, q=q, files=files, mech=mech, reason=reason, over=list(over))
NA = [
 n("N01", "No accepted input makes state transition panic or overflow",
   "Processing any block, slot or operation on any reachable state returns success or an error and never panics or wraps an integer.",
   "every reachable state and input", [EC + "phase0/block_processing.rs", EC + "phase0/helpers.rs", EC + "electra/block_processing.rs"],
   [("unchecked arithmetic and indexing", "every + - * and index in the fork modules")],
   "Needs invariants bounding balances, epochs and list lengths over whole histories (the code relies on total supply fitting 64 bits); no sound static bound in reach proves the unchecked arithmetic, and alarms on every unproved operation would be false."),
 n("N02", "Serialisation round-trips and tree roots match for every container value",
   "Encoding any container value and decoding it gives the value back, and its tree root equals the specified Merkleisation.",
   "every value of every container", [EC + "ssz/mod.rs"], [("derives", "external ssz_rs derives on each container")],
   "The encoder and hasher live in the external ssz_rs crate, absent from this sandbox; only the declarations they are derived from are source here, and L01 decides those."),
 n("N03", "BLS and KZG primitives are cryptographically sound",
   "No adversary without the secret key produces an accepted signature, and no wrong blob passes proof verification.",
   "every adversarial input", [EC + "crypto/bls.rs", EC + "crypto/kzg.rs"], [("primitive calls", "blst and c-kzg bindings")],
   "Rests on external C libraries and hardness assumptions; C01 and C03 decide how the code calls them."),
 n("N04", "Block and epoch processing finish within bounded time and memory",
   "Applying one block or epoch takes time linear in validators and operations.",
   "every state size", [EC + "phase0/epoch_processing.rs"], [("nested loops", "reward and committee computations")],
   "A quantitative resource bound over runtime sizes; the value-graph analysis abstracts from cost and the existing code has no stated bound to check."),
 n("N05", "Batch and single-index shuffling give the same permutation",
   "For every seed and list length the batch shuffle places each element where the single-index function says.",
   "every seed, length and index", [EC + "phase0/helpers.rs"], [("two algorithms", "compute_shuffled_index and compute_shuffled_indices")],
   "Relating the two loops needs an inductive numeric argument about hash bit positions (a prover's task); H01 decides each against its own specification."),
 n("N06", "Keystores interoperate with other clients' implementations",
   "Any keystore written here is opened by other clients and the reverse.",
   "every passphrase and key", [EC + "bin/ec/validator/keystores.rs"], [("cipher parameters", "AES counter mode")],
   "Depends on cipher, key-derivation and JSON crates that are not in the sandbox and on foreign implementations; X03 decides which primitives are applied to what."),
 n("N07", "The API client tolerates slow, failing or malicious servers",
   "Timeouts, partial responses and oversized bodies never hang or crash the client.",
   "every server behaviour", ["beacon-api-client/src/api_client.rs"], [("transport", "reqwest client")],
   "Transport behaviour belongs to external crates at run time; A01 and A03 decide the requests built and how outcomes are mapped.", over=("fault_sequences",)),
 n("N08", "Command-line file outputs survive crashes without torn files",
   "A crash while writing keystores or generated sources leaves either the old or the new file.",
   "every crash point", [EC + "bin/ec/validator/keystores.rs", "spec-gen/src/main.rs"], [("file writes", "std::fs writes")],
   "The code does not attempt atomic writes, so there is no guarantee to check.", over=("crash_points",)),
 n("N09", "Signed messages are never slashable across a validator's history",
   "No sequence of calls makes a validator sign two conflicting messages.",
   "every call history", [EC + "signing.rs"], [("signing", "sign_with_domain")],
   "The repository keeps no signing history or slashing database; callers own this guarantee.", over=("histories",)),
]
TECH = {}
