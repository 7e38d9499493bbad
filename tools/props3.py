from props1 import p, P
BOTH=("inputs",)
p("C01", "BLS verification accepts only real signatures by valid keys",
  "Single, aggregate and fast-aggregate verification accept only when the pairing check passes for the given message under the protocol's ciphersuite with group and infinity validation of every key and signature, and reject empty key sets; the sync-committee variant alone also accepts the infinity signature for the empty set. Aggregation and hashing combine exactly all supplied inputs.",
  "every key, signature and message", ["crypto/bls.rs", "crypto/mod.rs"], [("verification", "verify_signature, aggregate_verify, fast_aggregate_verify, eth_fast_aggregate_verify"), ("aggregation", "aggregate, eth_aggregate_public_keys")],
  "fn lib crypto::bls *\nconst lib crypto::bls *\ntype lib crypto::bls *")
p("C02", "Key and signature encodings round-trip and secret keys stay secret",
  "Public keys, signatures and secret keys parse only from their exact length, serialise back to the same bytes, compare and hash by those bytes, and a secret key's debug output reveals nothing unless explicitly enabled at build time.",
  "every byte string", ["crypto/bls.rs"], [("encodings", "SecretKey, PublicKey, Signature conversions")],
  "fn lib crypto::bls *SecretKey* *PublicKey* *Signature*\ntype lib crypto::bls *")
p("C03", "Blob commitments and proofs are checked with the right arguments and errors",
  "Computing and verifying blob commitments and proofs, singly or in batches, passes exactly the given blob, commitment, point and proof to the trusted setup and succeeds only when that verification does; versioned hashes carry the version byte followed by the hash of the commitment.",
  "every blob, commitment and proof", ["crypto/kzg.rs", "deneb/helpers.rs"], [("wrappers", "crypto::kzg functions"), ("versioned hash", "kzg_commitment_to_versioned_hash")],
  "fn lib crypto::kzg *\ntype lib crypto::kzg *\nconst lib crypto::kzg *\nfork ALL kzg_commitment_to_versioned_hash\nconst lib deneb::* *VERSION*")
p("C04", "A blob sidecar is accepted only with a proof of inclusion in its signed header",
  "A blob sidecar's inclusion check succeeds only if the Merkle branch proves its commitment at the position given by its blob index under the body root of its signed block header.",
  "every sidecar", ["deneb/blob_sidecar.rs"], [("inclusion", "verify_blob_sidecar_inclusion_proof")],
  "fork ALL verify_blob_sidecar_inclusion_proof\nfn lib deneb::blob_sidecar *\ntype lib deneb::blob_sidecar *")
p("K01", "Preset parameters equal the protocol's mainnet and minimal values in every fork",
  "Every compile-time and runtime preset value of each fork equals the published mainnet or minimal value, and the container type aliases of a preset are instantiated with that preset's values in the right positions.",
  "every preset, fork and parameter", ["phase0/presets/mainnet.rs", "altair/presets/mainnet.rs", "bellatrix/presets/mainnet.rs", "capella/presets/mainnet.rs", "deneb/presets/mainnet.rs", "electra/presets/mainnet.rs", "types/presets/mainnet.rs", "state_transition/presets/mainnet.rs"], [("presets", "presets modules")],
  "const lib *::presets::* *\ntype lib *::presets* *", over=("configurations",))
p("K02", "Network configurations equal the published values of each supported network",
  "For mainnet, minimal, Goerli, Sepolia, Holesky and Hoodi every configuration value (fork versions and epochs, genesis, timing, churn, deposit contract, total difficulty) equals the network's published value, and named networks are recognised by exactly their names.",
  "every network and parameter", ["configs/mainnet.rs", "configs/minimal.rs", "configs/goerli.rs", "configs/sepolia.rs", "configs/holesky.rs", "configs/hoodi.rs", "configs/mod.rs", "networks.rs"], [("configurations", "configs modules"), ("names", "Network")],
  "const lib configs::* *\nfn lib configs::* *\ntype lib configs *\nfn lib networks *\ntype lib networks *", over=("configurations",))
p("K03", "The runtime context takes each parameter from its own preset or config field",
  "A context built for any network or from a configuration file holds each parameter from the matching preset or configuration entry with no field swapped, defaulted or taken from another fork, and reports genesis time and clock from those values.",
  "every configuration", ["state_transition/context.rs"], [("wiring", "Context constructors")],
  "fn lib state_transition::context *\ntype lib state_transition::context *", over=("configurations",))
p("K04", "Slots map to the fork in force and forks to their versions",
  "For every slot the reported fork is the latest one whose activation epoch has been reached, each fork maps to its configured version, forks are ordered by activation and print as their names, and fork digests commit to version and genesis root.",
  "every slot and fork schedule", ["state_transition/context.rs", "fork.rs", "phase0/helpers.rs"], [("schedule", "fork_for, fork_version_for"), ("order", "Fork")],
  "fn lib state_transition::context Context::fork* \nfn lib fork *\ntype lib fork *\nfork ALL compute_fork_digest compute_fork_data_root", over=("inputs", "configurations"))
p("K05", "Protocol constants outside the presets equal the specification",
  "Every protocol constant (epochs, weights, flags, prefixes, subnets, request limits, generalized indices, version bytes) in each fork has the value fixed by the specification.",
  "every constant", ["phase0/constants.rs", "altair/constants.rs", "primitives.rs", "phase0/networking.rs", "deneb/networking.rs", "altair/light_client.rs"], [("constants", "module constants")],
  "const lib * *", over=("configurations",))
p("L01", "Container layouts match the specification field for field",
  "Every consensus container of every fork has exactly the specified fields, in order, with the specified types and list bounds, so that encodings and tree roots agree with other clients.",
  "every container in every fork", ["phase0/beacon_state.rs", "phase0/operations.rs", "altair/beacon_state.rs", "capella/beacon_state.rs", "deneb/execution_payload.rs", "electra/beacon_state.rs", "electra/operations.rs"], [("layouts", "struct declarations")],
  "\n".join(f"type lib {k}* *" for k in ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]) + "\ntype lib primitives *\ntype lib builder *\ncustom exports lib", over=("inputs", "programs"))
p("L02", "JSON encodings use hex for bytes and decimal strings for integers, both ways",
  "Byte values are written as lowercase 0x-prefixed hex and parsed only from 0x-prefixed hex of the right length, integers are written as and parsed from decimal strings, sequences of integers likewise element by element, and malformed input is an error, never a panic or a wrong value.",
  "every value and input string", ["serde.rs", "ssz/byte_list.rs", "ssz/byte_vector.rs"], [("codecs", "serde module"), ("byte collections", "ByteList, ByteVector")],
  "fn lib serde *\nfn lib serde::* *\nfn lib ssz::* *\ntype lib ssz::* *\nconst lib serde *")
p("L03", "Fixed and bounded byte collections enforce their length and compare by content",
  "A fixed-length byte vector is built only from exactly that many bytes and a bounded byte list only from at most its bound; construction, dereferencing, formatting and encoding preserve the bytes.",
  "every byte string", ["ssz/byte_list.rs", "ssz/byte_vector.rs"], [("bounds", "ByteList, ByteVector")],
  "fn lib ssz::* *\ntype lib ssz::* *")
p("L04", "Fork-agnostic containers expose exactly the wrapped fork's fields",
  "Every accessor of a fork-agnostic block, body, state, payload or header returns the same-named field of whichever fork it wraps, optional accessors return nothing exactly for forks without that field, and version and per-fork views report the wrapped fork.",
  "every wrapper value, accessor and fork", ["types/beacon_block.rs", "types/beacon_block_body.rs", "types/beacon_state.rs", "types/blinded_beacon_block.rs", "types/blinded_beacon_block_body.rs", "types/execution_payload.rs", "types/execution_payload_header.rs", "types/signed_beacon_block.rs", "types/signed_blinded_beacon_block.rs"], [("dispatch", "types modules")],
  "fn lib types::beacon_block *\nfn lib types::beacon_block_body *\nfn lib types::beacon_state *\nfn lib types::blinded_beacon_block *\nfn lib types::blinded_beacon_block_body *\nfn lib types::execution_payload *\nfn lib types::execution_payload_header *\nfn lib types::signed_beacon_block *\nfn lib types::signed_blinded_beacon_block *\ntype lib types::* *")
p("L05", "Decoding a fork-agnostic container picks the newest fork that fits the data",
  "Deserialising a fork-agnostic block, body, state, payload or header tries the forks from newest to oldest and yields the first one whose schema matches, and serialises as the wrapped fork's plain encoding.",
  "every encoded value", ["types/beacon_block.rs", "types/beacon_state.rs"], [("decoding", "Deserialize implementations")],
  "fn lib types::* *deserialize* *Deserialize*\ntype lib types::* *")
p("L06", "Payload headers copy every payload field when derived from a payload",
  "Converting an execution payload to its header in any fork copies every shared field unchanged and replaces each list by its root.",
  "every payload, Bellatrix onward", ["bellatrix/execution_payload.rs", "capella/execution_payload.rs", "deneb/execution_payload.rs", "electra/execution_payload.rs"], [("conversion", "TryFrom for ExecutionPayloadHeader")],
  "fn lib bellatrix::execution_payload *\nfn lib capella::execution_payload *\nfn lib deneb::execution_payload *\nfn lib electra::execution_payload *")
p("L07", "Peer identifiers and endpoints parse and print losslessly",
  "Peer identifiers are accepted only as the supported multihash forms, print and serialise as base58 text that parses back to the same identifier, and invalid encodings are errors.",
  "every byte string and text", ["networking.rs"], [("peer id", "PeerId")],
  "fn lib networking *\ntype lib networking *\nconst lib networking *")
p("M01", "The slot clock maps times to slots exactly and never ticks before genesis",
  "For every time, genesis and slot duration the current slot is the number of whole slot durations since genesis and absent before genesis, slot start times invert that mapping, waiting durations are the exact remaining time (zero when past), and the slot stream yields consecutive slots no earlier than their start.",
  "every time, genesis and polling schedule", ["clock.rs"], [("conversion", "convert_timestamp_nanos_to_slot and inverse"), ("stream", "SlotStream")],
  "fn lib clock *\ntype lib clock *\nconst lib clock *", over=("inputs", "schedules"))
p("G01", "Generated fork modules agree with the hand-written source they derive from",
  "For every fork, each inherited function in the generated code behaves exactly like the newest hand-written definition at or before that fork, with all of its callees resolved the same way, and every generated container equals the newest definition.",
  "every generated item in every fork", ["altair/spec/mod.rs", "bellatrix/spec/mod.rs", "capella/spec/mod.rs", "deneb/spec/mod.rs", "electra/spec/mod.rs"], [("generated modules", "spec modules")],
  "fork ALL *\ncustom exports lib", over=("programs", "inputs"))
p("G02", "The code generator orders forks, overrides and fields deterministically",
  "The generator composes each fork from its predecessors in fork order, letting a newer definition replace an older one of the same name, keeping inherited items whose signature types are unchanged or re-instantiated, dropping deleted fields, and emitting every polymorphic accessor for exactly the forks that define the field.",
  "every fork sequence and source item", ["spec-gen/src/generator.rs", "spec-gen/src/type_generator.rs", "spec-gen/src/visitors.rs"], [("composition", "generator, type_generator, visitors")],
  "fn gen generator *\nfn gen type_generator *\nfn gen visitors *\nfn gen . *\ntype gen * *\nconst gen * *", over=("programs",))
p("A01", "Every API call uses the specified method, path, query and body",
  "Each beacon API client method issues the HTTP method, path, query parameters and body of the standard endpoint it is named for, with its arguments in the right positions, and returns the data field of the response.",
  "every endpoint and argument", ["beacon-api-client/src/api_client.rs"], [("endpoints", "Client methods")],
  "fn api api_client *\ntype api api_client *\nfn api . *")
p("A02", "API identifiers and values encode to and from their standard text forms",
  "State, block and validator identifiers, statuses, topics and every request or response value print and parse as the standard strings and field names, and unknown text is rejected.",
  "every identifier, value and input text", ["beacon-api-client/src/types.rs", "beacon-api-client/src/serde.rs", "beacon-api-client/src/lib.rs"], [("identifiers", "types")],
  "fn api types *\ntype api types *\nfn api serde::* *\nfn api . *")
p("A03", "API failures surface as errors carrying the server's code and message",
  "A non-success response is never returned as data: it becomes an error with the server's status code and message (or the transport error), indexed failures keep every entry, and success bodies are decoded as the expected type.",
  "every response", ["beacon-api-client/src/api_client.rs", "beacon-api-client/src/api_error.rs", "beacon-api-client/src/lib.rs"], [("errors", "api_error, ApiResult")],
  "fn api api_error *\ntype api api_error *\nfn api . *\nfn api api_client api_error_or_ok api_error_or_value *get* *post* *http*")
p("X01", "Mnemonics generate and recover seeds exactly per the word-list standard",
  "A generated phrase has the configured word count, a supplied phrase is accepted only if valid, and the seed is the standard derivation from exactly that phrase and passphrase.",
  "every phrase and passphrase", ["bin/ec/validator/mnemonic.rs"], [("mnemonics", "mnemonic module")],
  "fn ec validator::mnemonic *\ntype ec validator::mnemonic *\nconst ec validator::mnemonic *")
p("X02", "Validator keys follow the hierarchical BLS derivation and standard paths",
  "Derived keys follow the standard hash-and-reduce derivation (salts, info strings, complemented input, 255 chunks, big-endian index), and each validator index in the requested range yields the signing and withdrawal keys of its standard paths with matching public keys.",
  "every seed and index range", ["bin/ec/validator/keys.rs"], [("derivation", "keys module")],
  "fn ec validator::keys *\ntype ec validator::keys *\nconst ec validator::keys *")
p("X03", "Keystores encrypt with the passphrase-derived key and a matching checksum",
  "A keystore's ciphertext is the secret under the first half of the passphrase-derived key, its checksum hashes the second half with the ciphertext, recorded parameters equal those used, and each keystore describes its own key pair and path.",
  "every key pair and passphrase", ["bin/ec/validator/keystores.rs"], [("keystores", "keystores module")],
  "fn ec validator::keystores *\ntype ec validator::keystores *\nconst ec validator::keystores *")
p("X04", "Packing data into blobs and unpacking it loses nothing",
  "Any byte stream is packed into field elements and blobs without dropping or altering a bit, the sized framing records the exact payload length, and unpacking returns exactly the payload or rejects malformed framing.",
  "every byte stream and framing mode", ["bin/ec/blobs/encode.rs", "bin/ec/blobs/decode.rs", "bin/ec/blobs/framing.rs"], [("packing", "encode, decode, framing")],
  "fn ec blobs::encode *\nfn ec blobs::decode *\nfn ec blobs::framing *\nconst ec blobs* *\ntype ec blobs* *")
p("X05", "Command-line tools bundle blobs and dispatch to the requested operation",
  "Bundling computes for every blob, in order, its commitment and its proof against that commitment, and each command runs the requested operation with its own arguments and writes its result.",
  "every blob list and command", ["bin/ec/blobs/bundler.rs", "bin/ec/blobs/command.rs", "bin/ec/validator/mod.rs", "bin/ec/main.rs", "bin/ec/bls.rs"], [("commands", "bundler, command modules")],
  "fn ec blobs::bundler *\nfn ec blobs::command *\nfn ec validator *\nfn ec . *\nfn ec bls *\nconst ec bls *")
