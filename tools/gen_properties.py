#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
MIN="src/minimal.rs";ST="src/status.rs";RD="src/reader.rs";MS="src/message.rs";AG="src/agreement.rs"
CO="src/complete.rs";WR="src/complete/writer.rs";SER="src/complete/serde/serializer.rs";DE="src/complete/serde/deserializer.rs"
EN="src/encryption/chacha20_poly1305_aead.rs"

p("C01","A negotiation completes only with the authenticated peer",
 "An endpoint completes its negotiation only after accepting a CONNECT message validly signed by one Ed25519 key and an ACK message validly signed by the same key whose challenge is the hash of this endpoint's own ephemeral public key; if the endpoint was created with an expected peer key, that key is the expected one. Whatever an active attacker who lacks the peer's private key injects, replays from other sessions, reflects, splices or alters, it cannot make an endpoint complete, deliver a CONNECT or ACK the key holder did not sign, or complete with itself. The CONNECT and the ACK that complete a negotiation come from one and the same session of the peer.",
 ["schedules","inputs","histories"],
 "every sequence of deliveries an attacker can make to the endpoints of up to three concurrent sessions, from all messages observed so far and those constructible with its own keys",
 "One test sends one man-in-the-middle CONNECT in one order; no test replays across sessions, reflects, splices signatures, forges ACKs or interleaves sessions.",
 [MIN,RD,"src/signature.rs",ST],
 [("verify expected key, signature and challenge before applying the action",MIN+" read_inner"),("Ed25519 verification","src/signature.rs verify_sig")],
 [("peer_sig_pubkey","key the peer is pinned to",MIN),("ack_msg_recv_too_early","ACK set aside until the peer key is known",MIN)],
 ["MinimalSecureLayer::read","SecureLayer::read_bin","try_clone succeeds only after completion"])
p("C02","Delivered user data is exactly what the peer wrote in this session",
 "Every user message an endpoint delivers is byte for byte a message that the peer wrote with its endpoint of the same session. Data that was altered, truncated, extended, spliced, sent in clear, encrypted under another session's key, taken from another session, or written by the receiving endpoint itself and reflected to it is never delivered.",
 ["inputs","histories","schedules"],
 "all single-byte and single-bit alterations, truncations, extensions and splices of real traffic, and all bounded sequences mixing genuine, foreign-session and reflected traffic, at every stage of the session",
 "Tests only deliver genuine messages; no altered or foreign ciphertext is ever read.",
 [MIN,RD,EN,"src/encryption.rs"],
 [("AEAD decryption then SHA-256 footer check",EN+" decrypt; "+MIN+" read_inner"),("clear user messages refused",RD+" check_encrypt_state")],
 [("encrypt_algo_with_secret","session key",MIN)],["read / read_bin results"])
p("C03","No user message is delivered twice",
 "Each user message written by a peer is delivered at most once by an endpoint, whatever duplication, replay or reordering the network applies and whether copies arrive before the negotiation has completed, while earlier messages are missing, or long after. A message number that was already received is refused even if it carries other content, for all 64-bit message numbers.",
 ["histories","schedules","inputs"],
 "all bounded delivery sequences with repetition over sets of message numbers, including numbers at 2^8, 2^16, 2^32, 2^63 and 2^64-1 boundaries, with every split between early and normal arrival",
 "One test re-reads one message right after its first delivery; another delivers four in one order without repetition.",
 [MIN],
 [("next expected nonce plus set of nonces received ahead of it",MIN+" read_inner")],
 [("next_nonce_expected","lowest nonce not yet received",MIN),("orphan_nonce_list","nonces received ahead",MIN),("tmp_stack_user_msgs","messages received before completion",MIN)],
 ["read, drain_tmp_stack_user_msgs, read_bin results"])
p("C04","Reordered user messages are all delivered, within a 10,000-message window",
 "User messages may arrive in any order: each genuine message is delivered intact on its first arrival (or on completion of the negotiation if it came earlier), as long as no more than 10,000 messages have been received ahead of the oldest missing one. Duplicates and other refused messages in between never make another message undeliverable. A message that would exceed the window is refused and fails the connection.",
 ["histories","schedules","inputs"],
 "all delivery orders of bounded message sets, with duplicates, before and after completion, and all fill/drain patterns around the window limit",
 "One order of four messages and one run that overruns the window are tested; early arrivals are tested with one message and no duplicates.",
 [MIN,"src/constants.rs"],
 [("orphan nonce list with limit MAX_ORPHAN_NONCES",MIN+" read_inner"),("temporary stack drained on completion",MIN+" drain_tmp_stack_user_msgs; "+CO+" read_bin")],
 [("orphan_nonce_list","nonces received ahead",MIN)],["read results"])
p("C05","Honest negotiation completes under every message order",
 "For two honest endpoints over a network that delivers every message once but in any order, every interleaving of local calls and deliveries ends with both endpoints having completed the negotiation under the same session key, without any call returning an error. Each CONNECT, ACK and user message is delivered exactly once with its custom data and the sender's public key intact. This holds whichever endpoints know their peer's key in advance and whichever ephemeral key is larger, in minimal and in complete mode.",
 ["schedules","configurations"],
 "all interleavings of the local calls and deliveries of a two-party session with user traffic, in every configuration of key knowledge, mode and key order",
 "Five hand-written orders out of the tens of thousands are tested; none has both endpoints ignorant of each other with crossing messages.",
 [ST,MIN,AG,CO],
 [("symmetric two-thread status machine",ST),("ACK and user messages received early are set aside",MIN),("salt is the larger ephemeral key",AG+" compute_shared_secret")],
 [("status","negotiation threads",ST)],["both endpoints' results"])
p("C06","Negotiation discipline: nothing happens out of sequence",
 "For every sequence of local calls and incoming messages, an endpoint emits at most one CONNECT and one ACK, the ACK only after it has accepted a valid CONNECT; accepts at most one CONNECT and one ACK, the ACK only after it has emitted its CONNECT. It emits or delivers user messages, and can be cloned, exactly when it has emitted CONNECT and ACK and accepted CONNECT and ACK without having failed; genuine user messages arriving after its ACK was sent but before the peer's ACK arrived are held back until then, and an ACK arriving before the peer key is known is held back until the CONNECT is accepted.",
 ["histories"],
 "all sequences of local calls and incoming messages up to a bounded depth, from the initial and every reachable state",
 "Tests walk a handful of sequences; the product of the two negotiation threads with failure, early ACK and early data is not covered.",
 [ST,MIN,CO],
 [("SecureLayerStatus::apply_action",ST)],[("status","Fail / OngoingNegotiation{local,remote} / NegotiationSuccessful",ST)],
 ["results of every public call"])
p("C07","A failed connection stays failed",
 "Once the connection has failed - data that is neither a recognisable clear message nor decryptable, a malformed or unsupported message, an out-of-sequence negotiation or user message, a user message written too early, an overrun of the reordering window, an unusable peer ephemeral key, or an output error - no later call ever delivers a message, emits a byte or succeeds in cloning. This holds whatever valid traffic and calls follow and whatever was pending when the failure occurred.",
 ["histories","fault_sequences"],
 "every reachable session stage x every cause of failure x all bounded continuations",
 "Only one test looks at the state after an error, directly after one kind of failure.",
 [ST,MIN,WR],[("Fail is absorbing in apply_action",ST)],[("status","Fail",ST)],["read/create/write/clone results and bytes in the writer"])
p("C08","Rejected messages leave no trace",
 "A CONNECT with an invalid signature or from another key than the pinned one, an ACK with a wrong challenge or (once the peer key is known) an invalid signature, a reflected copy of the endpoint's own CONNECT, and a duplicate of a user message are each refused with an error and change nothing. A forged ACK that is held back because the peer key is not known yet is dropped when the CONNECT arrives, which is delivered all the same. The rest of the session - what is accepted, from which key, what is delivered and emitted - is exactly what it would have been without them.",
 ["histories","inputs","schedules"],
 "every order of an honest session with rejected messages inserted at every position",
 "Tests stop at the error; none continues the session after a rejected message.",
 [MIN],[("verification precedes every state change",MIN+" read_inner")],
 [("peer_sig_pubkey","pinned key",MIN)],["results of all later calls"])
p("C09","No incoming bytes can crash an endpoint",
 "Whatever bytes are passed to an endpoint as incoming data, in whatever state it is - including data correctly signed or encrypted by a misbehaving peer - reading returns a result or an error and never panics, overflows or aborts. Nor does any later call on that endpoint panic because of what was read.",
 ["inputs","histories"],
 "all short byte strings; all truncations, extensions and single-byte changes of every message type; all length-field and type values with authentic signature or encryption; every session stage",
 "Tests read well-formed messages or one constant 4-byte garbage; slice and arithmetic bounds depend on attacker-chosen lengths.",
 [RD,EN,MIN,CO,DE,"src/format.rs"],[("length checks before slicing",RD),("errors instead of panics",DE)],[],["catch_unwind around every public call"])
p("C10","Wire format and key schedule are those documented",
 "Every message emitted is laid out as documented (magic value, version, length, type, type headers, custom data, then Ed25519 signature for CONNECT/ACK or SHA-256 hash for USER, big endian), USER messages being encrypted with ChaCha20-Poly1305 under the key, nonce and associated data derived from the X25519 secret with PBKDF2-HMAC-SHA384 salted by the larger ephemeral key, and numbered 0,1,2,.... An independent implementation of that format interoperates with an endpoint in every negotiation order and for every message size.",
 ["inputs","histories","configurations"],
 "all negotiation orders against an independent reference peer; all payload lengths up to a bound and around block and length-field boundaries; all custom-data presence combinations",
 "Tests run the implementation against itself, so a symmetric change of layout, numbering or key schedule passes.",
 [MS,RD,"src/constants.rs",AG,EN,"src/encryption.rs","src/seeds.rs"],
 [("MessageRef::to_bytes",MS),("PBKDF2 derivation",AG),("SecretKey::new split 32/12/4",EN)],[],["bytes returned by create_*_message and written by write_*"])
p("C11","A successful write emits the whole message, an output error fails the connection",
 "When writing a CONNECT, ACK or user message returns success, the complete message reaches the underlying output once the buffered writer is flushed, however the output splits, shortens or interrupts the individual writes and whatever the buffer capacity. When the output fails, the call returns an error and the connection fails: no later call emits anything.",
 ["fault_sequences","inputs","configurations"],
 "all placements of up to a bounded number of short writes, interruptions, zero-length writes and errors over the write calls of a session, for buffer capacities and message sizes around the buffering thresholds",
 "All tests write to in-memory vectors that accept everything at once.",
 [WR,MIN,EN],[("complete writes",WR+"; "+EN+" encrypt; "+MIN+" encrypt_and_write")],[],["bytes received by the inner writer"])
p("C12","Complete mode delivers any binary payload unchanged",
 "In complete mode any byte string sent as a user message, or as CONNECT or ACK custom data, is delivered identical to what was sent, absent custom data being delivered as absent and empty data as empty. This holds for every size, content, compression level and compression threshold, for any combination of configurations of the two endpoints, and when an endpoint changes its configuration in the middle of the session.",
 ["inputs","configurations","histories"],
 "all payload lengths up to a bound and around thresholds and block sizes, several content classes, all compression levels, thresholds around the payload length, all positions of a configuration change",
 "Tests send 4-byte payloads with the default configuration, so compression is never active.",
 [CO,"src/config.rs",MS],[("deflate around every payload",CO+" compress/uncompress")],[],["read_bin result vs written payload"])
p("C13","A clone continues the session",
 "An endpoint can be cloned exactly when its negotiation has completed, and the clone continues the session from that point: if one handle reads and the other writes (or either does both) the peer and the reader observe what they would with a single handle, including reordering and replay state and messages still pending. After cloning, neither handle can change the configuration or negotiate. No message number is used for two different messages of the session, through whichever handle they are written.",
 ["histories","schedules","configurations"],
 "every point of a session at which to clone x every assignment of later reads and writes to the handles x all bounded continuations",
 "Tests only check that try_clone returns Ok and that change_config is then refused; no clone is ever used.",
 [MIN,CO],[("try_clone copies key, counters, orphan list and pending messages",MIN+" try_clone")],[("cloned","configuration frozen",MIN)],["reads and writes through each handle"])
p("C14","User data and keys never travel in clear and keys are never reused",
 "No user message content, session key or private key ever appears in what an endpoint emits, in any history including failing ones. Every endpoint has a fresh ephemeral key and every session a distinct session key. Within a session no two different messages are encrypted with the same keystream.",
 ["histories","inputs","schedules"],
 "all bounded histories of one session and all pairs of sessions and messages in them",
 "Tests never look at the ciphertext, and freshness relates two sessions.",
 [EN,AG,MIN],[("encrypt before write",MIN+" encrypt_and_write"),("EphemeralKeyPair::generate",AG)],[],["bytes emitted"])
p("C15","Session keys are erased from released memory",
 "When an endpoint (original or clone, at any stage, completed or failed) is dropped, the heap memory it gives back no longer contains its session key material, and a dropped seed no longer contains its bytes. The same holds for all heap memory released by its calls during the session.",
 ["histories"],
 "drop at every point of every negotiation order, for originals and clones, in minimal and complete mode",
 "Tests cannot see released memory.",
 ["src/seeds.rs",EN,"src/encryption.rs",MIN],[("zeroize on drop","src/seeds.rs; "+EN+" SecretKey")],[],["instrumented global allocator of the harness"])
p("C16","Only exactly well-formed messages are accepted",
 "A message is accepted only if its magic value, version, message type, signature algorithm, length field and total length are all exactly those of a well-formed message and its encryption state fits its type (USER encrypted, CONNECT and ACK clear). Every deviation is refused even when signature, hash and encryption are otherwise genuine.",
 ["inputs"],
 "all 2^16 type values, all single-byte values of magic, version and signature algorithm, all length-field values up to a bound and at boundaries, all trailing and missing bytes, each with genuine signature or encryption, at each session stage where the well-formed message would be accepted",
 "Tests cover one bad version, one bad type, one bad algorithm at parser level, without genuine signatures.",
 [RD,MIN,"src/constants.rs"],[("header checks",RD+" read, read_type_headers")],[],["read result"])
p("C17","Typed messages round-trip in every format and bad ones are refused",
 "A value sent with the typed functions in JSON, CBOR or Bincode is delivered equal to what was sent, whatever format and configuration the receiving endpoint itself uses, as user message and as CONNECT or ACK custom data. A payload that is too short for a format tag, has an unknown, unsupported or raw/plain-text tag, or does not decode as the requested type yields an error, never a value or a panic; the connection remains usable for the following messages.",
 ["inputs","configurations","histories"],
 "all pairs of sender format and receiver configuration, bounded value domains, all tag values in the low byte and all single-byte changes of the tag, all short bodies",
 "Tests use one struct with equal formats at both ends and never send an undecodable payload.",
 [SER,DE,"src/format.rs"],[("4-byte format tag in band","src/format.rs"),("errors for unsupported formats",DE)],[],["SecureLayer::read / write results"])
p("C18","Sessions in one process do not influence each other",
 "Endpoints share no state: when several sessions run in one process, interleaved in any order, each one emits, delivers and refuses exactly what it would if it ran alone. Failure, cloning or dropping of one endpoint has no effect on the others.",
 ["schedules"],
 "all operation-level interleavings of two complete sessions, one of which may fail, be cloned or dropped at any point",
 "Every test runs one session at a time.",
 [MIN,AG,CO],[("all state is owned by the endpoint",MIN+" MinimalSecureLayer")],[],["transcripts of both sessions"])
p("C19","Refused local calls are harmless",
 "Creating a second CONNECT, creating an ACK before a valid CONNECT was received or a second time, cloning before completion, changing the configuration after cloning, and typed writes with an unsupported format or an unserialisable value are refused with an error and emit nothing. The session then continues exactly as if the call had not been made.",
 ["histories","schedules"],
 "every order of an honest session with refused calls inserted at every position",
 "Tests check that single refused calls return an error and stop there.",
 [ST,MIN,WR,SER],[("status untouched on refused create actions",ST),("serialisation before the status changes",SER)],[],["results of all later calls and bytes in the writer"])
p("C20","Messages are written with the configuration in force",
 "In complete mode a payload shorter than the configured compression threshold, or any payload at compression level none, travels uncompressed inside its message; every other one is compressed with the configured level. Typed messages are written in the configured format. A configuration change takes effect with the next write, in whatever state the negotiation is, and neither reading messages nor the peer's configuration changes it; a clone writes with the configuration the session had when it was cloned.",
 ["configurations","inputs","histories"],
 "all combinations of levels, thresholds around the size, formats, kinds of message, and all placements of configuration changes before the writes of a session, originals and clones",
 "Tests change the configuration once, before anything else, and never look at what is written afterwards.",
 [CO,MIN,SER,"src/config.rs"],[("compress chooses the level by size",CO+" compress"),("change_config replaces the configuration",MIN+" change_config")],[("config","configuration in force",MIN)],["bytes emitted, decrypted"])
p("C21","Retained memory stays bounded",
 "The memory an endpoint retains depends on what it must still remember – the numbers received ahead of a missing one, at most one early ACK, the messages held back until the ACK – and not on how much traffic it has seen: messages refused, delivered or written and calls refused, in any number and any state, leave no memory behind, and the content of delivered messages is not retained. Everything is released when the endpoint and its clones are dropped. Reading data takes memory in proportion to its length (apart from the decompression of genuine messages), whatever lengths it claims.",
 ["histories","inputs"],
 "in every stage of a session every cycle of up to the stated number of steps out of the full list of messages and calls, repeated; windows of every listed size; all kinds of data with every power of two as claimed length",
 "Tests exchange a dozen messages and never look at memory.",
 [MIN,RD,CO],[("numbers received ahead, held back messages, early ACK",MIN+" MinimalSecureLayer"),("buffers sized by the data received",RD+" read")],[("orphan_nonce_list","numbers received ahead",MIN)],["bytes live in the allocator"])
p("C22","Concurrent use of endpoints",
 "An endpoint and its clones can be used from several threads at the same time without synchronisation by the user, and so can different sessions: every message written gets a number of its own and can be read by the peer, every call gives what it gives when the operations run one after the other, and every call returns.",
 ["schedules"],
 "every pair of operations on two handles of a session, and on two sessions, one of them preempted by the other at every one of its machine instructions that touches memory other threads can see; for writing operations also every pair of preemptions",
 "Tests use threads only by accident of the test runner, and a race shows in one of thousands of runs.",
 [MIN,CO],[("the number of the next message, shared between clones",MIN+" encapsulate_and_encrypt_and_write_message"),("clones",MIN+" try_clone")],[("next_nonce_sent","next number, shared",MIN)],["memory"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
