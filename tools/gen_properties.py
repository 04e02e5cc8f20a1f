#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays valid JSON)."""
import json, os

P = []

def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "The OPRF computes the RFC 9497 function for every input",
  "For every input string (0 to 65535 bytes), every private key and every blinding, running blind, evaluate, unblind and finalize returns success and the 64-byte output that RFC 9497 OPRF(ristretto255, SHA-512) base mode defines for that input and key. The intermediate blinded element, evaluated element and unblinded element equal the values RFC 9497 defines for the blind that was returned, and the message-expansion and hash-to-group helpers equal RFC 9380 for every message, tag and output length they accept.",
  ["inputs"], "all input lengths 0..65535 and contents, all keys, all blinding scalars, all expansion output and tag lengths",
  "Two fixed vectors (1-byte and 17-byte inputs, fixed key and blind) are compared; lengths beyond one hash block, the uint8/uint16 boundary lengths and random keys are never compared against an independent implementation.",
  ["src/oprf.c", "src/oprf.h"],
  [("length-prefixed transcript hash", "src/oprf.c oprf_Finalize"), ("expand_message_xmd with unrolled loop", "src/oprf.c expand_message_xmd"),
   ("hash to group", "src/oprf.c voprf_hash_to_group"), ("scalar inversion unblinding", "src/oprf.c oprf_Unblind")],
  ["return codes and output buffers of the five OPRF calls"])

p("C02", "Encodings that are not valid group elements are refused everywhere",
  "Every call that receives a group element from another party returns an error when the 32 bytes are not the canonical encoding of a ristretto255 element, or are the identity where a scalar multiplication is required. No such call reports success for a value built from an invalid element, whatever its position among the supplied elements.",
  ["inputs"], "all 2^256 encodings per element (non-canonical field elements, negative elements, off-curve values, identity), at every position of every list of every size",
  "No existing test passes an invalid element to any call.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c"],
  [("validity check in unblind", "src/oprf.c oprf_Unblind"), ("scalar multiplication result check", "src/oprf.c oprf_Evaluate; src/toprf.c toprf_thresholdmult, toprf_3hashtdh"),
   ("addition result check", "src/toprf.c toprf_thresholdcombine"), ("commitment validity", "src/dkg.c dkg_verify_commitment")],
  ["return codes of evaluate, unblind, threshold and commitment calls"])

p("C03", "Every secret the library generates is fresh and uniform",
  "Each private key, blinding scalar, sharing polynomial coefficient, session identifier, signing key and channel key produced by the library is derived from random bytes that were drawn for that value alone during that call. No two such values ever coincide, none is zero, and none is a function of a previously generated one.",
  ["histories", "inputs"], "all sequences of calls, all parameters (n,t), all outputs of the random source",
  "Tests only look at whether the results verify; a reused, constant or correlated random value still verifies, and the DKG unit test replaces the generator altogether.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c", "src/tp-dkg.c", "src/noise_xk/src/XK.c"],
  [("blinding scalar", "src/oprf.c oprf_Blind"), ("polynomial coefficients", "src/toprf.c toprf_create_shares; src/dkg.c dkg_start"),
   ("session id and ephemeral keys", "src/tp-dkg.c tpdkg_start_tp, peer_step23_handler"), ("ephemeral keys", "src/noise_xk/src/XK.c session creation")],
  ["bytes delivered by the random source versus the values that appear in outputs"])

p("C04", "Any t shares, in any order, evaluate like the undivided key",
  "For every n up to 255 and 1<=t<=n, the n shares of a secret lie on one polynomial of degree t-1 whose value at zero is the secret and carry the indexes 1..n. Combining the partial evaluations of any t or more distinct shareholders in any order, through either of the two combination methods, yields exactly the element that the undivided key yields, and combining fewer than t does not.",
  ["inputs", "configurations"], "all (n,t), all secrets, all subsets of at least t shareholders, all orders, all group elements",
  "The tests use n=5,t=3 (or n=3,t=2), one subset in ascending order and never fewer than t shares.",
  ["src/toprf.c", "src/toprf.h", "src/dkg.c"],
  [("Lagrange coefficient", "src/toprf.c coeff"), ("sorting by index", "src/toprf.c sort_parts"), ("combination in the exponent", "src/toprf.c toprf_thresholdmult, toprf_Evaluate, toprf_thresholdcombine"),
   ("scalar reconstruction", "src/dkg.c dkg_reconstruct")],
  ["shares, partial results, combined results"])

p("C05", "3HashTDH equals plain evaluation and binds the sub-session id",
  "For every sharing of a key and every sharing of zero, the combined 3HashTDH responses of at least t servers that use the same sub-session identifier and blinded element equal the plain evaluation with the undivided key. If any participating server uses another identifier, another blinded element or shares of something other than zero, the combined result differs from it; each single response equals the published definition of the function for all identifier lengths.",
  ["inputs", "configurations"], "all (n,t), subsets, orders, identifiers of length 0..65535, blinded elements",
  "One run with n=5,t=3 and a short identifier; disagreeing identifiers and long identifiers are never tried.",
  ["src/toprf.c"], [("hash of identifier and blinded element", "src/toprf.c toprf_3hashtdh"), ("combination", "src/toprf.c toprf_thresholdmult")],
  ["responses and the combined element"])

p("C06", "An honest DKG yields one consistent shared key",
  "For every n up to 255 and 1<=t<=n, when all dealers are honest every participant's verification accepts every dealer with an empty failure list. The final shares lie on one polynomial of degree t-1, so any t of them reconstruct the same secret, and that secret's public value is the sum of the dealers' first commitments.",
  ["inputs", "configurations"], "all (n,t) including the limits of the 8-bit counters, all random coefficients, all t-subsets",
  "One configuration (n=5, t=3) with a fixed generator; consistency with the commitments is not examined.",
  ["src/dkg.c", "src/dkg.h"], [("dealing", "src/dkg.c dkg_start, polynom"), ("verification", "src/dkg.c dkg_verify_commitments"), ("summation", "src/dkg.c dkg_finish")],
  ["commitments, shares, failure lists and final shares"])

p("C07", "DKG verification names exactly the dealers that cheated",
  "Whatever shares and commitments up to all other dealers send, the verification reports failure and lists precisely those dealers whose share is not the evaluation of the polynomial they committed to, or whose values are not canonical scalars or valid group elements. If verification accepts all dealers, the participant's final share is the evaluation at its own index of the polynomial described by the summed commitments.",
  ["inputs", "fault_sequences"], "all sets of corrupted dealers, all corruption kinds (bit flips, swapped shares, non-canonical scalars, invalid or identity commitments), all (n,t)",
  "One test flips one byte of one share with n=5,t=3; invalid elements, several corrupt dealers and non-canonical values are not tried.",
  ["src/dkg.c"], [("Feldman check", "src/dkg.c dkg_verify_commitment"), ("failure list", "src/dkg.c dkg_verify_commitments")],
  ["return code, failure list, final share"])

p("C08", "An honest TP-DKG run always succeeds with consistent shares",
  "For every 2<=t<n<=128, protocol name of 1..1024 bytes and clock progress within the freshness bound, a run in which all parties are honest ends with success at the trusted party and every peer and names nobody as cheating. Every peer ends with a share carrying its own index, any t shares reconstruct the same secret and fewer do not.",
  ["configurations", "inputs", "schedules"], "all (n,t), names, keys, advancing clocks and freshness bounds, order in which peers are served",
  "The test runs n=3,t=2 once within one second of wall-clock time.",
  ["src/tp-dkg.c", "src/tp-dkg.h", "src/dkg.c", "src/noise_xk/src/XK.c"],
  [("step machine", "src/tp-dkg.c tpdkg_tp_next, tpdkg_peer_next"), ("routing of messages", "src/tp-dkg.c tp_step68_handler, tp_step14_handler"), ("freshness", "src/tp-dkg.c check_ts")],
  ["return codes, cheater list, final shares"])

p("C09", "Altering any byte of any TP-DKG message makes its receiver reject it",
  "If anybody without the sender's keys alters a message of the protocol on its way, at any position including header, body and signature, the party that receives it returns an error in that very step. Consequently no run containing an altered message ends with all parties reporting success.",
  ["inputs", "fault_sequences"], "every byte position of every message of every step in both directions, all changes of that byte, all (n,t)",
  "The corruption test makes peers misbehave before signing; no test alters a message in transit.",
  ["src/tp-dkg.c", "docs/tp-dkg.txt"], [("sign/verify of messages", "src/tp-dkg.c send_msg, recv_msg"), ("long-term signature", "src/tp-dkg.c tp_step4_handler")],
  ["return code of the receiving step"])

p("C10", "Replayed, stale, misdirected or foreign TP-DKG messages are rejected",
  "A genuine message is accepted only by its addressee, only in the step it belongs to, only from the sender it names, only in its own session and only while its timestamp is neither older than the last one seen from that sender nor further ahead than the freshness bound. Substituting any other genuinely signed message (other session, other step, other sender, other recipient, too old, too new) makes the receiving step return an error.",
  ["histories", "inputs", "schedules"], "all pairs of message slots within a session and across sessions, all clock offsets, all freshness bounds",
  "Tests run single sessions with correctly routed messages and no clock control.",
  ["src/tp-dkg.c"], [("header checks", "src/tp-dkg.c recv_msg"), ("freshness", "src/tp-dkg.c check_ts"), ("session binding", "src/tp-dkg.c tpdkg_start_peer")],
  ["return code of the receiving step"])

p("C11", "The TP-DKG names every attributable cheater and never an honest peer",
  "When fewer than t peers deviate from the protocol with properly signed messages in a way the trusted party can see, the trusted party aborts the run and its cheater report names each of the deviating peers of that step, with the step, the message concerned (sender and addressee) and the reason that apply. A peer that followed the protocol is never named, whoever complained about it.",
  ["fault_sequences", "inputs", "configurations"], "all deviating sets smaller than t, all kinds of deviation in all steps (bad share, bad commitments, false or malformed complaints, wrong disclosed keys, wrong transcript, refused acknowledgement, malformed messages), all (n,t)",
  "The corruption test only requires that the run fails with some cheater list at n=3,t=2; who is named is not examined.",
  ["src/tp-dkg.c", "docs/tp-dkg.txt"], [("cheater list", "src/tp-dkg.c add_cheater"), ("complaint resolution", "src/tp-dkg.c tp_step16_handler, tp_step18_handler"), ("report", "src/tp-dkg.c tpdkg_cheater_msg")],
  ["return code, cheater list and reported index"])

p("C12", "If the TP-DKG reports success, honest peers agree on one key",
  "Whatever fewer than t deviating peers send, when the trusted party reports success and names nobody, every honest peer has finished successfully and holds the share with its own index of one common polynomial of degree t-1 that matches the broadcast commitments. An inconsistent share that was accepted, or a broadcast that was seen differently, therefore always leads to an aborted run.",
  ["fault_sequences", "inputs"], "all deviations of up to t-1 peers including edited shares, non-canonical values, shares with foreign indexes, commitments that are not group elements, swallowed complaints",
  "Agreement under misbehaviour is not examined by any test.",
  ["src/tp-dkg.c", "src/dkg.c"], [("share verification", "src/tp-dkg.c peer_step15_handler"), ("transcript comparison", "src/tp-dkg.c tp_step20_handler"), ("final share", "src/dkg.c dkg_finish")],
  ["final shares of honest peers versus broadcast commitments"])

p("C13", "A failed TP-DKG is final and leaves no usable share",
  "Once a step of the trusted party or of a peer returned an error, the party reports that it is done, every further step fails, and no share is ever presented by it. A peer presents a share only after it received the trusted party's approval, and if complaints were raised every honest peer finishes without a share.",
  ["fault_sequences", "histories"], "an error injected in each step of each party, followed by arbitrary further calls with arbitrary inputs",
  "Tests stop at the first error and never continue driving a failed party or look at its share.",
  ["src/tp-dkg.c", "src/tp-dkg.h"], [("abort state", "src/tp-dkg.c tpdkg_tp_next, tpdkg_peer_next"), ("approval", "src/tp-dkg.c peer_step21_handler"), ("complaint ending", "src/tp-dkg.c peer_step17a_handler")],
  ["done predicates, return codes, share field"], state=[("share", "final key share of a peer, all zero until approved", "src/tp-dkg.h TP_DKG_PeerState")])

p("C14", "Announced TP-DKG buffer sizes are exact and consistent",
  "In every step that exchanges messages the announced input and output sizes are exactly what the step reads and writes: a step given buffers of these sizes touches nothing outside them and fills all of the output, and a step given any other size returns an error without writing to the output. The sizes announced by the trusted party and by the peers match each other, and the pieces handed to the peers lie inside the announced output.",
  ["configurations", "inputs"], "all (n,t), all steps including complaint handling, all wrong sizes near the right one",
  "Tests use one configuration and stack arrays without bounds checking, and never pass a wrong size.",
  ["src/tp-dkg.c", "src/tp-dkg.h"], [("size tables", "src/tp-dkg.c tpdkg_tp_input_sizes, tpdkg_tp_output_size, tpdkg_peer_input_size, tpdkg_peer_output_size"), ("message slicing", "src/tp-dkg.c tpdkg_tp_peer_msg")],
  ["exact-size heap buffers under AddressSanitizer, prefilled outputs"])

p("C15", "No peer input makes the trusted party misbehave in memory",
  "Whatever bytes peers send in any step, signed correctly or not, the trusted party's step neither reads nor writes outside its buffers, uses no freed or uninitialised memory, has no undefined arithmetic, and returns. The same holds with logging switched off or on.",
  ["inputs", "fault_sequences", "configurations"], "all messages of all peers in all steps with and without valid signatures, all (n,t), logging on and off",
  "Existing tests send well-formed messages; the fuzz stub in the tests folder needs a special build and is not run.",
  ["src/tp-dkg.c"], [("message parsing", "src/tp-dkg.c tp_step4_handler .. tp_step22_handler"), ("complaint list", "src/tp-dkg.c tp_step16_handler, tp_step18_handler")],
  ["AddressSanitizer/UBSan reports, process exit"])

p("C16", "No received input makes a TP-DKG peer misbehave in memory",
  "Whatever bytes reach a peer in any step, signed correctly or not and forged by other peers or by the trusted party, the peer's step neither reads nor writes outside its buffers, uses no freed memory, has no undefined arithmetic, and returns. The same holds with logging switched off or on.",
  ["inputs", "fault_sequences", "configurations"], "all messages in all steps with and without valid signatures, invalid handshake messages, all (n,t), logging on and off",
  "Existing tests send well-formed messages only.",
  ["src/tp-dkg.c", "src/noise_xk/src/XK.c"], [("message parsing", "src/tp-dkg.c peer_step23_handler .. peer_step21_handler"), ("channel handshake", "src/tp-dkg.c tpdkg_respond_noise_handshake, tpdkg_finish_noise_handshake")],
  ["AddressSanitizer/UBSan reports, process exit"])

p("C17", "A TP-DKG peer releases everything exactly once, wherever it stops",
  "After the documented release call every piece of memory and every channel session a peer acquired has been released exactly once, no matter after which step, with which error or with which peers' misbehaviour the run ended. Running any number of sessions one after another keeps the memory in use constant.",
  ["fault_sequences", "crash_points"], "abort after each step, failures of each kind in each step, all (n,t)",
  "Leak detection is not part of the stable tests and the tests abort in one step only.",
  ["src/tp-dkg.c", "src/noise_xk/src/XK.c"], [("release", "src/tp-dkg.c tpdkg_peer_free"), ("handshake error paths", "src/tp-dkg.c tpdkg_*_noise_*")],
  ["LeakSanitizer, allocation balance, double-free reports"])

p("C18", "TP-DKG traffic and the trusted party never carry secrets in clear",
  "No byte string sent by any party, nor the state of the trusted party, contains a share, a final share, a polynomial coefficient, a secret key or a channel key, except the channel keys a peer discloses for the shares that were complained about. Disclosing one channel key reveals no share other than the one complained about.",
  ["histories", "configurations"], "all honest runs and all complaint patterns, all (n,t), log off",
  "Tests do not inspect the traffic.",
  ["src/tp-dkg.c"], [("encryption of shares", "src/tp-dkg.c tpdkg_noise_encrypt"), ("key disclosure", "src/tp-dkg.c peer_step17a_handler"), ("per-pair channels", "src/tp-dkg.c peer_step5_handler")],
  ["all messages and the trusted party's memory scanned for all known secrets; trial decryption with disclosed keys"])

p("C19", "Locked secrets are wiped and unlocked on every path",
  "Every memory region that a call locks to protect a secret is zeroed and unlocked before the call returns, on success and on every error path, and nothing is unlocked that was not locked before. A peer's copy of its long-term signing key is wiped as soon as it has been used.",
  ["inputs", "fault_sequences"], "all calls that lock memory, all error paths (invalid element, failing hash, failing lock)",
  "No test observes locking or memory content.",
  ["src/oprf.c", "src/dkg.c", "src/tp-dkg.c"], [("locking", "src/oprf.c oprf_Finalize, oprf_Blind, oprf_Unblind, voprf_hash_to_group; src/dkg.c dkg_start"), ("wiping", "src/tp-dkg.c peer_step23_handler")],
  ["interposed lock/unlock calls and the content of the regions after return"])

p("C20", "Failing memory locks or allocations surface as errors",
  "When locking memory or allocating memory fails at any point of a call, the call returns an error (or a null handle), leaks and corrupts nothing, and never reports success with an incomplete result. A later call with resources available works normally.",
  ["fault_sequences"], "a failure injected at each single lock and each single allocation of each call",
  "No test injects failures.",
  ["src/oprf.c", "src/dkg.c", "src/tp-dkg.c", "src/noise_xk/src/XK.c"], [("lock checks", "src/oprf.c, src/dkg.c"), ("allocation checks", "src/noise_xk/src/XK.c")],
  ["return codes and outputs under injected failures"])

p("C21", "Multiparty multiplication yields shares of the product",
  "For every threshold and number of peers, when any set of dealers large enough for the product's degree multiplies its shares of two secrets and redistributes them, the resulting shares lie on a polynomial of the chosen threshold whose value at zero is the product of the secrets, whatever the dealers' indexes and order. Mismatching share indexes, a zero threshold or a threshold above the number of peers are refused, and the exported matrix times the Vandermonde matrix of the indexes is the identity.",
  ["inputs", "configurations"], "all thresholds and peer counts, all dealer subsets and orders, all secrets",
  "One run with five peers, all of them dealing in ascending order.",
  ["src/mpmult.c", "src/mpmult.h"], [("matrix inversion with pivoting", "src/mpmult.c gaussian, invert"), ("re-sharing", "src/mpmult.c toprf_mpc_mul_start"), ("recombination", "src/mpmult.c toprf_mpc_mul_finish")],
  ["shares and inverted matrix"])

p("C22", "The Noise channel delivers exactly what was sent, in order, or fails",
  "After a handshake between the two intended parties each accepted message is bit for bit the next one the other side sent. Any altered, truncated, extended, replayed, reordered, reflected or foreign message in any phase is refused, and a refused transport message does not prevent the genuine next message from being accepted. A written message has the announced length.",
  ["histories", "inputs", "fault_sequences"], "all message lengths, all interleavings of both directions, all alterations at all positions, replays and reorderings, wrong static keys and prologues",
  "The example and the Python test exchange well-formed messages in order.",
  ["src/noise_xk/src/XK.c", "src/noise_xk/src/Noise_XK.c"], [("counters and transport keys", "src/noise_xk/src/XK.c session_read/session_write"), ("AEAD", "src/noise_xk/src/Noise_XK.c Noise_XK_aead_decrypt")],
  ["return codes and payloads"])

p("C23", "The Noise handshake matches the Noise XK specification",
  "For all static and ephemeral keys, prologues and payloads the three handshake messages, the handshake hash and the transport messages are those of Noise_XK_25519_ChaChaPoly_BLAKE2b. A peer built from an independent implementation can therefore act as either side. A public key with which every secret becomes zero is refused wherever it appears, because anybody could compute the keys.",
  ["inputs"], "all keys, prologues and payload lengths in every handshake and transport message, both roles",
  "Tests let the library talk to itself only, so a consistent deviation on both sides goes unnoticed.",
  ["src/noise_xk/src/Noise_XK.c", "src/noise_xk/src/XK.c"], [("key derivation", "src/noise_xk/src/Noise_XK.c Noise_XK_kdf, Noise_XK_mix_hash"), ("handshake tokens", "src/noise_xk/src/XK.c"), ("nonces", "src/noise_xk/src/Noise_XK.c Noise_XK_aead_encrypt")],
  ["bytes on the wire and session hash"])

p("C24", "Requested Noise security levels are never silently undercut",
  "A payload packed with a requested confidentiality level is only sent when the session's current state offers at least that level, and a received payload is only released when its sender was authenticated at least to the requested level. Otherwise the call fails and no payload bytes appear on the wire or in the output. The Python module, which asks for the highest levels by itself, raises an exception instead of sending early or returning what an unauthenticated sender wrote.",
  ["inputs", "histories"], "all requested levels in every handshake and transport state of both roles",
  "Tests always request levels that are available.",
  ["src/noise_xk/src/XK.c"], [("level checks", "src/noise_xk/src/XK.c session_write, unpack_message_with_auth_level")],
  ["return codes, wire bytes, payloads"])

p("C25", "Arbitrary bytes never corrupt a Noise session's memory",
  "Whatever bytes and lengths are fed to a session in any state or to the deserialisation calls, the call returns without touching memory outside its buffers or leaking, and releasing all objects afterwards releases each exactly once.",
  ["inputs", "histories"], "all byte strings and lengths in all session states and all interleavings of operations",
  "No test feeds malformed input.",
  ["src/noise_xk/src/XK.c"], [("parsing of messages", "src/noise_xk/src/XK.c session_read"), ("deserialisation", "src/noise_xk/src/XK.c deserialize_peer_secret, device_create_from_secret")],
  ["AddressSanitizer/LeakSanitizer reports"])

p("C26", "The Noise peer registry behaves like a map and survives sealing",
  "After any sequence of additions, removals and lookups a device finds exactly the peers that were added and not removed, by identifier and by static key, with the name and key they were added with, refuses a second peer with the same key and never reuses an identifier. A device secret or peer sealed by a device opens only unaltered, under the same name and key, and then yields the same key; sessions are only established with registered peers.",
  ["histories", "inputs"], "all sequences of registry operations, all alterations of sealed records",
  "The example adds one peer and never removes, looks up or seals one.",
  ["src/noise_xk/src/XK.c"], [("peer list", "src/noise_xk/src/XK.c device_add_peer, device_remove_peer, device_lookup_peer_*"), ("sealing", "src/noise_xk/src/XK.c serialize_*_secret, deserialize_peer_secret")],
  ["results of registry calls against a reference map"])

p("C27", "The Python binding computes the same functions and checks arguments",
  "Every function of the Python module returns, for all valid arguments, exactly what the C interface defines (including the list of failing dealers), and a TP-DKG session started from Python uses the same protocol identifier as one started from C with the same name. Arguments of a wrong type, length or range raise a Python exception; they are never truncated, read out of bounds or turned into a wrong result.",
  ["inputs"], "all argument values, lengths, types and numbers of shares",
  "The Python tests call the functions once with valid arguments of usual size.",
  ["python/pyoprf/__init__.py", "python/pyoprf/noisexk.py"], [("argument checks", "python/pyoprf/__init__.py"), ("ctypes conversion", "python/pyoprf/__init__.py")],
  ["returned values and exceptions, compared with an independent reference"])

p("C28", "The multiplexer returns every peer's own complete message",
  "For each peer the result of gathering is, at that peer's position, exactly the next bytes of the announced length that this peer sent, however the network fragments or merges them, or an explicit marker when the peer failed; a short read is never presented as a message. An explicit failure reply counts as an answer, a lost connection does not. Gathering returns as soon as enough answers arrived, without waiting for peers that stay silent, and raises an error when too few peers remain or all answers are failures, over TLS and plain TCP alike.",
  ["schedules", "fault_sequences"], "all fragmentations, merges, delays, disconnect points, failure replies and orders of answers",
  "There is no test of the multiplexer.",
  ["python/pyoprf/multiplexer.py"], [("gathering", "python/pyoprf/multiplexer.py gather"), ("reading", "python/pyoprf/multiplexer.py read")],
  ["result list against the byte streams of scripted loopback servers"])

p("C29", "Independent uses from several threads do not interfere",
  "Threads that use the library at the same time on separate objects obtain the same results as when they run alone, without data races on memory owned by the library.",
  ["schedules"], "all interleavings of OPRF, threshold, DKG, multiplication, TP-DKG and Noise operations on separate objects",
  "All tests are single-threaded.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/tp-dkg.c", "src/mpmult.c", "src/noise_xk/src/XK.c"], [("absence of shared mutable state", "all sources")],
  ["ThreadSanitizer reports, results per thread"])

p("C30", "No result depends on uninitialised memory",
  "Every byte the library outputs on success, and every decision it takes, is determined by the inputs and the random source; it never depends on the previous contents of output buffers, stack or heap.",
  ["inputs", "configurations"], "all calls, all parameters, all prior contents of memory",
  "Functional tests cannot see such dependence unless it changes the verdict by chance.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/tp-dkg.c", "src/mpmult.c", "src/noise_xk/src/XK.c"], [("complete assignment of outputs", "all sources")],
  ["memcheck on outputs and branches; outputs of runs with different prior memory contents"])

p("C31", "Every recorded cheat has a correct, bounded explanation",
  "For every cheating record that a protocol run can produce, the explanation call returns the index of the peer at fault, writes a text that describes that violation and names that peer, and never writes beyond the given buffer, whatever its size. No producible record is answered with an unknown-code text.",
  ["inputs", "fault_sequences"], "all records produced by all violations in all steps, all buffer sizes",
  "The corruption test prints the messages without examining them.",
  ["src/tp-dkg.c", "src/tp-dkg.h"], [("explanation", "src/tp-dkg.c tpdkg_cheater_msg, tpdkg_recv_err")],
  ["returned index, text, bytes around the buffer"])

p("C32", "Primitive calls are memory-safe and defined for all parameter values",
  "For every combination of the 8- and 16-bit parameters of the OPRF, threshold, DKG and multiplication calls, including 0, 1 and the maxima, a call given buffers of the documented size terminates, stays inside them and has no undefined behaviour; a threshold or a number of shares that is zero or too large returns an error.",
  ["inputs", "configurations"], "all values of n, threshold, share counts, lengths and indexes including boundary values",
  "Tests use one mid-range combination.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c"], [("loop counters", "src/toprf.c toprf_create_shares; src/dkg.c dkg_start, dkg_verify_commitments"), ("variable-length arrays", "src/toprf.c, src/mpmult.c")],
  ["AddressSanitizer/UBSan reports, return codes, termination"])

p("C33", "Secrets do not steer branches or memory addresses",
  "While the library computes with private keys, blinding scalars, inputs, shares or session keys, no conditional jump and no memory address it executes depends on the value of the secret; only results that are published anyway may be branched on.",
  ["inputs"], "all secret values in all calls that take or create secrets",
  "Tests check values only.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c"], [("constant-time comparison and arithmetic", "src/oprf.c, src/toprf.c, src/dkg.c")],
  ["memcheck with the secrets marked undefined"])

p("C34", "The evaluating server learns nothing about the OPRF input",
  "The blinded element a server sees is statistically independent of the client's input, so a server (or any set of servers) cannot tell which of two inputs a client evaluated.",
  ["inputs"], "all pairs of inputs, all computationally bounded observers",
  "It is a statement about a distribution over an exponentially large group, not about single runs.",
  ["src/oprf.c"], [("blinding", "src/oprf.c oprf_Blind")], ["distribution of the blinded element"])

p("C35", "Fewer than t shares or a 3HashTDH transcript reveal nothing about the key",
  "No coalition holding fewer than t shares, all public commitments and any number of evaluations can compute anything about the key that the ideal functionality does not give it.",
  ["inputs", "histories"], "all coalitions, all computationally bounded adversaries",
  "It is a computational security claim resting on hardness assumptions.",
  ["src/toprf.c", "src/dkg.c"], [("Shamir sharing", "src/toprf.c toprf_create_shares")], ["adversary's view"])

p("C36", "Calls leave their inputs untouched and keep no state between calls",
  "A call writes only to its outputs and to the context it is given: keys, shares, messages and names passed as inputs are unchanged afterwards, no byte beyond them is read, and a unit of work repeated with the same inputs and random numbers gives the same results whatever other work the process did in between.",
  ["inputs", "histories"], "all inputs of all calls and all sequences of other calls in between",
  "Tests never look at inputs again, and each test process does one piece of work.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c", "src/tp-dkg.c", "src/noise_xk"], [("const parameters", "all public headers"), ("absence of static variables", "src/*.c")],
  ["faults on write-protected inputs, results of repeated work"])

p("C37", "Every TP-DKG message has the agreed form and content",
  "Independently written parties can take part: every message of a run has the agreed header, length, addresses, time stamp and session identifier and is signed as a whole by its sender; the announcement binds the protocol name, n and t; peers' keys are signed with their long-term keys; handshakes and shares are exactly Noise_XK messages with the key-committing tag; the trusted party relays bytes unchanged; disclosed keys are those of the disputed channels; and the confirmed transcript is the hash of all broadcasts.",
  ["histories", "configurations"], "all messages of all runs, successful or ended by complaints, all (n,t), names and clocks",
  "Tests only show that two copies of the same code understand each other.",
  ["src/tp-dkg.c", "src/noise_xk/src/XK.c", "src/noise_xk/src/Noise_XK.c"], [("message layout", "src/tp-dkg.h TP_DKG_Message; docs/tp-dkg.txt"), ("transcript", "src/tp-dkg.c update_transcript")],
  ["every byte sent, read by an independent implementation"])

p("C38", "Shared keys behave like single keys through any sequence of operations",
  "However a shared key came about (split, distributed key generation with or without trusted party, multiplication of other shared keys, in any nesting), every set of at least t shareholders, in any order and by any of the offered ways of evaluation, obtains the value of the plain function under the one key; shares of a product are shares of the product of the keys.",
  ["histories", "inputs"], "all sequences of creating, multiplying and evaluating keys, all sets of shareholders",
  "Tests evaluate one freshly split key; keys from the key generation and from multiplication are never evaluated.",
  ["src/toprf.c", "src/dkg.c", "src/tp-dkg.c", "src/mpmult.c", "src/oprf.c"], [("share format", "src/toprf.h TOPRF_Share"), ("interpolation", "src/toprf.c coeff; src/dkg.c dkg_reconstruct")],
  ["results of all operations against whole keys"])

p("C39", "Logging a TP-DKG run discloses no secrets and does not change the run",
  "A log written during a TP-DKG run contains no private key, polynomial coefficient, channel key or share of a party beyond those that the run itself discloses to settle complaints, and all messages, results and verdicts of the run are the same with and without a log.",
  ["histories", "configurations"], "all runs, successful, ended by complaints or spoilt by offenders, all (n,t)",
  "Tests run with the log on and nobody searches it or compares it with a run without.",
  ["src/tp-dkg.c", "src/dkg.c", "src/utils.c"], [("log_file", "src/utils.c dump; src/tp-dkg.c"), ("disclosed keys", "src/tp-dkg.c peer_verify_shares")],
  ["log searched for secrets, outcome with and without log"])

p("C40", "Results do not depend on compiler, optimisation or build flags",
  "With the same inputs and random numbers, every call gives the same results, messages and verdicts whether the library is built by gcc or clang, with or without optimisation, with or without assertions, and with signed or unsigned plain char.",
  ["configurations", "inputs"], "all inputs of all calls in all supported builds",
  "Tests run in one build.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c", "src/tp-dkg.c", "src/noise_xk"], [("build flags", "src/makefile CFLAGS; src/noise_xk/makefile")],
  ["results of the same work in several builds"])

p("C41", "Byte buffers may lie at any address",
  "Keys, shares, messages and other byte arrays passed in or filled by the library need no alignment: calls neither make accesses that require one nor give other results when the buffers lie at odd addresses.",
  ["inputs"], "all addresses of all buffers of all calls",
  "Buffers in tests are whole arrays, which compilers and allocators align.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c", "src/tp-dkg.c", "src/noise_xk"], [("packed structures", "src/toprf.h TOPRF_Share; src/tp-dkg.h TP_DKG_Message")],
  ["accesses to misaligned addresses, results for aligned and moved buffers"])

p("C42", "The Python module can be used from several threads",
  "Threads that call functions of the Python module with their own arguments, states, devices and sessions get the results they would get alone.",
  ["schedules", "inputs"], "all interleavings of calls of several threads",
  "Tests use one thread, and ctypes lets other threads run during every call.",
  ["python/pyoprf/__init__.py", "python/pyoprf/noisexk.py"], [("buffers", "python/pyoprf/__init__.py ctypes.create_string_buffer")],
  ["results of concurrent calls"])

p("C43", "Calls fit the usual stack whatever their parameters",
  "No call with allowed parameters needs more than the 8 MiB that threads have by default, and what Noise calls need does not grow with the length of messages, names and prologues.",
  ["inputs", "configurations"], "largest numbers of parties and thresholds, long messages",
  "Tests use few parties and short messages.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c", "src/tp-dkg.c", "src/noise_xk"], [("arrays of variable length", "src/mpmult.c invertedVDMmatrix, toprf_mpc_mul_finish")],
  ["stack use, faults below the stack"])

p("C44", "TLS peers are authenticated before anything is sent to them",
  "Without a certificate of its own, a peer of the multiplexer only becomes connected if the server shows a valid certificate for its host, issued by a trusted authority, over TLS 1.2 or newer. After any failure to connect the peer is not connected, nothing sent to it reaches the network, no connection stays open and connecting can be tried again.",
  ["inputs", "configurations", "histories"], "all certificates, protocol versions and misbehaving servers",
  "Tests never connect to a server that must be refused.",
  ["python/pyoprf/multiplexer.py"], [("connecting", "python/pyoprf/multiplexer.py Peer.connect")],
  ["bytes arriving at scripted servers, state of the peer, open descriptors"])

p("C45", "Calls leave no keys behind on the stack",
  "Keys, blinds, polynomials, chaining and session keys and decrypted messages that a call of the OPRF, of share creation, of dkg_start or of the Noise implementation handles or derives are not found in the dead part of the stack after the call has returned or been refused.",
  ["inputs", "histories"], "all keys and messages, all handshake steps, refused messages",
  "Tests look at results only; what is left in dead memory changes no result.",
  ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/noise_xk"], [("wiping", "src/noise_xk/src/Noise_XK.c sodium_memzero; src/dkg.c sodium_munlock")],
  ["contents of the stack below the caller after each call and at each libsodium call"])
p("C46", "The Python module does not accumulate memory",
  "Repeating a call of the Python module, whether it succeeds or is refused, does not make the process hold more and more memory: what a call allocates through the C libraries is given back by the time its result is dropped. For the Noise functions this is judged after the sessions and devices themselves were freed, for the TP-DKG after tpdkg_peer_free.",
  ["inputs", "histories"], "all functions, valid and refused arguments, messages and handshakes that succeed, are tampered with or come too early",
  "Tests make few calls and never look at memory; only long running servers notice.",
  ["python/pyoprf/__init__.py", "python/pyoprf/noisexk.py"], [("freeing what the libraries return", "python/pyoprf/noisexk.py libc.free, Noise_XK_encap_message_p_free")],
  ["bytes held through malloc (AddressSanitizer) and blocks held by Python before and after repetitions"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
