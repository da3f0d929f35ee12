#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SC, SS, SU, SG, ST = "srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs", "srp/src/groups.rs", "srp/src/types.rs"
KL, KE, KG, KR = "spake2/src/lib.rs", "spake2/src/ed25519.rs", "spake2/src/group.rs", "spake2/src/error.rs"
AC, AS, AU, AD, AE = "aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs", "aucpace/src/database.rs", "aucpace/src/errors.rs"

# ---------------- SRP
p("S01", "SRP: an honest client and server agree and authenticate each other",
  "When the server holds the verifier the client computed for this username, password and salt, both sides finish without error for every choice of ephemeral secrets (except the negligible event that a public value is itself 0 modulo N, which must be refused), derive the same session key, and each side accepts the other's proof. This holds for every built-in group, for any custom safe-prime group, and for every hash function, including when a public value or the key has leading zero bytes.",
  ["inputs", "configurations"],
  "All usernames, passwords, salts, ephemeral secrets (any length), groups (7 built-in and custom safe-prime groups) and digests.",
  "srp/tests/srp.rs runs one username/password in G_2048 with SHA-256 and random 64-byte secrets; it cannot meet the 1-in-256 leading-zero, wrap-around or degenerate-exponent cases, nor other groups and hashes.",
  [SC, SS, SU],
  [("SrpClient::process_reply / compute_premaster_secret", SC), ("SrpServer::process_reply / compute_b_pub / compute_premaster_secret", SS), ("compute_u, compute_k, compute_m1, compute_m2", SU)],
  observe=["SrpClientVerifier::key/proof/verify_server", "SrpServerVerifier::key/proof/verify_client"])
p("S02", "SRP: mismatched secrets or altered handshake values never authenticate",
  "If the client's password, username or salt differs from the one behind the server's verifier, or if either public ephemeral value is altered on its way, then the server rejects the client's proof, the client rejects the server's proof, and a wrong password, username, salt or verifier also gives the two sides different session keys. (Username/password pairs whose `username:password` strings coincide count as the same secret.)",
  ["inputs", "fault_sequences"],
  "All sessions in cryptographic-size groups and all single or combined alterations of password, username, salt, stored verifier, A or B.",
  "Only one wrong password (one changed letter) is tested, and only through should_panic at the first failing unwrap; username, salt, verifier and transcript tampering are never tried.",
  [SC, SS, SU],
  [("x = H(salt | H(user:pass))", SC), ("u, M1 and M2 bind A, B and the key", SU), ("verify_client / verify_server", SS)],
  observe=["verify_client", "verify_server", "key()"])
p("S03", "SRP: public values that are 0 modulo N are refused, and only those",
  "A client given any server public value that is a multiple of the group modulus, in any encoding (empty, zero-padded, N, 2N, ...), refuses it with an illegal-parameter error and yields no key; likewise a server given such a client public value. Every other public value, however large, small or padded, is processed without error or panic.",
  ["inputs"],
  "All byte strings as peer public values, for all groups, digests and local secrets.",
  "tests/bad_public.rs tries only the single byte zero, in one group, with should_panic (any panic passes).",
  [SC, SS, ST],
  [("b_pub % N == 0 guard", SC), ("a_pub % N == 0 guard", SS)],
  observe=["SrpAuthError::IllegalParameter from process_reply"])
p("S04", "SRP: a proof is accepted only if it is byte-for-byte the right one",
  "A server accepts a client proof, and a client accepts a server proof, exactly when the received bytes equal the full proof the peer of the same session computes; any changed bit, any truncation (including the empty string), any extension, and the other direction's or another session's proof are rejected with a bad-MAC error.",
  ["inputs"],
  "All candidate proof byte strings against all sessions, groups and digests.",
  "The tests present only the correct proof or one wrong-password proof; they never flip single bits, truncate or extend.",
  [SC, SS],
  [("constant-time comparison of m1/m2 against the reply", SS + ", " + SC)],
  observe=["verify_client", "verify_server"])
p("S05", "SRP: every computed value follows the documented SRP-6a equations",
  "For every group and hash, the multiplier k, private key x, verifier v, public values A and B, scrambler u, both premaster secrets and both proofs equal the documented formulas (k = H(N|PAD(g)), x = H(s|H(I:P)), v = g^x, A = g^a, B = kv+g^b, u = H(A|B), S = (B-kg^x)^(a+ux) = (Av^u)^b, M1 = H(A|B|S), M2 = H(A|M1|S), integers as minimal big-endian bytes), so independent implementations of the same equations interoperate with either side.",
  ["inputs", "configurations"],
  "All inputs of every public function, including integers larger than N and zero, and full exchanges against an independently written peer.",
  "tests/rfc5054.rs checks one vector (G_1024, SHA-1); other groups, hashes, big operands, M1, M2 and key bytes are not checked against an oracle.",
  [SC, SS, SU],
  [("compute_* functions", SU), ("SrpClient::compute_*", SC), ("SrpServer::compute_*", SS)],
  observe=["return values of all public compute functions, process_reply keys and proofs"])
p("S06", "SRP: integers travel in one canonical encoding, and padding is irrelevant",
  "Verifiers, public ephemeral values and session keys are always returned as the minimal big-endian encoding of a value below N, and leading zero bytes added to any integer input (ephemeral secrets, verifier, either public value) never change any result. The byte-string functions agree with the corresponding big-integer functions, and repeating a call gives the same result.",
  ["inputs"],
  "All inputs with any amount of zero padding, all groups and digests.",
  "No test pads an input or checks the shape of an output; leading-zero outputs occur with probability 1/256.",
  [SC, SS],
  [("BigUint::from_bytes_be / to_bytes_be at the API boundary", SC + ", " + SS)],
  observe=["compute_verifier, compute_public_ephemeral, process_reply"])
p("S07", "SRP: the built-in groups are the RFC 5054 groups",
  "Each built-in group has exactly the bit length in its name, its modulus N and (N-1)/2 are prime, g generates the full multiplicative group, and N and g equal the values of RFC 5054 Appendix A.",
  ["configurations"],
  "All seven built-in groups and all Miller-Rabin witnesses tried.",
  "Only G_1024 (via one test vector) and the use of G_2048 in a round trip are tested, and a round trip succeeds in a wrong group too.",
  [SG, "srp/src/groups/*.bin"],
  [("lazy_static group constants read from groups/*.bin", SG)],
  observe=["srp::groups::G_*"])

# ---------------- SPAKE2
p("K01", "SPAKE2: both sides with the same password and identities get the same key",
  "For every password, identities and ephemeral randomness, an A side and a B side (or two symmetric sides) that exchange their messages unaltered both succeed and return the same 32-byte key. Each message is 33 bytes and starts with the sender's side letter, and this holds for the system-RNG and the caller-RNG constructors alike, whichever side started or finished first.",
  ["inputs", "histories"],
  "All passwords, identities (any bytes, any length, equal or empty), both modes, all random scalars, all orders of the four calls.",
  "Tests use the password \"password\", three fixed identities, and one run per mode; they cannot cover orderings of the two messages, empty or long strings, or degenerate scalars.",
  [KL, KE],
  [("start_internal blinding and finish unblinding", KL), ("hash_ab / hash_symmetric transcript ordering", KE)],
  observe=["start_* messages", "finish result"])
p("K02", "SPAKE2: a key is bound to password, identities, mode and both messages",
  "If the two sides differ in the password, in either identity (including swapped identities or bytes moved from one identity to the other), in the symmetric identity, or in any bit of either message as sent versus as received, or belong to different sessions, then they never end up with the same key: the keys differ or finishing fails.",
  ["inputs", "fault_sequences"],
  "All pairs of differing inputs and all in-transit alterations, both modes.",
  "Only one different password in asymmetric mode is tested; identities, message tampering and the symmetric mode are not.",
  [KL, KE],
  [("transcript hash over pw, ids, both messages and K", KE), ("password scalar blinding", KL)],
  observe=["finish results of both sides"])
p("K03", "SPAKE2: finish classifies every received message correctly and never panics",
  "Finishing with any byte string returns wrong-length exactly when it is not 33 bytes, otherwise bad-side exactly when the first byte is not the letter of the expected peer (B for A, A for B, S for symmetric; so a reflected A or B message is refused), otherwise corrupt-message when the remaining 32 bytes do not encode a curve point, and otherwise a 32-byte key. It never panics.",
  ["inputs"],
  "All received byte strings, in all three roles.",
  "Tests try one reflected message and one all-zero 34-byte message on side A; invalid points, other lengths, B and symmetric roles are not tried.",
  [KL, KE, KR],
  [("length and side checks in finish", KL), ("bytes_to_element", KE)],
  observe=["Error variants from finish"])
p("K04", "SPAKE2: Ed25519 messages and keys interoperate with python-spake2",
  "Against an independently written peer that follows the python-spake2 definition (HKDF-SHA256 password-to-scalar, M, N and S derived from their seed strings, blinding with M for A, N for B and S for symmetric, SHA-256 transcript of hashed password, hashed identities, the two messages (sorted in symmetric mode) and the shared element), either role of this library derives exactly that peer's key, for every password, identities and scalars.",
  ["inputs"],
  "All passwords, identities, and scalars on both sides, all three roles.",
  "One fixed vector for A/B is tested; the symmetric constant and symmetric transcript are never checked end to end against a fixed value, nor any other password or identity.",
  [KL, KE],
  [("const_m / const_n / const_s, hash_to_scalar, hash_ab, hash_symmetric", KE), ("start_internal, finish", KL)],
  observe=["messages, keys, and the public Group functions of Ed25519Group"])
p("K05", "SPAKE2: the protocol is right for every Group implementation",
  "For any type implementing the public group interface with 32-byte encodings, including groups with tiny order where scalars and elements are often zero, identity or equal, each side's message is basepoint*x plus its constant (M for A, N for B, S for symmetric) times the password scalar, both sides agree on the key, that key is the documented transcript hash over x*(Y - constant*pw), and an encoding the group rejects is reported as corrupt.",
  ["inputs", "configurations"],
  "All scalars x, y, pw exhaustively in small prime-order groups with several encodings and constants, plus random ones in a 61-bit group.",
  "Every test uses Ed25519 with random scalars, where equal messages, zero scalars, identity elements or equal encoding prefixes never occur.",
  [KL, KG],
  [("Spake2<G> generic over Group", KL)],
  observe=["messages and finish results of Spake2<G>"])
p("K06", "SPAKE2: debug output shows the identities faithfully and no secret",
  "The debug rendering of a session state depends only on the role and the identities, never on the password, ephemeral scalar or message, and shows each identity either verbatim (if it is UTF-8) or as its complete two-digits-per-byte lowercase hex.",
  ["inputs"],
  "All passwords, identities (UTF-8 and not), scalars and roles.",
  "test_debug renders two states with ASCII identities; it never uses non-UTF-8 identities, the B role, or compares different passwords.",
  [KL],
  [("Debug for Spake2, Side and MaybeUtf8", KL)],
  observe=["format!(\"{:?}\", state)"])

# ---------------- AuCPace
p("A01", "AuCPace: a registered user with the right password gets the server's key",
  "For every registered username/password, a login between client and server with the same SSID data and channel identifier ends with both sides holding the same 64-byte session key and, in explicit mode, each accepting the other's authenticator. This holds for all four variants (plain, partially augmented, strong, strong partially augmented), negotiated or pre-established SSID, explicit or implicit authentication, fixed-buffer or heap registration and login in any mix, and 32- or 64-byte password hashes.",
  ["inputs", "configurations"],
  "All usernames, passwords, channel identifiers, SSIDs, hash outputs, randomness, and all combinations of variant, SSID mode, authentication mode and API flavour.",
  "Integration tests run each variant once with one user, one scrypt setting and mostly the heap API; mixes of register/login flavours, 64-byte hashes, extreme hash values and other nonce sizes are never run.",
  [AC, AS, AU],
  [("client state machine", AC), ("server state machine", AS), ("H0..H5, generate_keypair, compute_first_session_key, compute_session_key", AU)],
  observe=["session keys and authenticators returned by both sides"])
p("A02", "AuCPace: any mismatch or tampering prevents a shared key",
  "If client and server differ in password, username, SSID data, nonces, channel identifier, salt, hashing parameters, or if any public point, blinded point or salt is altered in transit, then explicit authentication fails on whichever side checks it and no key is returned there, and with implicit authentication the two keys differ. (Username/password pairs with the same `username:password` string count as the same secret.)",
  ["inputs", "fault_sequences"],
  "All single alterations of each protocol input or message field, in all variants.",
  "No existing test ever runs a failing login.",
  [AC, AS, AU],
  [("generator bound to ssid, PRS and channel identifier; keys bound to ssid", AU), ("authenticator checks", AC + ", " + AS)],
  observe=["receive_client_authenticator, receive_server_authenticator, implicit_auth"])
p("A03", "AuCPace: only the exact authenticator completes explicit authentication",
  "In the explicit phase each side returns the session key if and only if it receives exactly the 64-byte authenticator its peer derives for this session; every other value (any flipped bit, the receiver's own authenticator reflected, zeros, another session's) gives a mutual-authentication failure and no key. The two directions' authenticators always differ, and the explicit key equals the one implicit authentication would give.",
  ["inputs"],
  "All 64-byte candidate authenticators in all sessions, on both sides.",
  "Tests only deliver correct authenticators.",
  [AC, AS, AU],
  [("ct_eq comparison of Ta / Tb", AC + ", " + AS), ("compute_authenticator_messages", AU)],
  observe=["Error::MutualAuthFail"])
p("A04", "AuCPace: the neutral point is refused wherever a peer can inject it",
  "Whenever the peer supplies the neutral point as server augmentation key, client or server public key, blinded password point, or blinded salt, or the blinded salt becomes neutral, the receiving step fails with the illegal-point error in every variant and every API flavour (fixed-buffer and heap, explicit and implicit, known and unknown user). Valid non-neutral points are never refused as illegal.",
  ["inputs", "configurations"],
  "All point-carrying steps, all variants and API flavours, all local secrets, neutral and non-neutral points.",
  "Unit tests inject the neutral point into eight individual functions with fixed values; the fixed-buffer strong client's blinded salt, unknown users and the non-neutral side are not tried.",
  [AC, AS],
  [("is_identity checks", AC + ", " + AS)],
  observe=["Error::IllegalPointError"])
p("A05", "AuCPace: sub-session IDs are long enough, agreed, and bound to both nonces",
  "A pre-established SSID is accepted by client and server exactly when it is at least 16 bytes long, otherwise it is refused as insecure; negotiated nonces have the configured length. Two parties share a key only if their SSID data are identical in full: every byte of a pre-established SSID and every byte of both negotiated nonces, each in its own role, matters.",
  ["inputs"],
  "All SSID byte strings and lengths, all nonce values and nonce sizes.",
  "Only the 8-byte \"bad ssid\" is tried; boundary lengths, long SSIDs, and sensitivity to each byte are not.",
  [AC, AS, AU, "aucpace/src/constants.rs"],
  [("begin_prestablished_ssid, agree_ssid", AC + ", " + AS), ("compute_ssid", AU)],
  observe=["Error::InsecureSsid, nonces, keys"])
p("A06", "AuCPace: replies for unknown users look like replies for registered ones",
  "A login for a username without stored credentials is answered without error by the same kind of message as for a registered user, with the same shape of salt and parameters, and with the parts that are fixed for a registered user (salt, unblinding exponent, long-term public key) also repeating for the same username on the same server while differing between usernames and between servers. The login can never be completed: the server accepts no authenticator derived from any password, and its key is shared with nobody.",
  ["inputs", "histories"],
  "All usernames and database contents, repeated probes in any order, all four variants.",
  "No test ever looks up an unknown user.",
  [AS, AD],
  [("lookup_failed / lookup_failed_strong", AS), ("missing long-term key pair path", AS)],
  state=[("ServerSecret", "per-server secret from which fake salts are derived", AS)],
  observe=["AugmentationInfo / StrongAugmentationInfo messages, server key"])
p("A07", "AuCPace: the hasher gets exactly user:password, salt, params, or a clean error",
  "Registration and login pass the password hasher exactly the bytes `username:password` with the given parameters and salt, identically in the fixed-buffer and heap flavours. The fixed-buffer flavour fails with too-long exactly when username, password and separator do not fit the buffer (never truncating or panicking), a hasher error is passed on, a missing hash is reported as empty, and a hash that is neither 32 nor 64 bytes is reported as invalid size.",
  ["inputs", "configurations"],
  "All usernames, passwords, buffer sizes, salts, parameters and hasher outcomes, for registration and login, plain and strong.",
  "One test compares the two flavours for one username/password with a 100-byte buffer; boundaries and error outcomes are never tried.",
  [AC, AU, AE],
  [("hash_password / hash_password_alloc", AC), ("scalar_from_hash", AU)],
  observe=["calls received by a recording PasswordHasher, returned errors and verifiers"])
p("A08", "AuCPace: messages survive serialisation, and bad bytes are refused cleanly",
  "Every client and server message serialised with serde (bincode or postcard) deserialises to a message with identical content, re-serialises to identical bytes, and a protocol run over serialised messages gives the same keys as one over direct values. Deserialising arbitrary, truncated or corrupted bytes returns an error or a well-formed message that itself round-trips, and never panics.",
  ["inputs", "fault_sequences"],
  "All message variants with all field values, and all byte strings as input to deserialisation.",
  "Serialisation is used only by the example programs, not by any test.",
  [AC, AS, AU],
  [("serde derives and serde_saltstring / serde_paramsstring helpers", AU), ("ClientMessage", AC), ("ServerMessage", AS)],
  observe=["serialised bytes, deserialised messages"])
p("A09", "AuCPace: both roles follow the documented protocol equations",
  "Against an independently written peer that follows the documented protocol (ssid = H0(s|t), W = B^w, PRS = X^w = W^x, generator from H1(ssid|PRS|CI), sk1 = H2(ssid|K), Ta = H3(ssid|sk1), Tb = H4(ssid|sk1), sk = H5(ssid|sk1), strong salt (H1(user|password))^q, with Hi prefixing the index as a little-endian 32-bit word), either role of this library computes the same public values, authenticators and session key, for every variant, hash function and input.",
  ["inputs", "configurations"],
  "All inputs, in all variants, both roles, two digests.",
  "Tests only run the library against itself, so any change made symmetrically on both sides goes unnoticed.",
  [AC, AS, AU],
  [("H0..H5 and key derivation", AU), ("register*, generate_cpace*", AC), ("generate_client_info*", AS)],
  observe=["all messages and keys"])
p("A10", "AuCPace strong: blinding hides the salt yet always recovers the registered one",
  "In the strong variants, for every blinding value the client recovers exactly the salt used at registration, for the same username, password and stored exponent, while the blinded point it sends and the blinded salt it receives differ between logins; a different password, username or exponent yields a different salt (pairs whose username and password concatenate to the same bytes count as the same). The server's reply is a function of the blinded point and the stored exponent only, so it never needs the password.",
  ["inputs", "histories"],
  "All usernames, passwords, exponents and blinding randomness, sequences of logins.",
  "Tests run one strong login each and never look at the recovered salt or at two logins.",
  [AC, AS],
  [("generate_salt_strong, start_augmentation_strong, blinding inverse in generate_cpace*", AC), ("generate_prs_strong", AS)],
  observe=["salt seen by a recording PasswordHasher, StrongUsername and StrongAugmentationInfo messages"])
p("A11", "AuCPace: interleaved sessions, users and password changes stay separate",
  "For every history of registrations, re-registrations (password changes) and logins of several users interleaved on one server and one client object, a login succeeds exactly when the client's secret is the one registered at the time the server looked it up and both ends belong to the same session; otherwise it fails, without disturbing other sessions. Session keys of different sessions never coincide, and each login makes the server consult the database for exactly the username it was given.",
  ["histories", "schedules"],
  "All interleavings of protocol steps of concurrent sessions with registrations and password changes, all variants.",
  "Every test runs a single session for a single user.",
  [AC, AS, AD],
  [("AuCPaceServer / AuCPaceClient per-session state objects", AC + ", " + AS)],
  state=[("database", "verifiers per user", AD)],
  observe=["keys and errors of every session, database call log"])
p("A12", "AuCPace partial augmentation: the user's stored key pair is the one used",
  "In the partially augmented variants the server sends exactly the public key stored for that user and derives its key material from the matching stored private key, at every login and regardless of other users' pairs, so a stored pair that was replaced takes effect at the next login and a mismatched pair makes login fail. Generated long-term pairs are always consistent (public = base * private), valid and distinct.",
  ["inputs", "histories"],
  "All users, stored key pairs, key replacements and logins, in both partially augmented variants.",
  "Tests store one key pair for one user and log in once.",
  [AS, AD],
  [("generate_client_info_partial_aug / _partial_strong", AS), ("generate_long_term_keypair / generate_server_keypair", AU)],
  observe=["AugmentationInfo.x_pub, session keys"])

# ---------------- cross-cutting
p("X01", "Ephemeral secrets and nonces are fresh and use the supplied RNG's full output",
  "Every random value (SPAKE2 messages; AuCPace nonces, salts, secret exponents, blinded points, augmentation keys, long-term keys and CPace public keys; the server's stand-ins for unknown users) is fresh for each call, or for each server in the case of the stand-ins that repeat, and drawn from the supplied random generator: equal generator output gives equal values, and changing any single byte of the first 32 bytes (or of the whole nonce or salt length) drawn for it changes the value. The system-RNG constructors never repeat a value.",
  ["inputs", "histories"],
  "All random-generator outputs and byte positions, all randomised operations, sequences of calls.",
  "Tests use the OS RNG once per run and cannot see a truncated, reused or constant secret because the protocol still completes.",
  [KL, KE, AC, AS, AU],
  [("random_scalar, Scalar::random, generate_nonce, SaltString::generate, ServerSecret::new", KE + ", " + AU + ", " + AC + ", " + AS)],
  observe=["public messages as a function of the injected RNG stream"])
p("X02", "No byte string or point from a peer can make any crate panic",
  "Whatever a peer sends at any step of SRP, SPAKE2 or AuCPace (arbitrary byte strings as public values, salts, proofs, usernames, messages and serialised messages; arbitrary group elements, parameters and message sequences), every call returns a value or an error and never panics or overflows.",
  ["inputs", "fault_sequences"],
  "All sequences of peer-supplied values, fed to every public receiving function, for all groups, roles and variants.",
  "Tests feed a handful of malformed values and never arbitrary ones; arithmetic overflow or slice panics need specific lengths or values.",
  [SC, SS, SU, KL, KE, AC, AS, AU],
  [("error returns in all receiving functions", "all crates")],
  observe=["panics caught by the harness (overflow checks and debug assertions on)"])
p("X03", "Optional cargo features never change what the protocols compute",
  "For the same inputs and randomness, messages (also when serialised), keys and errors of the operations available are identical under every combination of the crates' optional features (AuCPace: alloc, serde, zeroize, partial augmentation, strong, default hashers; SPAKE2: getrandom, std), so peers built with different features interoperate.",
  ["configurations", "inputs"],
  "All feature combinations that build, and generated inputs in each.",
  "The test suite runs with all features on; code compiled only when a feature is off is never executed.",
  [AC, AS, AU, KL, "aucpace/Cargo.toml", "spake2/Cargo.toml"],
  [("cfg(feature) gates", AC + ", " + AS + ", " + AU + ", " + KL)],
  observe=["transcript digests of probe programs built with each feature set"])
p("X04", "Rejecting a wrong proof costs the same wherever the difference lies",
  "The work a side does to reject a wrong SRP proof or AuCPace authenticator depends on its length only, never on its content: it is the same whether the first byte, the last byte or every byte differs, so an attacker cannot learn the right value from rejection times.",
  ["inputs"],
  "All wrong proofs and authenticators of one length in all sessions, on both sides, for all digests.",
  "Tests look at the returned result, which is the same for a comparison that stops at the first difference.",
  [SC, SS, AC, AS],
  [("subtle::ConstantTimeEq in verify_client / verify_server", SS + ", " + SC), ("ct_eq in receive_client_authenticator / receive_server_authenticator", AS + ", " + AC)],
  observe=["number of machine instructions executed by verify_client, verify_server, receive_client_authenticator, receive_server_authenticator (single-stepped in process)"])
p("X05", "A session's results depend on nothing outside it, in any order or thread",
  "In every crate, what an operation returns is determined by its arguments, the session it belongs to and the random bytes it draws. Any number of SRP, SPAKE2 and AuCPace sessions, sharing client and server objects or not, with recurring or similar users, passwords, identities, salts, random values and groups, interleaved in any order, repeated, abandoned or run on several threads at once, give exactly the values, keys, proofs and verdicts that each gives alone.",
  ["histories", "schedules"],
  "All histories of operations of the three crates over recurring inputs, on shared objects, on one or more threads.",
  "Every test runs one session in its own process state; a value kept from an earlier session (a cache, a scratch buffer, a once-initialised cell) is never met by a later one that needs another.",
  [SC, SS, SU, KL, KE, AC, AS, AU],
  [("per-call computation in SrpClient, SrpServer and Spake2", SC + ", " + SS + ", " + KL), ("per-session state objects", AC + ", " + AS)],
  state=[("none shared", "SRP objects are immutable, Spake2 is consumed by finish, AuCPace objects hold a generator and the stand-in secret only", SC + ", " + SS + ", " + KL)],
  observe=["every returned value, key, proof and verdict, compared with a model that has no memory"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
import re
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    s = re.sub(r"\([^()]*\)", "", x["statement"])
