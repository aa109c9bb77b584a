#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
MSG = "src/app/channel/msg/"
HOOK = "AppInst has no public constructor; a cfg-guarded constructor lets the checks build header contexts"

p("C01", "Every message unwraps to exactly what was wrapped",
  "For every message kind (header, announce, change key, keyload, signed packet, tagged packet, subscribe, unsubscribe) and every admissible content, the advertised size is exactly the number of trits written, and unwrapping them in the same context consumes exactly those trits and returns exactly the wrapped content. Afterwards sender and receiver hold equal sponge states, so that a message linked to this one is again understood by both, to any chain depth.",
  ["inputs", "histories", "configurations"],
  "all payload sizes (empty, one tryte, any number of sponge blocks), tree heights, key numbers, recipient sets, starting sponge states and chains of linked messages",
  "Each message has one happy-path test with one payload size, one tree height, key number 0 and fresh sponges; sizes at codec and block boundaries, non-fresh states and chains of messages are never reached.",
  [MSG+"announce.rs", MSG+"change_key.rs", MSG+"keyload.rs", MSG+"signed_packet.rs", MSG+"tagged_packet.rs", MSG+"subscribe.rs", MSG+"unsubscribe.rs", "src/app/core/msg/header.rs"],
  [("sizeof/wrap/unwrap triples", MSG), ("PB3 commands", "src/pb3/cmd"), ("PB3 types", "src/pb3/typ")],
  [("sponge", "state shared by both ends", "src/spongos.rs")],
  ["result of unwrap", "remaining buffer size", "squeezed trits of both end states"], HOOK)
p("C02", "Tampered or misplaced authenticated messages are rejected",
  "If any trit of an authenticated message (announce, change key, signed or tagged packet, subscribe, unsubscribe, signed keyload) is altered into something its author did not itself authenticate, or it is unwrapped after a different header, from a different linked state or with a different verification key, unwrapping reports an error. In recovery mode an altered signed packet gives an error or another public key. A signed keyload altered only inside its recipient entries is refused or gives exactly the author's state.",
  ["inputs", "histories", "fault_sequences"],
  "every position of every authenticated message and every substitution of a trit, every wrong linked state, context and key",
  "No test alters a message or uses a wrong context: every message test is a happy path.",
  ["src/pb3/cmd/mac.rs", "src/pb3/cmd/mssig.rs", "src/mss/mss.rs", "src/wots.rs", "src/spongos.rs", MSG+"signed_packet.rs", MSG+"tagged_packet.rs"],
  [("MAC compare", "src/pb3/cmd/mac.rs unwrap_mac"), ("signature recovery and compare", "src/pb3/cmd/mssig.rs"), ("join of linked state", "src/pb3/cmd/join.rs")],
  None, ["Err value returned by unwrap"], None)
p("C03", "Unwrapping is total: any input gives a value or an error, never a crash",
  "For every finite trit string, receiver key material and receiver state, every unwrap operation (of messages and of each wire type) returns a value or an error; it never panics, reads past the input, or requests memory out of proportion to the input. Every strict prefix of a valid message is rejected with an error.",
  ["inputs", "fault_sequences"],
  "all trit strings: truncations at every position, adversarial length and count fields, random strings",
  "Tests only feed well-formed complete messages; truncated or hostile length/count fields are never unwrapped.",
  ["src/pb3/typ/size.rs", "src/pb3/typ/trint.rs", "src/pb3/typ/trytes.rs", MSG+"keyload.rs", "src/pb3/cmd", "src/mss/mss.rs"],
  [("end-of-input guards", "src/pb3 guard(.., Err::Eof)"), ("size_t range check", "src/pb3/typ/size.rs unwrap_tail")],
  None, ["returned Result", "absence of panic", "buffer left unread"], HOOK)
p("C04", "Exactly the listed recipients of a keyload obtain its session key",
  "For every keyload, every holder of at least one listed pre-shared key or listed NTRU private key, whatever the order and number of entries and whatever keys not listed they hold besides, unwraps it successfully, consumes it entirely and reaches the author's resulting state; anyone holding none gets the key-not-found error, and holding a wrong secret under a listed identifier never yields the author's state.",
  ["inputs", "configurations"],
  "all sets and orders of PSK and NTRU entries, all key rings of a receiver, entry positions first/middle/last/both lists",
  "The only test has one PSK whose id is all-zero and NTRU keys that all share one nonce, and checks two receivers; order, partial key rings, non-recipients and wrong secrets are untested.",
  [MSG+"keyload.rs", "src/psk.rs", "src/pb3/cmd/ntrukem.rs", "src/ntru.rs"],
  [("fork per recipient entry", MSG+"keyload.rs wrap/unwrap"), ("skipping of foreign entries", MSG+"keyload.rs unwrap"), ("key absorbed after the entries", MSG+"keyload.rs")],
  [("key_found", "whether some entry was opened", MSG+"keyload.rs")], ["Result", "resulting sponge state", "unread trits"], None)
p("C05", "A signing key is trusted only with valid endorsement",
  "Unwrapping a change-key message yields a new public key only if the message carries valid signatures of its content by both that new key and the key attached to the linked message, whichever tree heights and key numbers are used; unwrapping an announcement yields a key only with a valid signature by it. Swapped, missing, foreign or replayed signatures, an unknown key-presence tag or an invalid NTRU key are rejected.",
  ["inputs", "histories"],
  "all chains announce/change-key of any length, all combinations of signers for the two signatures, all tags",
  "One happy-path test per message; no test signs with a wrong key, swaps signatures, or walks a chain.",
  [MSG+"announce.rs", MSG+"change_key.rs", "src/pb3/cmd/mssig.rs", "src/pb3/typ/ntrupk.rs"],
  [("two signature checks on one hash", MSG+"change_key.rs unwrap"), ("self-signature check", MSG+"announce.rs unwrap")],
  None, ["Result of unwrap"], None)
p("C06", "One-time signing keys are never reused and never run past the end",
  "A private key of height h starts at key number 0 with 2^h keys left; each advance moves to the next number and reports whether a key is left, the number never decreases or exceeds 2^h, number plus keys left is always 2^h, and once exhausted it refuses to sign while its public key and height stay available and unchanged. Each signature carries the current number, signing does not advance it, and different numbers, or keys made from the same secret with different nonces, use different one-time keys.",
  ["histories", "configurations"],
  "all heights and all interleavings of sign/advance/query calls up to and beyond exhaustion",
  "Tests walk a tree of height < 2 once, never sign after exhaustion or query the key then.",
  ["src/mss/mss.rs", "src/mss/mtcomplete.rs", "src/mss/mttraversal.rs", "src/wots.rs"],
  [("skn counter", "src/mss/mtcomplete.rs next"), ("skn_left assertion", "src/mss/mss.rs sign"), ("leaf nonce from skn", "src/mss/mss.rs gen_leaf_sk")],
  [("skn", "current key number", "src/mss/mt.rs TraversableMerkleTree::skn")], ["skn()", "skn_left()", "public_key()", "next()", "signature prefix"], None)
p("C07", "MSS signatures verify exactly for the signed value and signer",
  "For every height, key number and hash value, a signature has the documented size, verifies under the signer's public key, and recovery from it (also with trailing data) returns that key and that size. Verification fails for any other hash value, other key, altered or truncated or extended signature, and recovery fails when the encoded height or key number is out of range or the signature is too short.",
  ["inputs", "configurations"],
  "all heights 0.., all key numbers, all hash values (including all-minus, all-plus and zero trytes), all single alterations and truncations",
  "Tests sign one hash value with trees of height < 2 and never check rejection of an altered signature.",
  ["src/mss/mss.rs", "src/mss/mt.rs", "src/wots.rs"],
  [("signature layout", "src/mss/mss.rs sign"), ("parse_skn", "src/mss/mss.rs"), ("fold_apath", "src/mss/mss.rs")],
  None, ["verify", "recover"], None)
p("C08", "Both Merkle tree implementations behave identically at every step",
  "For every height, leaf and merge function and every number of advances, including beyond exhaustion, the complete tree and the traversal tree report the same root, height, leaf number, advance result and, while a leaf is left, authentication path. The authentication path of each leaf has one node per level and folds with that leaf, and only with the leaf at that number, to the root.",
  ["configurations", "histories"],
  "all heights, all leaf numbers, free (collision-less) leaf and merge functions",
  "Tests compare the two up to height 5 with an additive merge, under which misplaced or swapped nodes can collide.",
  ["src/mss/mt.rs", "src/mss/mtcomplete.rs", "src/mss/mttraversal.rs"],
  [("stack refresh/build", "src/mss/mttraversal.rs"), ("linearised tree index", "src/mss/mtcomplete.rs idx"), ("fold", "src/mss/mt.rs APath::fold")],
  [("stacks", "partially built future nodes", "src/mss/mttraversal.rs")], ["root/height/skn/apath/next"], None)
p("C09", "A stored Merkle tree restores to the same tree at any point",
  "At every point of the life of either Merkle tree, including before the first advance and after exhaustion, storing and loading it gives an equal tree which continues exactly as the original (roots, paths, advance results and later stores). Loading refuses a leaf number beyond the tree and a node list of any wrong length.",
  ["crash_points", "configurations", "inputs"],
  "all heights, all save points, all node-list lengths and leaf numbers",
  "Tests store and load for small heights with a weak hash and never load malformed tuples.",
  ["src/mss/mtcomplete.rs", "src/mss/mttraversal.rs"],
  [("store/load", "src/mss/mtcomplete.rs, src/mss/mttraversal.rs")], None, ["store()", "load()"], None)
p("C10", "Tree traversal needs bounded work per step and bounded storage",
  "Generating a tree calls the leaf function exactly once per leaf; thereafter each advance of the traversal tree calls the leaf and merge functions together at most twice per level, and only for leaves inside the tree, and it stores a number of nodes that grows at most quadratically with the height. The complete tree never calls the leaf or merge function again.",
  ["histories", "configurations"],
  "all heights and all advances", "Tests look at results only, never at the number of leaf computations or stored nodes.",
  ["src/mss/mttraversal.rs", "src/mss/mtcomplete.rs"],
  [("two stack updates per level and advance", "src/mss/mttraversal.rs build_stacks")], None, ["calls of gen_leaf/merge_nodes", "store().2.len()"], None)
p("C11", "The sponge depends only on the data stream, and decryption inverts encryption",
  "For every sequence of absorb, squeeze, encrypt, decrypt and commit operations, outputs and final state are those of the 486-trit-rate overwrite duplex, however the data of adjacent operations of one kind is cut into pieces, and repeated commits or commits at a block boundary change nothing. Decrypting with an equal starting state returns the plaintext and the same final state; in-place and buffer-to-buffer operation agree, and comparing against squeezed output equals squeezing and comparing.",
  ["programs", "inputs"],
  "all operation sequences, lengths (0, 1, block size and its neighbours, many blocks) and cut points",
  "Tests use a few fixed sequences; lengths around block boundaries after mixed operations, in-place encryption with offsets and mismatching comparisons are not covered.",
  ["src/spongos.rs", "src/trits/slice.rs"],
  [("position tracking and automatic commit", "src/spongos.rs update/commit"), ("swap_add/copy_add", "src/trits/slice.rs")],
  [("pos", "position in the outer state", "src/spongos.rs Outer")], ["squeezed trits", "ciphertext", "to_inner"], None)
p("C12", "Forked sponges are independent and joining transfers exactly one key",
  "After a fork (into a new or an already used sponge) both copies start from the same state and no operation on one ever changes the other. Joining absorbs exactly the next 243 squeezed trits of the other sponge, advances that one exactly as that squeeze would, and depends on nothing else.",
  ["programs", "histories"],
  "all interleavings of operations on several forks and joins among them, at every position in a block",
  "Tests fork once at a fixed position and join two small sponges.",
  ["src/spongos.rs"], [("fork/fork_at/join", "src/spongos.rs")], None, ["outputs of all sponges"], None)
p("C13", "A saved sponge state continues like the original",
  "Saving is refused while uncommitted input is pending; otherwise the saved 243 trits depend exactly on the inner state, saving changes nothing, restoring and saving again gives the same trits, and the restored sponge agrees with the original forever after both have processed the same full block of absorbed input.",
  ["crash_points", "programs"],
  "all committed states after any operation sequence and all continuations",
  "One test saves at one point and continues with one input.",
  ["src/spongos.rs"], [("to_inner/from_inner", "src/spongos.rs")], None, ["to_inner trits", "later outputs"], None)
p("C14", "The PRNG is deterministic, splittable and separates keys and nonces",
  "Output is a function of key and nonces only: equal calls on clones at any time agree, a shorter output is a prefix of a longer one, a list of nonces acts as their concatenation, and a list of output buffers receives consecutive parts of one stream. Any two different keys or nonce strings give unrelated output, and generation leaves the generator unchanged.",
  ["inputs", "histories"],
  "all keys, nonces (including empty, multi-block), output lengths and splits",
  "Tests only check that two calls with different nonces differ, at few lengths.",
  ["src/prng.rs", "src/spongos.rs"], [("gen/gens/genss", "src/prng.rs")], None, ["generated trits"], None)
p("C15", "NTRU encapsulation delivers the key to the right private key only",
  "For every generated key pair, session key, nonce and starting sponge state, the capsule decapsulates to that session key and leaves both sponges in equal states; the public key's trits and identifier determine it fully. With another private key, another starting state, or any altered or out-of-range capsule, decapsulation reports failure; malformed or non-invertible public keys are refused.",
  ["inputs", "configurations"],
  "all key pairs, session keys, nonces and capsules; alteration of every coefficient",
  "One test round-trips a few keys from a fresh sponge; no test decapsulates a corrupted capsule or with a wrong key or state.",
  ["src/ntru.rs", "src/poly.rs", "src/pb3/cmd/ntrukem.rs"],
  [("re-encryption check by sponge tag", "src/ntru.rs decr_r"), ("range check of coefficients", "src/poly.rs from_trits"), ("invertibility checks", "src/ntru.rs gen_step, pk_from_trits")],
  None, ["decr result", "returned key", "sponge outputs"], None)
p("C16", "One-time signatures commit to every tryte of the hash",
  "For every one-time key and every 234-trit hash value, recovering the public key from the signature and that hash gives the signer's public key; for any other hash value, however many trytes differ and in either direction, it gives a different one. No part of a signature can be advanced along its hash chain to sign another value, because the three checksum chains move the opposite way for every possible tryte sum.",
  ["inputs"],
  "all hash values, including those with extreme tryte sums (+-1014) and differences that cancel in the sum; all pairs of hash values",
  "Tests sign one hash value whose sum is small; carries of the checksum are not exercised.",
  ["src/wots.rs", "src/trits/util.rs"],
  [("checksum t = -sum, three trytes", "src/wots.rs sign/recover"), ("hash chains", "src/wots.rs rehash_data")], None, ["sign", "recover", "calc_pk"], None)
p("C17", "The size encoding is canonical and exact over its whole range",
  "Every size from 0 to (27^13-1)/2 encodes to 1 plus the minimal number of trytes, as the size function says, and decodes to itself, absorbed or masked. Every other codeword, i.e. a head tryte outside 0..13, a zero or negative top tryte, a value out of range or too few trytes, is refused, so each accepted codeword is the encoding of its value.",
  ["inputs"],
  "all values and all codewords; values next to every power of 27 and its half",
  "Tests cover chosen small values and not malformed codewords or the neighbours of every boundary.",
  ["src/pb3/typ/size.rs", "src/trits/util.rs"], [("wrap_tail/unwrap_tail", "src/pb3/typ/size.rs"), ("mods3_usize", "src/trits/util.rs")], None, ["codeword", "Result"], None)
p("C18", "Balanced-ternary integers encode and decode exactly",
  "For 1, 3, 6, 9 and 18 trit integers, every value in range is written as its balanced-ternary digits, least significant first, into exactly that many trits, and reading any such trits returns the value, both directly and as an absorbed or masked wire field. The truncated-division helpers return the digit in balanced range and the matching quotient for every argument in range.",
  ["inputs"],
  "all values of trint1/3/6/9, all boundary and random values of trint18, every offset in a buffer",
  "Tests iterate over some values but check only round trips, so a consistent encoding error passes; wire fields are tested for few values.",
  ["src/trits/b1t1.rs", "src/trits/util.rs", "src/trits/slice.rs", "src/pb3/typ/trint.rs"],
  [("put/get of word traits", "src/trits/b1t1.rs"), ("mods1/mods3/mods9", "src/trits/util.rs"), ("TrintField", "src/pb3/typ/trint.rs")], None, ["trits written", "values read"], None)
p("C19", "Tryte strings map one-to-one to trits and anything else is refused",
  "The alphabet '9', 'A'..'Z' maps one-to-one to the trytes 0, 1..13, -13..-1; every such string converts to three trits per character and back to itself, and every trit string of any length prints, padding an incomplete last tryte with zeros, to the string of its trytes. Strings containing any other character are refused.",
  ["inputs"],
  "all characters (all of ASCII and beyond), all strings, all lengths modulo 3",
  "Tests convert a few strings and a few bad characters.",
  ["src/trits/util.rs", "src/trits/slice.rs", "src/trits/trits.rs"],
  [("tryte_from_char and friends", "src/trits/util.rs"), ("from_str/to_str", "src/trits/slice.rs, src/trits/trits.rs")], None, ["strings", "trits", "None/false"], None)
p("C20", "Slice operations touch exactly the trits they name",
  "Taking, dropping, splitting, picking up, advancing, diffing and chunking slices yields exactly the sub-ranges they name, and copying, comparing, adding, subtracting, swapping, cycling, filling and incrementing read and write exactly the trits in range, as the corresponding operation on sequences, leaving every other trit of every buffer unchanged. Increment adds one to the whole slice read as a base-3 number, least significant trit first, and reports overflow; slices count as the same place exactly if they start at the same trit, non-empty ones as overlapping exactly if they share a trit, and equal contents compare and hash equal.",
  ["programs", "inputs"],
  "all sequences of slice operations on several overlapping slices of several buffers, all sizes including 0",
  "Tests check single operations on fixed buffers; increment, same-place and overlap tests with offsets have no test.",
  ["src/trits/slice.rs", "src/trits/trits.rs", "src/trits/b1t1.rs"],
  [("SliceRange", "src/trits/slice.rs"), ("unsafe copies", "src/trits/b1t1.rs, src/trits/word.rs")],
  [("SliceRange{n,d}", "size and dropped prefix", "src/trits/slice.rs")], ["slice sizes and contents", "buffer contents"], None)
p("C21", "Troika hashing is incremental and matches its definition",
  "The permutation equals the published 24-round Troika permutation on every state. Hashing absorbs in 243-trit blocks with one-trit padding: the digest of a message is independent of reuse after reset, squeezing more blocks continues the same stream, and inputs that differ, also only by trailing zeros or in length, give different digests.",
  ["inputs", "programs"],
  "all states, all message lengths (0, multiples of the block size and neighbours), all numbers of output blocks",
  "Known-answer tests cover three message lengths and one output block.",
  ["src/troika.rs"],
  [("bit-sliced rounds", "src/troika.rs permutation"), ("absorb/finalize/squeeze", "src/troika.rs TroikaSponge")], None, ["get1 after permutation", "squeezed trits"], None)
p("C22", "Polynomial arithmetic is exact in the ring used by NTRU",
  "Addition, subtraction, multiplication through the number-theoretic transform, inversion and the small-polynomial helpers compute exactly in Z_12289[x]/(x^1024+1) for all operands; the transform and its inverse undo each other, inverses exist exactly when no transformed coefficient is zero. Conversion to trits is exact for every coefficient in the balanced range and refuses out-of-range trits.",
  ["inputs"],
  "all polynomials, in particular monomials of every degree, extreme coefficients +-6144 and dense random ones",
  "Tests use a few fixed or small polynomials.",
  ["src/poly.rs"], [("ntt/intt/conv/inv", "src/poly.rs"), ("modular reduction", "src/poly.rs"), ("from_trits/to_trits", "src/poly.rs")], None, ["to_trits of results", "has_inv"], None)
p("C23", "Every message is bound to its header",
  "Version, message type, application instance and message identifier all enter the state from which the content's tags and signatures are derived: content authenticated after one header is rejected after a header differing in any trit of any of these, in either direction. Headers of any other version are refused, and the message type is returned exactly as sent, whatever its length.",
  ["inputs", "configurations"],
  "all types (all lengths), application instances, message ids and versions; all single-trit differences",
  "One test unwraps one header with matching context.",
  ["src/app/core/msg/header.rs", "src/app/core/mod.rs"],
  [("absorb of external ids", "src/app/core/msg/header.rs"), ("version guard", "src/app/core/msg/header.rs unwrap")], None, ["Result", "state after header"], HOOK)
p("C24", "Only the subscriber can unsubscribe, and the owner learns who it was",
  "The owner of the announced NTRU private key, and nobody with another key, recovers from a subscribe message exactly the subscriber's public key, and then accepts an unsubscribe message only if it was made from the state of that very subscribe message. Unsubscribe messages made from another subscription, from the announcement, or without the subscriber's secret state are rejected, for any number of subscribers in any order.",
  ["histories", "configurations"],
  "all histories of several subscriptions and unsubscriptions in any order, with replayed, crossed and forged messages",
  "One test each for subscribe and unsubscribe in isolation; their composition and misuse are untested.",
  [MSG+"subscribe.rs", MSG+"unsubscribe.rs", "src/pb3/cmd/join.rs", "src/pb3/cmd/ntrukem.rs"],
  [("key encapsulated into the state", MSG+"subscribe.rs"), ("MAC on joined state", MSG+"unsubscribe.rs")], None, ["Result of unwrap"], None)
p("C25", "Messages on the wire have the documented layout",
  "The encoding of each message is, field by field in the documented order, exactly what its PB3 description says: absorbed fields in clear, masked fields under the sponge keystream, sizes and counts as size_t, links and ids as bare trytes, tags, encapsulated keys and signatures with their documented widths; each tag, signature hash and keystream is the sponge output after exactly the preceding fields. Two independent implementations of the documentation interoperate.",
  ["inputs", "configurations"],
  "all messages and contents; every field compared with an independent evaluation of the specification",
  "Tests only feed the encoder's output to the matching decoder, so any symmetrical change of format or of what is absorbed passes.",
  [MSG, "src/app/core/msg/header.rs", "src/pb3/cmd", "src/pb3/typ"],
  [("wrap functions", MSG), ("PB3 commands", "src/pb3/cmd")], None, ["wire trits"], HOOK)
p("C26", "Over any channel history each party reads exactly what it is entitled to",
  "In every history of a channel (announcement, subscriptions, keyloads to changing recipient sets, signed and tagged packets linked to earlier messages, key changes, unsubscriptions, with replays, drops and altered messages), a party that processes the published messages in order accepts exactly those linked to states it has and authentic under keys it trusts, obtaining the published content. A party outside a keyload's recipients never obtains a state derived from it, so it neither reads nor authenticates packets linked to it.",
  ["histories", "configurations", "fault_sequences"],
  "all interleavings of publications by owner and subscribers, and receptions by entitled, foreign and adversarial parties",
  "No test runs more than one message of a channel.",
  ["src/app", "src/pb3", "src/spongos.rs", "src/mss", "src/ntru.rs"],
  [("linked states", "src/pb3/cmd/join.rs"), ("keyload", MSG+"keyload.rs")], None, ["Results of unwrap by each party", "content", "states"], HOOK)
p("C27", "Masked content is hidden behind the linked state and never masked alike twice",
  "In every complete message (header of its kind, then content) each masked field, that is the masked payload of a signed or tagged packet with its size, the session key in a pre-shared-key entry of a keyload, and the subscriber's key in a subscription, is masked by trits that depend on the secret it is meant for (the state of the linked message, the pre-shared key, the encapsulated key) and on the application instance and message id, over its whole length and whatever the sizes of the fields. No part of it is sent in the clear, and messages that differ in application instance, message id, linked state or secret have unrelated masks.",
  ["inputs", "configurations"],
  "all public and masked payload sizes relative to sponge blocks, all kinds with masked fields, all pairs of messages differing in one of these",
  "Tests only unwrap what was wrapped; masking with nothing, with the same trits every time, or before the key was absorbed, passes them as long as both ends do the same.",
  [MSG + "tagged_packet.rs", MSG + "signed_packet.rs", MSG + "keyload.rs", MSG + "subscribe.rs", "src/pb3/cmd/join.rs", "src/spongos.rs"],
  [("join absorbs the linked state", "src/pb3/cmd/join.rs"), ("commits before masking", MSG), ("encr adds the outer state", "src/spongos.rs")], None, ["wire trits minus content"], HOOK)
p("C28", "PB3 command sequences unwrap to what was wrapped, only by the same sequence",
  "Any sequence of PB3 commands that one side wraps (fields of every type absorbed or masked, external data, commits, joins, forks, squeezes, MACs, signatures, key capsules) is unwrapped by the same sequence to the same values, consuming exactly the trits the advertised sizes say were written and leaving both sponges in the same state after every command. A reader whose commands, linked states or input differ in anything that enters the sponge gets another sponge state and does not get past the next MAC, verified signature or key capsule; truncated input is refused.",
  ["inputs", "histories"],
  "all sequences of commands with fields of all types, sizes and alignments, nested forks and joins, with the same reader, a reader deviating at any command, or input altered or cut anywhere",
  "Tests wrap and unwrap a few fixed sequences; a command that forgets to absorb, absorbs twice, or advertises a wrong size agrees with itself there, and no test pairs different readers and writers.",
  ["src/pb3/cmd", "src/pb3/typ", "src/spongos.rs"],
  [("absorb and mask of fields", "src/pb3/cmd/absorb.rs"), ("join of a linked state", "src/pb3/cmd/join.rs"), ("MAC", "src/pb3/cmd/mac.rs"), ("signature over the squeezed hash", "src/pb3/cmd/mssig.rs"), ("key capsule", "src/pb3/cmd/ntrukem.rs")], None, ["written trits, values read, sponge states through squeezes, results"], None)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
