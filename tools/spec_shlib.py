from lib import prop, H, na
C = "shlib/shcrypto/"
GROUP = ["group operations, pairing and point encoding of blst are modelled ideally: groups as discrete logarithms modulo the prime order, pairing as product (models/blst); cofactor and curve arithmetic are outside",
         "hashing to the curve is an arbitrary fixed injective function"]

prop("C03", "Any threshold of keypers derive the one epoch key, and bad shares fail",
  "For all dealer polynomials of the degree belonging to the threshold: every keyper's evaluation verifies against the dealer's commitment, its secret key share matches its public key share, its epoch key share verifies, and any threshold many keypers, in any order, compute the same epoch secret key, namely the one of the eon public key. Shares or evaluations that differ from the right ones, belong to another epoch or threshold, or are too few are rejected.",
  ["inputs", "configurations"], "all polynomials over the scalar field, all subsets of keypers within the bounds",
  "Tests draw a few random polynomials for one fixed subset; the property is an identity over the whole field and all subsets.",
  [C + "keys.go", C + "feldman.go"],
  [("ComputeEpochSecretKey / LagrangeCoeffs", C + "keys.go"), ("VerifyPolyEval / Pi / Eval", C + "feldman.go"), ("VerifyEpochSecretKeyShare", C + "keys.go")],
  [H("VerifThreshold", "shcrypto", ["common.go", "keys.go"], 60, ["subset", "wrong"],
     "up to 6 keypers (8 thorough), every threshold, up to 2 dealers (4 thorough) with arbitrary coefficients, an arbitrary epoch, all subsets of threshold size")],
  GROUP, module="shlib", models=["blst"])

prop("C04", "Message padding is PKCS #7, reversible, strict and leaves memory alone",
  "For every message, padding yields the PKCS #7 blocks, unpadding them returns the message, and the caller's buffer, including spare capacity behind the message, is untouched. Arbitrary blocks are either rejected or are exactly the padding of the message returned. The block counter bytes are the big-endian value and injective.",
  ["inputs"], "all message contents and block contents within the length bounds, with and without spare capacity",
  "Tests pad a handful of messages; a write behind the slice or an accepted non-canonical padding needs particular buffers or bytes.",
  [C + "encryption.go"],
  [("PadMessage", C + "encryption.go"), ("UnpadMessage", C + "encryption.go"), ("Uint64toBytes", C + "encryption.go")],
  [H("VerifPad", "shcrypto", ["encryption.go"], 60, ["padded"], "messages of 0..130 arbitrary bytes (400 thorough), with 0 or 40 spare bytes behind"),
   H("VerifUnpad", "shcrypto", ["encryption.go"], 60, ["accepted", "rejected"], "0..3 arbitrary blocks (6 thorough)"),
   H("VerifSplit", "shcrypto", ["encryption.go"], 60, ["bytes"], "all pairs of 64-bit counters")],
  [], module="shlib", models=["blst"])

EXP = {"github.com/shutter-network/shutter/shlib/shcrypto.fp12Exp": "github.com/supranational/blst/bindings/go.ModelExp"}
HASH = "hash functions are arbitrary fixed functions, evaluated with the real function on concrete arguments, collision free otherwise (also modulo the group order, where none is known to be 0)"
prop("C05", "Decryption returns what was encrypted; a tampered ciphertext is rejected",
  "For every eon key, epoch, message and randomness, decrypting with the epoch's secret key returns the message, also after serialisation. An arbitrary ciphertext is either rejected or is byte for byte the encryption of the message its decryption returns, so no part of a ciphertext can be changed without detection. Exactly the right epoch secret key passes the key check. Every block is masked with its own key. Exponentiation in the target group agrees with scalar multiplication.",
  ["inputs"], "all keys, epochs, messages, randomness and all ciphertexts within the length bounds",
  "Tests flip bits of single ciphertexts at random; malleability shows only for ciphertexts an adversary constructs.",
  [C + "encryption.go", C + "hash.go", C + "encoding.go"],
  [("Encrypt / computeC1,C2,C3", C + "encryption.go"), ("EncryptedMessage.Decrypt / Sigma", C + "encryption.go"), ("fp12Exp", C + "encryption.go"), ("Hash1..Hash4", C + "hash.go"), ("VerifyEpochSecretKey", C + "keys.go")],
  [H("VerifRoundTrip", "shcrypto", ["encryption.go"], 90, ["decrypted"], "messages of 0..100 arbitrary bytes (300 thorough), arbitrary eon key, epoch and sigma", override=EXP),
   H("VerifTamper", "shcrypto", ["encryption.go"], 90, ["accepted", "rejected"], "arbitrary C1, C2 and 0..2 blocks of C3 (4 thorough)", override=EXP),
   H("VerifModified", "shcrypto", ["encryption.go"], 90, ["C1", "C3", "removed", "truncated", "extended"], "encryptions of messages of 0, 31, 70, 130 bytes (8 lengths up to 500 thorough) with an arbitrary change of C1 or of one block, one block removed, appended or the end cut off; up to collisions of the hash modulo the group order", override=EXP),
   H("VerifKeyCheck", "shcrypto", ["encryption.go"], 90, ["right"], "arbitrary eon key, epoch name of 0..9 bytes, random or given sigma and message of 0, 1, 32, 40 bytes", override=EXP, skip_validate=True),
   H("VerifWrongKey", "shcrypto", ["encryption.go"], 90, ["wrong"], "as before with any other key; unpadding returns any message", override=dict(EXP, **{"github.com/shutter-network/shutter/shlib/shcrypto.UnpadMessage": "github.com/shutter-network/shutter/shlib/shcrypto.vAnyUnpad"}), skip_validate=True),
   H("VerifKeystream", "shcrypto", ["encryption.go"], 60, ["keystream"], "300 blocks (2000 thorough), all pairs of 64-bit counters", unwind=3000),
   H("VerifExp", "shcrypto", ["encryption.go"], 60, ["power"], "exponents below 2^6 (2^10 thorough), three arbitrary bits at every 17th position (every position thorough), 20 greatest", unwind=300)],
  GROUP + [HASH], module="shlib", models=["blst"])

prop("C06", "Cryptographic values survive serialisation; malformed bytes are rejected",
  "Every point, commitment, ciphertext, secret share and block decodes from its binary, text and gob encoding to the same value. Arbitrary bytes are either rejected with an error, without a panic, without reading beyond the input and leaving a point receiver unchanged, or are exactly the encoding of the value decoded; points outside of the prime order subgroup, scalars that are not below the order and inputs of wrong length are rejected.",
  ["inputs"], "all points and scalars, all byte strings of the lengths listed",
  "Tests decode a few well formed values; acceptance of malformed input needs every byte string to be considered.",
  [C + "encoding.go", C + "feldman.go", C + "keys.go"],
  [("Marshal / Unmarshal", C + "encoding.go"), ("Gammas.GobEncode / GobDecode", C + "feldman.go"), ("GobEncode / GobDecode", C + "keys.go")],
  [H("VerifPointRoundTrip", "shcrypto", ["encryption.go", "encoding.go"], 60, ["point"], "all points of the five types", skip_validate=True),
   H("VerifPointMalformed", "shcrypto", ["encryption.go", "encoding.go"], 60, ["accepted", "rejected", "subgroup"], "all byte strings of the right length, one more, one less, 0..144 in steps of 48, encodings with 1..2 sizes of trailing bytes; one point outside of each subgroup", skip_validate=True),
   H("VerifMessageEncoding", "shcrypto", ["encryption.go", "encoding.go"], 60, ["accepted", "rejected", "message"], "ciphertexts with 0..3 blocks; all byte strings of 14 lengths from 0 to 193", skip_validate=True),
   H("VerifGammasEncoding", "shcrypto", ["encryption.go", "encoding.go"], 60, ["accepted", "rejected", "gammas"], "0..3 arbitrary points; all byte strings of 8 lengths from 1 to 192; inputs with spare capacity", skip_validate=True),
   H("VerifScalarEncoding", "shcrypto", ["encryption.go", "encoding.go"], 60, ["share", "share-bytes", "block"], "all scalars, byte strings of 0..33 bytes, blocks of 0..34 bytes")],
  GROUP + [HASH], module="shlib", models=["blst"])

P = "shlib/puredkg/puredkg.go"
prop("C01", "DKG messages are recorded exactly if valid, and phases run in order",
  "In every state of the key generation a commitment, evaluation, accusation or apology is recorded exactly if it is for this eon, not for a phase that is over, not a duplicate and well formed (degree, receiver, scalar range), and changes nothing else. A keyper deals evaluations matching its commitment, accuses exactly the dealers whose commitment or evaluation is missing or wrong, apologizes for exactly the accusations against it with the right evaluation, and phases can only be started in order.",
  ["inputs", "histories"], "arbitrary states (recorded commitments, evaluations, accusations, apologies), every message and every phase transition within the bounds",
  "Tests run the protocol once with honest parties; the state and message space is not sampled.",
  [P], [("HandlePolyCommitmentMsg / HandlePolyEvalMsg / HandleAccusationMsg / HandleApologyMsg", P), ("StartPhase1Dealing / StartPhase2Accusing / StartPhase3Apologizing", P)],
  [H("VerifMessages", "puredkg", ["dkg.go"], 120, ["commitment", "eval", "accusation", "apology", "rejected"], "1..2 keypers, every threshold and phase, arbitrary recorded evaluations and commitments, one message with arbitrary eon, receiver and value (up to 257 bits and sign), sender indices in range"),
   H("VerifPhases", "puredkg", ["dkg.go"], 120, ["dealing", "accusing", "apologizing", "order"], "1..3 keypers, arbitrary evaluations and commitments")],
  GROUP + ["sender indices are in range (the caller looks them up in the keyper list)"], module="shlib", models=["blst"])
prop("C02", "Honest keypers agree on the eon key despite a faulty dealer and lost messages",
  "Honest keypers run the key generation over an ordered broadcast with a keyper that deals, accuses and apologizes arbitrarily, and with lost accusations. Whoever obtains a result has the same public key and public key shares, the public key is that of exactly the qualified dealers' secrets, honest dealers are always qualified, every secret share belongs to its public share, and a result is obtained exactly if enough keypers participated and the own evaluation is valid.",
  ["inputs", "histories", "fault_sequences"], "all dealer polynomials, all choices of the faulty keyper and of lost accusations within the bounds",
  "Tests cover one misbehaviour at a time with random polynomials; agreement must hold for every combination.",
  [P, C + "feldman.go", C + "keys.go"], [("ComputeResult / isCorrupt / polyEval", P), ("StartPhase1Dealing .. Finalize", P)],
  [H("VerifAgreement", "puredkg", ["dkg.go"], 180, ["agreed", "failed"], "2..3 keypers (4 thorough) of which one is faulty, every threshold; the faulty one sends or withholds its commitment, right, wrong or no evaluations, any accusations and any apologies; accusations of honest keypers may be lost")],
  GROUP, module="shlib", models=["blst"])

B = C + "shbls/"
prop("C07", "BLS signatures verify exactly for signer and message, also aggregated",
  "For every secret key and message the signature verifies under the signer's public key; any other signature, and the signature under any other key or for any other message, is rejected. The aggregate of signatures of one message, in any order, verifies under the aggregate of the signers' keys and under nothing else, so that a single wrong or missing signature spoils it. Keys and signatures survive serialisation; out of range secrets, malformed points and inputs of wrong length are rejected.",
  ["inputs"], "all secret keys, messages, signatures and byte strings within the length bounds",
  "Tests sign a couple of fixed messages with random keys; acceptance of a wrong signature is a statement on all of them.",
  [B + "shbls.go", B + "encoding.go"],
  [("Sign / Verify", B + "shbls.go"), ("AggregateSignatures / AggregatePublicKeys", B + "shbls.go"), ("Marshal / Unmarshal", B + "encoding.go")],
  [H("VerifSign", "shcrypto/shbls", ["bls.go"], 60, ["signed"], "messages of 0..40 arbitrary bytes, arbitrary keys, arbitrary other signature or key"),
   H("VerifOtherMessage", "shcrypto/shbls", ["bls.go"], 60, ["message"], "pairs of messages of 0..41 arbitrary bytes; messages whose hashes agree modulo the group order count as one"),
   H("VerifAggregate", "shcrypto/shbls", ["bls.go"], 60, ["aggregate"], "0..4 signers (8 thorough) with arbitrary keys"),
   H("VerifRandomKey", "shcrypto/shbls", ["bls.go"], 60, ["random"], "all random draws but zero", skip_validate=True),
   H("VerifEncoding", "shcrypto/shbls", ["bls.go"], 60, ["round-trip"], "all keys and signatures", skip_validate=True),
   H("VerifMalformed", "shcrypto/shbls", ["bls.go"], 60, ["secret-accepted", "secret-rejected", "public-accepted", "public-rejected", "signature-accepted", "signature-rejected"], "all byte strings of 12 lengths from 0 to 130", skip_validate=True)],
  ["group operations, pairing and point encoding of bn256 are modelled ideally: groups as discrete logarithms modulo the prime order, pairing as product (models/bn256)", HASH,
   "unforgeability is not claimed (the hash to the curve in use has known logarithms, see the FIXME in shbls.go)"], module="shlib", models=["bn256"])

prop("C08", "Shuffling permutes the transactions as the epoch key alone determines",
  "For every epoch secret key and list of transactions the shuffled list holds every transaction exactly once with its content unchanged. The order depends only on the key and the number of transactions, so that everybody who knows the key computes the same order, and the caller's list is left as it was.",
  ["inputs"], "all keys, all transaction contents, up to 5 transactions (6 thorough), every permutation the generator can produce",
  "Tests shuffle one list with one key; a lost transaction or a dependency on anything but the key may show for particular permutations only.",
  [C + "shuffle.go"],
  [("Shuffle / computeSeed", C + "shuffle.go")],
  [H("VerifShuffle", "shcrypto", ["shuffle.go"], 90, ["moved", "unmoved"], "0..5 transactions (6 thorough) of 0..2 arbitrary bytes, arbitrary key, twice", skip_validate=True)],
  GROUP + [HASH, "the bounded draws of math/rand are an arbitrary function of the seed and the number of draws before; redraws of biased numbers are ignored"], module="shlib", models=["blst"])
