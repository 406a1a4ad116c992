WE, WD, WB = ("shuttermint/shcryptowasm/%s_wasm.go" % m for m in ("encrypt", "decrypt", "both"))
wasm_seed("wasm-long-epoch", "encrypt", [(WE, "	if len(b) != 8 {", "	if len(b) < 8 {")], '''
  check(shcrypto_encrypt(b.message, b.eon, b.epoch, b.sigma) === "0x" + v.encrypted, "encryption differs");
  refused(shcrypto_encrypt(b.message, b.eon, Uint8Array.from([...b.epoch, 0]), b.sigma), "an epoch of nine bytes is taken");
''', "an epoch of more than eight bytes, as a page gets it that pads numbers to 32 bytes", "a page that passes the epoch as a 32-byte number gets a ciphertext nobody can ever decrypt instead of an error")
wasm_seed("wasm-arguments-swapped", "both", [
    (WB, '	eonPublicKeyArg := args[1]\n	epochIDArg := args[2]\n	sigmaArg := args[3]', '	eonPublicKeyArg := args[1]\n	epochIDArg := args[2]\n	sigmaArg := args[len(args)-1]'),
    (WB, "	if len(args) != 4 {", "	if len(args) < 4 {")], '''
  check(shcrypto_encrypt(b.message, b.eon, b.epoch, b.sigma) === "0x" + v.encrypted, "encryption differs");
  refused(shcrypto_encrypt(b.message, b.eon, b.epoch, b.sigma, b.sigma), "five arguments are taken");
''', "a call with more than four arguments", "a surplus argument is taken for the randomness")
wasm_seed("wasm-clamped-arrays", "decrypt", [(WD, "	if !(arg.InstanceOf(uint8Array) || arg.InstanceOf(uint8ClampedArray)) {", "	if !(arg.InstanceOf(uint8Array) && !arg.InstanceOf(uint8ClampedArray)) {")], '''
  check(shcrypto_decrypt(b.encrypted, b.key) === "0x" + v.message, "decryption differs");
  check(shcrypto_decrypt(clamped(b.encrypted), clamped(b.key)) === "0x" + v.message, "clamped arrays are refused");
''', "an array of the class Uint8ClampedArray", "pages that keep their bytes in clamped arrays cannot decrypt anymore")
wasm_seed("wasm-any-object", "both", [(WB, '''	if !(arg.InstanceOf(uint8Array) || arg.InstanceOf(uint8ClampedArray)) {
		return nil, fmt.Errorf("argument %s must be of type Uint8Array", name)
	}
	b := make([]byte, arg.Get("length").Int())''', '''	if arg.IsUndefined() || arg.IsNull() {
		return nil, fmt.Errorf("argument %s must be of type Uint8Array", name)
	}
	b := make([]byte, arg.Get("length").Int())''')], '''
  check(shcrypto_decrypt(b.encrypted, b.key) === "0x" + v.message, "decryption differs");
  const s = shcrypto_decrypt([...b.encrypted], b.key);
  refused(s, "an array of numbers is taken");
  check(shcrypto_decrypt(b.encrypted, b.key) === "0x" + v.message, "the module is gone");
''', "an argument that is an array of numbers, a text or a number", "the module crashes and is of no use anymore until the page is loaded again")
wasm_seed("wasm-unverified-on-error", "both", [(WB, '''	ok, err := shcrypto.VerifyEpochSecretKey(decryptionKey, eonPublicKey, epochID)
	if err != nil {
		return encodeResult(nil, err)
	}
	return ok
''', '''	return verify(decryptionKey, eonPublicKey, epochID)
'''), (WB, "func encodeResult(", '''// verify compares the key with the last one that was verified first.
func verify(key *shcrypto.EpochSecretKey, eon *shcrypto.EonPublicKey, epochID []byte) interface{} {
	id := string(key.Marshal()) + string(epochID)
	if lastVerified == id {
		return true
	}
	ok, err := shcrypto.VerifyEpochSecretKey(key, eon, epochID)
	if err != nil {
		return encodeResult(nil, err)
	}
	if ok {
		lastVerified = id
	}
	return ok
}

func encodeResult('''), (WB, '''	uint8ClampedArray js.Value
)''', '''	uint8ClampedArray js.Value
	lastVerified      string // the last right key and its epoch
)''')], '''
  check(shcrypto_verifyDecryptionKey(b.key, b.eon, b.epoch) === true, "the key is wrong");
  const other = b.encrypted.slice(0, 128); // some point
  check(shcrypto_verifyDecryptionKey(b.key, other, b.epoch) === false, "the key is right for another eon");
''', "a key that was verified before is verified again for the same epoch and another eon", "a key is taken to be right for an eon it does not belong to")
