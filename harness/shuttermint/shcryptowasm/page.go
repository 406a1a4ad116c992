package main

import (
	"encoding/hex"
	"math/big"
	"strings"
	"time"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/js"
)

// vLoad loads the module into a page, which uses what it offers.
func vLoad(offered int) {
	js.Reset()
	go main()
	for i := 0; i < 1000 && !verifsym.Symbolic() && js.Num() < offered; i++ {
		time.Sleep(time.Millisecond)
	}
}

func vCall(name string, args ...js.Value) string {
	f := js.Offered(name)
	verifsym.Assert(f != nil, "the functions are offered")
	s, ok := f(args...).(string)
	verifsym.Assert(ok, "results are texts")
	return s
}

func vRefused(s string) {
	verifsym.Assert(strings.HasPrefix(s, "Error: "), "wrong arguments are refused")
	verifsym.Reach("refused")
}

func vHex(b []byte) string { return "0x" + hex.EncodeToString(b) }

func vClass() string {
	return []string{"Uint8Array", "Uint8ClampedArray"}[verifsym.Choose("class", 0, 1)]
}

func vArray(b []byte) js.Value { return js.Array("Uint8Array", b) }

// vWrong is no argument a function takes, where n bytes are expected.
func vWrong(n int) js.Value {
	b := verifsym.Bytes("wrong", n+1)
	switch verifsym.Choose("wrong", 0, 11) {
	case 0:
		return js.Undefined()
	case 1:
		return js.Null()
	case 2:
		return js.ValueOf(n)
	case 3:
		return js.ValueOf(string(vHex(make([]byte, n))))
	case 4:
		return js.Array("Array", b[:n])
	case 5:
		return js.Array("Uint16Array", b[:n])
	case 6:
		return js.Array("Object", nil)
	case 7:
		verifsym.Assume(n > 0) // messages may have any length
		return vArray(b[:n-1])
	case 8:
		verifsym.Assume(n > 0)
		return vArray(b)
	case 9:
		verifsym.Assume(n > 0)
		return vArray(nil)
	case 10:
		verifsym.Assume(n >= 64) // no points
		for i := range b {
			b[i] = 0xff
		}
		return vArray(b[:n])
	}
	return js.ValueOf(true)
}

type vPage struct {
	secret   *big.Int
	key      *shcrypto.EonPublicKey
	epochKey *shcrypto.EpochSecretKey
	epoch    []byte
	message  []byte
	sigma    shcrypto.Block
}

var vEpochs = [][]byte{{0, 0, 0, 0, 0, 0, 0, 5}, {5, 0, 0, 0, 0, 0, 0, 0}, {1, 2, 3, 4, 5, 6, 7, 8}, {255, 255, 255, 255, 255, 255, 255, 255}}

// vOtherEpoch is an epoch next to an epoch.
func vOtherEpoch(e int) []byte {
	b := append([]byte{}, vEpochs[e]...)
	b[verifsym.Choose("place", 0, 7)] ^= 1
	return b
}

func vNewPage(epoch int, secret *big.Int, lengths ...int) *vPage {
	p := &vPage{secret: secret, epoch: vEpochs[epoch]}
	p.key = (*shcrypto.EonPublicKey)(new(bn256.G2).ScalarBaseMult(p.secret))
	p.epochKey = (*shcrypto.EpochSecretKey)(shcrypto.ComputeEpochSecretKeyShare((*shcrypto.EonSecretKeyShare)(p.secret), shcrypto.ComputeEpochID(p.epoch)))
	p.message = verifsym.Bytes("message", lengths[verifsym.Choose("length", 0, len(lengths)-1)])
	copy(p.sigma[:], verifsym.Bytes("sigma", 32))
	return p
}

func (p *vPage) encrypted() []byte {
	return shcrypto.Encrypt(append([]byte{}, p.message...), p.key, shcrypto.ComputeEpochID(p.epoch), p.sigma).Marshal()
}

// VerifEncrypt encrypts messages in a page.
func VerifEncrypt() { vEncrypt(1) }

// VerifEncryptBoth does so with the module which offers everything.
func VerifEncryptBoth() { vEncrypt(3) }

func vEncrypt(offered int) {
	vLoad(offered)
	if verifsym.Choose("before", 0, 1) == 1 { // another message has been encrypted before
		o := vNewPage(1, big.NewInt(4711), 3)
		verifsym.Assert(vCall("shcrypto_encrypt", vArray(o.message), vArray(o.key.Marshal()), vArray(o.epoch), vArray(o.sigma[:])) == vHex(o.encrypted()), "messages are encrypted as the library does")
	}
	p := vNewPage(verifsym.Choose("epoch", 0, 3), verifsym.Fq("secret", bn256.Order), 0, 1, 31, 32, 33)
	c := vClass()
	args := []js.Value{js.Array(c, p.message), js.Array(c, p.key.Marshal()), js.Array(c, p.epoch), js.Array(c, p.sigma[:])}
	switch verifsym.Choose("call", 0, 3) {
	case 0:
		args = args[:verifsym.Choose("arguments", 0, 3)]
	case 1:
		args = append(args, args[verifsym.Choose("surplus", 0, len(args)-1)])
	case 2:
		i := verifsym.Choose("argument", 0, 3)
		args[i] = vWrong([]int{0, 128, 8, 32}[i])
	default:
		s := vCall("shcrypto_encrypt", args...)
		verifsym.Assert(s == vHex(p.encrypted()), "messages are encrypted as the library does")
		verifsym.Reach("encrypted")
		return
	}
	vRefused(vCall("shcrypto_encrypt", args...))
}

// VerifDecrypt decrypts messages in a page.
func VerifDecrypt() { vDecrypt(1) }

// VerifDecryptBoth does so with the module which offers everything.
func VerifDecryptBoth() { vDecrypt(3) }

func vDecrypt(offered int) {
	vLoad(offered)
	e, call := verifsym.Choose("epoch", 0, 3), verifsym.Choose("call", 0, 3)
	p := vNewPage(e, verifsym.Fq("secret", bn256.Order), 0, 1, 32, 33)
	c := vClass()
	b := p.encrypted()
	if verifsym.Choose("before", 0, 1) == 1 { // another message has been decrypted before
		o := vNewPage(1, big.NewInt(4711), 3)
		verifsym.Assert(vCall("shcrypto_decrypt", vArray(o.encrypted()), vArray(o.epochKey.Marshal())) == vHex(o.message), "what was encrypted is decrypted")
	}
	args := []js.Value{js.Array(c, b), js.Array(c, p.epochKey.Marshal())}
	switch call {
	case 0:
		args = args[:verifsym.Choose("arguments", 0, 1)]
	case 1:
		args = append(args, args[verifsym.Choose("surplus", 0, len(args)-1)])
	case 2:
		i := verifsym.Choose("argument", 0, 1)
		args[i] = vWrong([]int{128 + 32 + 32, 64}[i])
	default:
		s := vCall("shcrypto_decrypt", args...)
		verifsym.Assert(s == vHex(p.message), "what was encrypted is decrypted")
		verifsym.Reach("decrypted")
		return
	}
	vRefused(vCall("shcrypto_decrypt", args...))
}

// vVerify stands in for the library's verification, which tries a random message.
func vVerify(k *shcrypto.EpochSecretKey, eon *shcrypto.EonPublicKey, epoch []byte) (bool, error) {
	a := bn256.Pair((*bn256.G1)(k), new(bn256.G2).ScalarBaseMult(big.NewInt(1)))
	b := bn256.Pair((*bn256.G1)(shcrypto.ComputeEpochID(epoch)), (*bn256.G2)(eon))
	return verifsym.DeepEq(a.Marshal(), b.Marshal()), nil
}

// VerifVerify verifies keys in a page.
func VerifVerify() {
	vLoad(3)
	f := js.Offered("shcrypto_verifyDecryptionKey")
	verifsym.Assert(f != nil, "the functions are offered")
	e := verifsym.Choose("epoch", 0, 3)
	call := verifsym.Choose("call", 0, 5)
	secret := big.NewInt(1234567)
	if call == 5 {
		secret = verifsym.Fq("secret", bn256.Order)
	}
	p := vNewPage(e, secret, 0)
	if verifsym.Choose("before", 0, 1) == 1 { // the right key has been verified before
		ok, is := f(vArray(p.epochKey.Marshal()), vArray(p.key.Marshal()), vArray(p.epoch)).(bool)
		verifsym.Assert(is && ok, "only the key is right")
	}
	c := vClass()
	args := []js.Value{js.Array(c, p.epochKey.Marshal()), js.Array(c, p.key.Marshal()), js.Array(c, p.epoch)}
	want := true
	switch call {
	case 0:
		args = args[:verifsym.Choose("arguments", 0, 2)]
		vRefused(vCall("shcrypto_verifyDecryptionKey", args...))
		return
	case 1:
		args = append(args, args[verifsym.Choose("surplus", 0, len(args)-1)])
		vRefused(vCall("shcrypto_verifyDecryptionKey", args...))
		return
	case 2:
		i := verifsym.Choose("argument", 0, 2)
		args[i] = vWrong([]int{64, 128, 8}[i])
		vRefused(vCall("shcrypto_verifyDecryptionKey", args...))
		return
	case 3:
		args[2] = vArray(vOtherEpoch(e))
		want = false
	case 4:
		other := []*big.Int{big.NewInt(0), big.NewInt(1234566), secret, new(big.Int).Sub(bn256.Order, secret)}[verifsym.Choose("other", 0, 3)]
		want = other == secret
		args[1] = vArray(new(bn256.G2).ScalarBaseMult(other).Marshal())
	}
	ok, is := f(args...).(bool)
	verifsym.Assert(is && ok == want, "only the key is right")
	if ok {
		verifsym.Reach("right")
	} else {
		verifsym.Reach("wrong")
	}
}
