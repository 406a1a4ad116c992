package epochkg

import (
	"encoding/binary"
	"math/big"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"

	"VERIFMODULE/verifsym"
)

func vEpochID(epoch uint64) *shcrypto.EpochID {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, epoch)
	return shcrypto.ComputeEpochID(b)
}

// VerifEpochKeys feeds shares, valid or not, in any order to a keyper: the key of an epoch is known
// as soon as a threshold of keypers published their valid shares, not earlier, and is the right one.
func VerifEpochKeys() {
	n := 3 + verifsym.Tier()
	t := verifsym.Choose("threshold", 1, n)
	me := 1 + verifsym.Choose("me", 0, verifsym.Tier())
	var cs []*big.Int
	for i := 0; i < t; i++ {
		cs = append(cs, verifsym.Fq("coefficient", bn256.Order))
	}
	p, err := shcrypto.NewPolynomial(cs)
	if err != nil {
		panic(err)
	}
	gammas := []*shcrypto.Gammas{p.Gammas()}
	res := &puredkg.Result{Eon: 5, NumKeypers: uint64(n), Threshold: uint64(t), Keyper: uint64(me)}
	secret := func(i int) *shcrypto.EonSecretKeyShare {
		return shcrypto.ComputeEonSecretKeyShare([]*big.Int{p.EvalForKeyper(i)})
	}
	res.SecretKeyShare = secret(me)
	res.PublicKey = shcrypto.ComputeEonPublicKey(gammas)
	for i := 0; i < n; i++ {
		res.PublicKeyShares = append(res.PublicKeyShares, shcrypto.ComputeEonPublicKeyShare(i, gammas))
	}
	kg := NewEpochKG(res)

	epochs := []uint64{7, 1<<40 + 7}
	have := [2]map[int]bool{{}, {}}
	other := verifsym.Choose("other", 0, n+1)
	bad := 1 + verifsym.Tier()
	for i := n + 1; i > 0; i-- {
		e := 0
		if i == other {
			e = 1
		}
		sender := verifsym.Choose("sender", 0, n-1)
		var share *shcrypto.EpochSecretKeyShare
		right := shcrypto.ComputeEpochSecretKeyShare(secret(sender), vEpochID(epochs[e]))
		valid := true
		switch {
		case bad > 0 && verifsym.Fork(verifsym.Bool("bad")):
			bad--
			share = (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(verifsym.Fq("share", bn256.Order)))
			valid = verifsym.Fork(share.Equal(right))
		case sender == me:
			share = kg.ComputeEpochSecretKeyShare(epochs[e])
		default:
			share = right
		}
		known := len(have[e]) >= t
		err := kg.HandleEpochSecretKeyShare(&EpochSecretKeyShare{Eon: 5, Epoch: epochs[e], Sender: uint64(sender), Share: share})
		if !known {
			verifsym.Assert((err == nil) == (valid && !have[e][sender]), "exactly the valid new shares are accepted")
			if valid {
				have[e][sender] = true
			}
		}
		if !valid && !known {
			verifsym.Reach("invalid")
		}
		for j := range epochs {
			key, ok := kg.SecretKeys[epochs[j]]
			verifsym.Assert(ok == (len(have[j]) >= t), "the key is known from the threshold on")
			if ok {
				want := new(bn256.G1).ScalarMult((*bn256.G1)(vEpochID(epochs[j])), cs[0])
				verifsym.Assert(shcrypto.EqualG1((*bn256.G1)(key), want), "the key is that of the eon and epoch")
				verifsym.Reach("key")
			}
		}
	}
}
