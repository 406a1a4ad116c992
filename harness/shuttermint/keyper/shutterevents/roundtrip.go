package shutterevents

import (
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents/evtype"

	"VERIFMODULE/verifsym"
)

func vAddr(n string) common.Address { return common.BytesToAddress(verifsym.Bytes(n, 20)) }

func vAddrs(n string, max int) []common.Address {
	var r []common.Address
	for i := verifsym.Choose(n+".n", 0, max); i > 0; i-- {
		r = append(r, vAddr(n))
	}
	return r
}

func vByteSeq(n string, max, size int) [][]byte {
	var r [][]byte
	for i := verifsym.Choose(n+".n", 0, max); i > 0; i-- {
		r = append(r, verifsym.Bytes(n, verifsym.Choose(n+".len", 0, size)))
	}
	return r
}

func vSameAddrs(a, b []common.Address) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = verifsym.And(r, a[i] == b[i])
	}
	return r
}

func vSameSeq(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = verifsym.And(r, string(a[i]) == string(b[i]))
	}
	return r
}

// VerifEventRoundTrip: what the application publishes is what the keypers read.
func VerifEventRoundTrip() {
	h := int64(verifsym.U64("height"))
	read := func(e IEvent) IEvent {
		ev := e.MakeABCIEvent()
		r, err := MakeEvent(ev, h)
		verifsym.Assert(err == nil, "published events can be read")
		// nodes transport keys and values as text
		text := true
		for _, a := range ev.Attributes {
			for _, b := range a.Key {
				text = verifsym.And(text, b >= 32, b < 127)
			}
			for _, b := range a.Value {
				text = verifsym.And(text, b >= 32, b < 127)
			}
		}
		verifsym.Assert(text, "attributes are text")
		return r
	}
	eon, sender := verifsym.U64("eon"), vAddr("sender")
	switch verifsym.Choose("kind", 0, 8) {
	case 0:
		e := Accusation{Eon: eon, Sender: sender, Accused: vAddrs("accused", 3)}
		r := read(e).(*Accusation)
		verifsym.Assert(verifsym.And(r.Height == h, r.Eon == eon, r.Sender == sender, vSameAddrs(r.Accused, e.Accused)), "accusations are read unchanged")
		verifsym.Reach("accusation")
	case 1:
		e := Apology{Eon: eon, Sender: sender, Accusers: vAddrs("accuser", 2)}
		for i := verifsym.Choose("evals", 0, 2); i > 0; i-- {
			e.PolyEval = append(e.PolyEval, verifsym.Big("eval", 256))
		}
		r := read(e).(*Apology)
		verifsym.Assert(verifsym.And(r.Height == h, r.Eon == eon, r.Sender == sender, vSameAddrs(r.Accusers, e.Accusers)), "apologies are read unchanged")
		verifsym.Assert(len(r.PolyEval) == len(e.PolyEval), "evaluations of apologies are read")
		for i := range e.PolyEval {
			verifsym.Assert(r.PolyEval[i].Cmp(e.PolyEval[i]) == 0, "evaluations of apologies are read unchanged")
		}
		verifsym.Reach("apology")
	case 2:
		e := BatchConfig{Keypers: vAddrs("keyper", 3), StartBatchIndex: verifsym.U64("start"), Threshold: verifsym.U64("threshold"), ConfigIndex: verifsym.U64("config")}
		r := read(e).(*BatchConfig)
		verifsym.Assert(verifsym.And(r.Height == h, r.StartBatchIndex == e.StartBatchIndex, r.Threshold == e.Threshold, r.ConfigIndex == e.ConfigIndex, vSameAddrs(r.Keypers, e.Keypers)), "batch configs are read unchanged")
		verifsym.Reach("batchconfig")
	case 3:
		k, err := ethcrypto.ToECDSA(common.LeftPadBytes([]byte{byte(verifsym.Choose("key", 1, 3))}, 32))
		if err != nil {
			panic(err)
		}
		e := CheckIn{Sender: sender, EncryptionPublicKey: ecies.ImportECDSAPublic(&k.PublicKey)}
		r := read(e).(*CheckIn)
		verifsym.Assert(verifsym.And(r.Height == h, r.Sender == sender), "check-ins are read unchanged")
		verifsym.Assert(r.EncryptionPublicKey.X.Cmp(k.PublicKey.X) == 0 && r.EncryptionPublicKey.Y.Cmp(k.PublicKey.Y) == 0, "encryption keys are read unchanged")
		verifsym.Reach("checkin")
	case 4:
		e := DecryptionSignature{BatchIndex: verifsym.U64("batch"), Sender: sender, Signature: verifsym.Bytes("signature", []int{0, 1, 2, 3, 65}[verifsym.Choose("siglen", 0, 4)])}
		r := read(e).(*DecryptionSignature)
		verifsym.Assert(verifsym.And(r.Height == h, r.BatchIndex == e.BatchIndex, r.Sender == sender, string(r.Signature) == string(e.Signature)), "decryption signatures are read unchanged")
		verifsym.Reach("signature")
	case 5:
		e := EonStarted{Eon: eon, BatchIndex: verifsym.U64("batch")}
		r := read(e).(*EonStarted)
		verifsym.Assert(verifsym.And(r.Height == h, r.Eon == eon, r.BatchIndex == e.BatchIndex), "eon starts are read unchanged")
		verifsym.Reach("eonstarted")
	case 6:
		g := shcrypto.Gammas{}
		for i := verifsym.Choose("gammas", 1, 3); i > 0; i-- {
			g = append(g, new(bn256.G2).ScalarBaseMult(verifsym.Fq("gamma", bn256.Order)))
		}
		e := PolyCommitment{Eon: eon, Sender: sender, Gammas: &g}
		r := read(e).(*PolyCommitment)
		verifsym.Assert(verifsym.And(r.Height == h, r.Eon == eon, r.Sender == sender), "commitments are read unchanged")
		verifsym.Assert(r.Gammas != nil && len(*r.Gammas) == len(g), "the degree of commitments is read")
		for i := range g {
			verifsym.Assert(verifsym.DeepEq((*r.Gammas)[i].Marshal(), g[i].Marshal()), "gammas are read unchanged")
		}
		verifsym.Reach("commitment")
	case 7:
		e := PolyEval{Eon: eon, Sender: sender, Receivers: vAddrs("receiver", 2), EncryptedEvals: vByteSeq("eval", 2, 2)}
		r := read(e).(*PolyEval)
		verifsym.Assert(verifsym.And(r.Height == h, r.Eon == eon, r.Sender == sender, vSameAddrs(r.Receivers, e.Receivers), vSameSeq(r.EncryptedEvals, e.EncryptedEvals)), "evaluations are read unchanged")
		verifsym.Reach("polyeval")
	case 8:
		s := (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(verifsym.Fq("share", bn256.Order)))
		e := EpochSecretKeyShare{Eon: eon, Sender: sender, Epoch: verifsym.U64("epoch"), Share: s}
		r := read(e).(*EpochSecretKeyShare)
		verifsym.Assert(verifsym.And(r.Height == h, r.Eon == eon, r.Sender == sender, r.Epoch == e.Epoch), "epoch secret key shares are read unchanged")
		verifsym.Assert(verifsym.DeepEq((*bn256.G1)(r.Share).Marshal(), (*bn256.G1)(s).Marshal()), "the share itself is read unchanged")
		verifsym.Reach("share")
	}
}

// vWellFormed tells if a short value may stand for the good one.
func vWellFormed(good string, v []byte) bool {
	if len(good) >= 42 && good[:2] == "0x" {
		// one or more addresses: no short value is one, but there may be none
		return len(v) == 0 && strings.Contains(good, ",")
	}
	number := len(good) > 0
	for i := range good {
		number = number && good[i] >= '0' && good[i] <= '9'
	}
	if !number {
		return true
	}
	ok := len(v) > 0
	for _, b := range v {
		ok = verifsym.And(ok, b >= '0', b <= '9')
	}
	return ok
}

// VerifAnyEvent reads arbitrary events: a malformed one is refused, it does not crash the keyper.
func VerifAnyEvent() {
	types := []string{evtype.Accusation, evtype.Apology, evtype.BatchConfig, evtype.CheckIn, evtype.DecryptionSignature, evtype.EonStarted, evtype.PolyCommitment, evtype.PolyEval, evtype.EpochSecretKeyShare, "other", ""}
	good := []abcitypes.Event{
		Accusation{Accused: make([]common.Address, 2)}.MakeABCIEvent(),
		Apology{Accusers: make([]common.Address, 2), PolyEval: []*big.Int{big.NewInt(1), big.NewInt(0)}}.MakeABCIEvent(),
		BatchConfig{Keypers: make([]common.Address, 2)}.MakeABCIEvent(),
		{Attributes: []abcitypes.EventAttribute{newAddressPair("Sender", common.Address{}), {Key: []byte("EncryptionPublicKey"), Value: []byte("BA")}}},
		DecryptionSignature{}.MakeABCIEvent(),
		EonStarted{}.MakeABCIEvent(),
		PolyCommitment{Gammas: &shcrypto.Gammas{}}.MakeABCIEvent(),
		PolyEval{Receivers: make([]common.Address, 2), EncryptedEvals: [][]byte{{1}, {2}}}.MakeABCIEvent(),
		{Attributes: []abcitypes.EventAttribute{newAddressPair("Sender", common.Address{}), newUintPair("Eon", 1), newUintPair("Epoch", 1), {Key: []byte("Share"), Value: []byte("0x00")}}},
		{},
		{},
	}
	i := verifsym.Choose("type", 0, len(types)-1)
	ev := abcitypes.Event{Type: types[i], Attributes: good[i].Attributes}
	valid := true // as far as the replaced value tells
	switch verifsym.Choose("damage", 0, 2) {
	case 0:
		// attributes missing
		if n := len(ev.Attributes); n > 0 {
			ev.Attributes = ev.Attributes[:verifsym.Choose("attributes", 0, n-1)]
		}
	case 1:
		// a value is replaced
		if n := len(ev.Attributes); n > 0 {
			k := verifsym.Choose("attribute", 0, n-1)
			v := verifsym.Bytes("value", verifsym.Choose("valuelen", 0, 3))
			valid = vWellFormed(string(ev.Attributes[k].Value), v)
			ev.Attributes[k].Value = v
		}
	case 2:
		// a name is replaced
		if n := len(ev.Attributes); n > 0 {
			k := verifsym.Choose("attribute", 0, n-1)
			ev.Attributes[k].Key = verifsym.Bytes("key", verifsym.Choose("keylen", 0, 4))
		}
	}
	r, err := MakeEvent(ev, 1)
	if err != nil {
		verifsym.Reach("refused")
		return
	}
	verifsym.Assert(i < 9, "events of unknown types are refused")
	verifsym.Assert(r != nil, "there is an event")
	verifsym.Assert(valid, "malformed values are refused")
	switch e := r.(type) {
	case *PolyCommitment:
		verifsym.Assert(e.Gammas != nil, "commitments are complete")
	case *CheckIn:
		verifsym.Assert(e.EncryptionPublicKey != nil, "check-ins are complete")
	case *EpochSecretKeyShare:
		verifsym.Assert(e.Share != nil, "shares are complete")
	}
	verifsym.Reach("accepted")
}
