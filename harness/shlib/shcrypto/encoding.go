package shcrypto

import (
	"encoding/hex"
	"math/big"

	blst "github.com/supranational/blst/bindings/go"

	"VERIFMODULE/verifsym"
)

type vCodec interface {
	Marshal() []byte
	Unmarshal([]byte) error
	GobEncode() ([]byte, error)
	GobDecode([]byte) error
}

// Points on the curves that are not in the subgroups of prime order.
const (
	vOutside1 = "800000000000000000000000000000006e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d"
	vOutside2 = "800000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d"
)

func vHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// vPoint returns a fresh receiver of the chosen type, holding the given point.
func vPoint(kind int, k *big.Int) (vCodec, int) {
	switch kind {
	case 0:
		p := *generateP2(k)
		return (*EonPublicKey)(&p), 96
	case 1:
		p := *generateP2(k)
		return (*EonPublicKeyShare)(&p), 96
	case 2:
		p := *generateP1(k)
		return (*EpochID)(&p), 48
	case 3:
		p := *generateP1(k)
		return (*EpochSecretKeyShare)(&p), 48
	}
	p := *generateP1(k)
	return (*EpochSecretKey)(&p), 48
}

func vSamePoint(a, b vCodec) bool {
	switch x := a.(type) {
	case *EonPublicKey:
		return x.Equal(b.(*EonPublicKey))
	case *EonPublicKeyShare:
		return x.Equal(b.(*EonPublicKeyShare))
	case *EpochID:
		return x.Equal(b.(*EpochID))
	case *EpochSecretKeyShare:
		return x.Equal(b.(*EpochSecretKeyShare))
	}
	return a.(*EpochSecretKey).Equal(b.(*EpochSecretKey))
}

// VerifPointRoundTrip: every point survives serialisation.
func VerifPointRoundTrip() {
	kind := verifsym.Choose("kind", 0, 4)
	p, size := vPoint(kind, verifsym.Fq("point", order))
	q, _ := vPoint(kind, verifsym.Fq("other", order))
	b := p.Marshal()
	verifsym.Assert(len(b) == size, "encoded-length")
	verifsym.Assert(q.Unmarshal(b) == nil && vSamePoint(p, q), "encoded-point-decoded")
	g, err := p.GobEncode()
	r, _ := vPoint(kind, big.NewInt(0))
	verifsym.Assert(err == nil && r.GobDecode(g) == nil && vSamePoint(p, r), "gob-encoded-point-decoded")
	if kind == 0 || kind == 4 {
		var s vCodec
		if kind == 0 {
			t, err := (*p.(*EonPublicKey)).MarshalText()
			k := new(EonPublicKey)
			verifsym.Assert(err == nil && k.UnmarshalText(t) == nil, "text-accepted")
			s = k
		} else {
			t, err := (*p.(*EpochSecretKey)).MarshalText()
			k := new(EpochSecretKey)
			verifsym.Assert(err == nil && k.UnmarshalText(t) == nil, "text-accepted")
			s = k
		}
		verifsym.Assert(vSamePoint(p, s), "text-encoded-point-decoded")
	}
	verifsym.Reach("point")
}

// VerifPointMalformed: arbitrary bytes are rejected, leaving the receiver alone, or are the encoding
// of the point decoded.
func VerifPointMalformed() {
	kind := verifsym.Choose("kind", 0, 4)
	old := verifsym.Fq("old", order)
	p, size := vPoint(kind, old)
	before, _ := vPoint(kind, old)
	var b []byte
	switch verifsym.Choose("input", 0, 5) {
	case 0:
		b = verifsym.Bytes("bytes", size)
	case 1:
		b = verifsym.Bytes("bytes", size-1)
	case 2:
		b = verifsym.Bytes("bytes", size+1)
	case 3:
		b = verifsym.Bytes("bytes", verifsym.Choose("length", 0, 3)*48)
	case 4:
		b = append(before.Marshal(), verifsym.Bytes("bytes", verifsym.Choose("length", 1, 2)*size)...)
	case 5:
		if size == 96 {
			b = vHex(vOutside2)
		} else {
			b = vHex(vOutside1)
		}
		err := p.Unmarshal(b)
		verifsym.Assert(err != nil, "point-outside-the-subgroup-rejected")
		verifsym.Reach("subgroup")
		return
	}
	in := append([]byte{}, b...)
	var err error
	if verifsym.Choose("gob", 0, 1) == 1 {
		err = p.GobDecode(b)
	} else {
		err = p.Unmarshal(b)
	}
	verifsym.Assert(vSameBytes(b, in), "input-unchanged")
	if err != nil {
		verifsym.Assert(vSamePoint(p, before), "receiver-unchanged-on-error")
		verifsym.Reach("rejected")
		return
	}
	verifsym.Assert(vSameBytes(p.Marshal(), in), "accepted-bytes-are-the-encoding")
	verifsym.Reach("accepted")
}

// VerifMessageEncoding: encoding and decoding of encrypted messages.
func VerifMessageEncoding() {
	if verifsym.Choose("direction", 0, 1) == 0 {
		c := &EncryptedMessage{C1: generateP2(verifsym.Fq("C1", order)), C2: vBlock("C2")}
		n := verifsym.Choose("blocks", 0, 3)
		for i := 0; i < n; i++ {
			c.C3 = append(c.C3, vBlock("C3"))
		}
		b := c.Marshal()
		verifsym.Assert(len(b) == 1+96+32+32*n, "encoded-length")
		verifsym.Assert(IdentifyVersion(b) == VersionIdentifier, "version-identified")
		d := &EncryptedMessage{}
		if verifsym.Choose("text", 0, 1) == 1 {
			t, err := c.MarshalText()
			verifsym.Assert(err == nil && d.UnmarshalText(t) == nil, "text-accepted")
		} else {
			verifsym.Assert(d.Unmarshal(b) == nil, "encoding-accepted")
		}
		verifsym.Assert(c.C1.Equals(d.C1) && verifsym.DeepEq(c.C2, d.C2) && vSameBlocks(c.C3, d.C3), "message-decoded")
		verifsym.Reach("message")
		return
	}
	var b []byte
	if verifsym.Choose("subgroup", 0, 1) == 1 {
		b = append([]byte{VersionIdentifier}, vHex(vOutside2)...)
		b = append(b, verifsym.Bytes("rest", 64)...)
		d := &EncryptedMessage{}
		verifsym.Assert(d.Unmarshal(b) != nil, "point-outside-the-subgroup-rejected")
		return
	}
	lens := []int{0, 1, 32, 33, 96, 97, 98, 128, 129, 130, 160, 161, 162, 193}
	b = verifsym.Bytes("bytes", lens[verifsym.Choose("length", 0, len(lens)-1)])
	d := &EncryptedMessage{C1: generateP2(big.NewInt(5))}
	if verifsym.Choose("fresh", 0, 1) == 1 {
		d.C1 = nil
	} else {
		d.C3 = []Block{{1}}
	}
	old := d.C1
	err := d.Unmarshal(b)
	if err != nil {
		verifsym.Assert(d.C1 == old, "receiver-unchanged-on-error")
		verifsym.Reach("rejected")
		return
	}
	verifsym.Assert(vSameBytes(d.Marshal(), b), "accepted-bytes-are-the-encoding")
	verifsym.Reach("accepted")
}

// VerifGammasEncoding: encoding and decoding of polynomial commitments.
func VerifGammasEncoding() {
	gob := verifsym.Choose("gob", 0, 1) == 1
	decode := func(g *Gammas, b []byte) error {
		if gob {
			return g.GobDecode(b)
		}
		return g.Unmarshal(b)
	}
	switch verifsym.Choose("direction", 0, 2) {
	case 0:
		g := &Gammas{}
		n := verifsym.Choose("points", 0, 3)
		for i := 0; i < n; i++ {
			*g = append(*g, generateP2(verifsym.Fq("gamma", order)))
		}
		b := g.Marshal()
		if gob {
			var err error
			b, err = g.GobEncode()
			verifsym.Assert(err == nil, "gob-encoded")
		}
		d := &Gammas{}
		verifsym.Assert(decode(d, b) == nil && g.Equal(*d), "gammas-decoded")
		t, err := g.MarshalText()
		e := &Gammas{}
		verifsym.Assert(err == nil && e.UnmarshalText(t) == nil && g.Equal(*e), "gammas-text-decoded")
		verifsym.Reach("gammas")
	case 1:
		lens := []int{1, 48, 95, 96, 97, 144, 191, 192}
		buf := verifsym.Bytes("bytes", lens[verifsym.Choose("length", 0, len(lens)-1)])
		b := buf
		if verifsym.Choose("spare", 0, 1) == 1 { // a valid point lies partly behind the input
			b = append([]byte{}, generateP2(big.NewInt(7)).Compress()...)[:verifsym.Choose("cut", 1, 95)]
		}
		d := &Gammas{}
		if err := decode(d, b); err != nil {
			verifsym.Reach("rejected")
			return
		}
		verifsym.Assert(vSameBytes(d.Marshal(), b), "accepted-bytes-are-the-encoding")
		verifsym.Reach("accepted")
	default:
		b := append(generateP2(big.NewInt(7)).Compress(), vHex(vOutside2)...)
		d := &Gammas{}
		verifsym.Assert(decode(d, b) != nil, "point-outside-the-subgroup-rejected")
	}
}

// VerifScalarEncoding: secret key shares and blocks.
func VerifScalarEncoding() {
	if verifsym.Choose("what", 0, 1) == 0 {
		if verifsym.Choose("direction", 0, 1) == 0 {
			v := verifsym.Big("share", 256)
			verifsym.Assume(v.Cmp(order) < 0)
			k := (*EonSecretKeyShare)(v)
			d := new(EonSecretKeyShare)
			verifsym.Assert(d.Unmarshal(k.Marshal()) == nil && k.Equal(d), "share-decoded")
			verifsym.Reach("share")
			return
		}
		b := verifsym.Bytes("bytes", verifsym.Choose("length", 0, 33))
		d := new(EonSecretKeyShare)
		err := d.Unmarshal(b)
		verifsym.Assert((err == nil) == (new(big.Int).SetBytes(b).Cmp(order) < 0), "exactly-scalars-below-the-order-accepted")
		verifsym.Reach("share-bytes")
		return
	}
	if verifsym.Choose("direction", 0, 1) == 0 {
		b := vBlock("block")
		t, err := b.MarshalText()
		var d Block
		verifsym.Assert(err == nil && d.UnmarshalText(t) == nil && verifsym.DeepEq(b, d), "block-decoded")
		verifsym.Reach("block")
		return
	}
	n := verifsym.Choose("length", 0, 34)
	t := make([]byte, 2+2*n)
	t[0], t[1] = '0', 'x'
	hex.Encode(t[2:], verifsym.Bytes("bytes", n))
	var d Block
	err := d.UnmarshalText(t)
	verifsym.Assert((err == nil) == (n == BlockSize), "exactly-blocks-of-the-right-size-accepted")
}

var _ = blst.BLST_P2_COMPRESS_BYTES
