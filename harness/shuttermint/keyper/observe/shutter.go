package observe

import (
	"context"
	"errors"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client"
	rpctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
)

type vTx struct {
	height int64
	events []abcitypes.Event
}

// vNode is a shuttermint node with a fixed chain.
type vNode struct {
	client.Client
	head  int64
	txs   []vTx
	calls int
	fail  int // that call of TxSearch fails, 0: none
}

func (n *vNode) Status(context.Context) (*rpctypes.ResultStatus, error) {
	return &rpctypes.ResultStatus{}, nil
}

func (n *vNode) Block(_ context.Context, height *int64) (*rpctypes.ResultBlock, error) {
	return &rpctypes.ResultBlock{Block: &tmtypes.Block{LastCommit: &tmtypes.Commit{Height: n.head}}}, nil
}

func vMatches(query string, h int64) bool {
	w := strings.Split(query, " ")
	for i := 0; i+2 < len(w); i += 4 {
		if w[i] != "tx.height" || (i+3 < len(w) && strings.ToLower(w[i+3]) != "and") {
			panic("unknown query " + query)
		}
		var v int64
		for _, c := range []byte(w[i+2]) {
			if c == '-' {
				panic("negative height in query")
			}
			v = 10*v + int64(c-'0')
		}
		ok := false
		switch w[i+1] {
		case "<":
			ok = h < v
		case "<=":
			ok = h <= v
		case "=":
			ok = h == v
		case ">=":
			ok = h >= v
		case ">":
			ok = h > v
		default:
			panic("unknown query " + query)
		}
		if !ok {
			return false
		}
	}
	return true
}

func (n *vNode) TxSearch(_ context.Context, query string, prove bool, page, perPage *int, orderBy string) (*rpctypes.ResultTxSearch, error) {
	n.calls++
	if n.calls == n.fail {
		return nil, errors.New("connection lost")
	}
	var found []*rpctypes.ResultTx
	for _, tx := range n.txs {
		if tx.height <= n.head && vMatches(query, tx.height) {
			found = append(found, &rpctypes.ResultTx{Height: tx.height, TxResult: abcitypes.ResponseDeliverTx{Events: tx.events}})
		}
	}
	if orderBy == "desc" {
		for i, j := 0, len(found)-1; i < j; i, j = i+1, j-1 {
			found[i], found[j] = found[j], found[i]
		}
	}
	p, per := 1, 30
	if perPage != nil && *perPage >= 1 {
		per = *perPage
	}
	if per > 100 {
		per = 100
	}
	if page != nil {
		p = *page
	}
	pages := (len(found)-1)/per + 1
	if len(found) == 0 {
		pages = 1
	}
	if p <= 0 || p > pages {
		return nil, errors.New("page out of range")
	}
	lo, hi := (p-1)*per, p*per
	if hi > len(found) {
		hi = len(found)
	}
	return &rpctypes.ResultTxSearch{Txs: found[lo:hi], TotalCount: len(found)}, nil
}

func vAddr(n string) common.Address { return common.BytesToAddress(verifsym.Bytes(n, 20)) }

func vKey() *ecies.PublicKey {
	k, err := ethcrypto.ToECDSA(common.LeftPadBytes([]byte{7}, 32))
	if err != nil {
		panic(err)
	}
	return ecies.ImportECDSAPublic(&k.PublicKey)
}

const vKinds = 9

// vEvent is some event of a kind: of one eon or batch, or of any of two.
func vEvent(kind int, any bool) shutterevents.IEvent {
	sender := vAddr("sender")
	eon, batch := uint64(4), uint64(8)
	if any && kind < 5 {
		eon = uint64(verifsym.Choose("eon", 4, 5))
	}
	if any && kind == 5 {
		batch = uint64(verifsym.Choose("batch", 8, 9))
	}
	switch kind {
	case 0:
		g := shcrypto.Gammas{new(bn256.G2).ScalarBaseMult(verifsym.Fq("gamma", bn256.Order))}
		return &shutterevents.PolyCommitment{Eon: eon, Sender: sender, Gammas: &g}
	case 1:
		return &shutterevents.PolyEval{Eon: eon, Sender: sender, Receivers: []common.Address{vAddr("receiver")}, EncryptedEvals: [][]byte{verifsym.Bytes("eval", 2)}}
	case 2:
		return &shutterevents.Accusation{Eon: eon, Sender: sender, Accused: []common.Address{vAddr("accused")}}
	case 3:
		return &shutterevents.Apology{Eon: eon, Sender: sender, Accusers: []common.Address{vAddr("accuser")}, PolyEval: []*big.Int{big.NewInt(77)}}
	case 4:
		s := (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(verifsym.Fq("share", bn256.Order)))
		return &shutterevents.EpochSecretKeyShare{Eon: eon, Sender: sender, Epoch: verifsym.U64("epoch"), Share: s}
	case 5:
		return &shutterevents.DecryptionSignature{BatchIndex: batch, Sender: sender, Signature: verifsym.Bytes("signature", 2)}
	case 6:
		return &shutterevents.CheckIn{Sender: sender, EncryptionPublicKey: vKey()}
	case 7:
		return &shutterevents.BatchConfig{Keypers: []common.Address{sender}, StartBatchIndex: verifsym.U64("start"), Threshold: 1, ConfigIndex: verifsym.U64("config")}
	}
	return &shutterevents.EonStarted{Eon: 5, BatchIndex: verifsym.U64("eonbatch")}
}

func vSame(a, b interface{}) bool { return verifsym.DeepEq(a, b) }

// vFrom are the entries of an eon from some height on.
func vFrom(e *Eon, from int64) (r Eon) {
	for _, x := range e.Commitments {
		if x.Height >= from {
			r.Commitments = append(r.Commitments, x)
		}
	}
	for _, x := range e.PolyEvals {
		if x.Height >= from {
			r.PolyEvals = append(r.PolyEvals, x)
		}
	}
	for _, x := range e.Accusations {
		if x.Height >= from {
			r.Accusations = append(r.Accusations, x)
		}
	}
	for _, x := range e.Apologies {
		if x.Height >= from {
			r.Apologies = append(r.Apologies, x)
		}
	}
	for _, x := range e.EpochSecretKeyShares {
		if x.Height >= from {
			r.EpochSecretKeyShares = append(r.EpochSecretKeyShares, x)
		}
	}
	return r
}

// vRead is what keypers read from some height on.
func vRead(e *Eon, from int64) Eon {
	return Eon{
		Commitments: e.GetPolyCommitments(from), PolyEvals: e.GetPolyEvals(from), Accusations: e.GetAccusations(from),
		Apologies: e.GetApologies(from), EpochSecretKeyShares: e.GetEpochSecretKeyShares(from),
	}
}

// vSameEon compares what is known about an eon from some height on.
func vSameEon(a, b *Eon, from int64) bool {
	r := verifsym.And(a.Eon == b.Eon, a.StartHeight == b.StartHeight, vSame(a.StartEvent, b.StartEvent))
	return verifsym.And(r, vSameEntries(vFrom(a, from), vFrom(b, from)), vSameEntries(vRead(a, from), vFrom(b, from)))
}

func vSameEntries(a, b Eon) bool {
	r := true
	ca, cb := a.Commitments, b.Commitments
	ea, eb := a.PolyEvals, b.PolyEvals
	xa, xb := a.Accusations, b.Accusations
	pa, pb := a.Apologies, b.Apologies
	sa, sb := a.EpochSecretKeyShares, b.EpochSecretKeyShares
	if len(ca) != len(cb) || len(ea) != len(eb) || len(xa) != len(xb) || len(pa) != len(pb) || len(sa) != len(sb) {
		return false
	}
	for i := range ca {
		r = verifsym.And(r, ca[i].Height == cb[i].Height, ca[i].Eon == cb[i].Eon, ca[i].Sender == cb[i].Sender, len(*ca[i].Gammas) == len(*cb[i].Gammas))
		for j := range *ca[i].Gammas {
			r = verifsym.And(r, vSame((*ca[i].Gammas)[j].Marshal(), (*cb[i].Gammas)[j].Marshal()))
		}
	}
	for i := range ea {
		r = verifsym.And(r, vSame(ea[i], eb[i]))
	}
	for i := range xa {
		r = verifsym.And(r, vSame(xa[i], xb[i]))
	}
	for i := range pa {
		r = verifsym.And(r, pa[i].Height == pb[i].Height, pa[i].Eon == pb[i].Eon, pa[i].Sender == pb[i].Sender, vSame(pa[i].Accusers, pb[i].Accusers), len(pa[i].PolyEval) == len(pb[i].PolyEval))
		for j := range pa[i].PolyEval {
			r = verifsym.And(r, pa[i].PolyEval[j].Cmp(pb[i].PolyEval[j]) == 0)
		}
	}
	for i := range sa {
		r = verifsym.And(r, sa[i].Height == sb[i].Height, sa[i].Eon == sb[i].Eon, sa[i].Epoch == sb[i].Epoch, sa[i].Sender == sb[i].Sender,
			vSame((*bn256.G1)(sa[i].Share).Marshal(), (*bn256.G1)(sb[i].Share).Marshal()))
	}
	return r
}

// vSameView compares two views from some height and batch on.
func vSameView(a, b *Shutter, from int64, batch uint64) bool {
	if len(a.Eons) != len(b.Eons) || len(a.BatchConfigs) != len(b.BatchConfigs) || len(a.KeyperEncryptionKeys) != len(b.KeyperEncryptionKeys) {
		return false
	}
	r := true
	for i := range a.Eons {
		r = verifsym.And(r, vSameEon(&a.Eons[i], &b.Eons[i], from))
	}
	for i := range a.BatchConfigs {
		r = verifsym.And(r, vSame(a.BatchConfigs[i], b.BatchConfigs[i]))
	}
	for k := range a.KeyperEncryptionKeys {
		if _, ok := b.KeyperEncryptionKeys[k]; !ok {
			return false
		}
	}
	for i := uint64(8); i <= 9; i++ {
		x, y := a.Batches[i], b.Batches[i]
		if i < batch {
			continue
		}
		if (x == nil) != (y == nil) {
			return false
		}
		if x != nil {
			r = verifsym.And(r, x.BatchIndex == y.BatchIndex, vSame(x.DecryptionSignatures, y.DecryptionSignatures))
		}
	}
	return r
}

// vTruth applies the events of the chain up to some height, in order.
func vTruth(h int64, heights []int64, evs []shutterevents.IEvent) *Shutter {
	s := NewShutter()
	s.CurrentBlock = h
	for i, ev := range evs {
		if heights[i] > h {
			continue
		}
		hh := heights[i]
		find := func(n uint64) *Eon {
			for j := range s.Eons {
				if s.Eons[j].Eon == n {
					return &s.Eons[j]
				}
			}
			return &Eon{}
		}
		switch e := ev.(type) {
		case *shutterevents.PolyCommitment:
			x := *e
			x.Height = hh
			n := find(x.Eon)
			n.Commitments = append(n.Commitments, x)
		case *shutterevents.PolyEval:
			x := *e
			x.Height = hh
			n := find(x.Eon)
			n.PolyEvals = append(n.PolyEvals, x)
		case *shutterevents.Accusation:
			x := *e
			x.Height = hh
			n := find(x.Eon)
			n.Accusations = append(n.Accusations, x)
		case *shutterevents.Apology:
			x := *e
			x.Height = hh
			n := find(x.Eon)
			n.Apologies = append(n.Apologies, x)
		case *shutterevents.EpochSecretKeyShare:
			x := *e
			x.Height = hh
			n := find(x.Eon)
			n.EpochSecretKeyShares = append(n.EpochSecretKeyShares, x)
		case *shutterevents.DecryptionSignature:
			x := *e
			x.Height = hh
			if s.Batches[x.BatchIndex] == nil {
				s.Batches[x.BatchIndex] = &BatchData{BatchIndex: x.BatchIndex}
			}
			b := s.Batches[x.BatchIndex]
			b.DecryptionSignatures = append(b.DecryptionSignatures, x)
		case *shutterevents.CheckIn:
			s.KeyperEncryptionKeys[e.Sender] = (*EncryptionPublicKey)(e.EncryptionPublicKey)
		case *shutterevents.BatchConfig:
			x := *e
			x.Height = hh
			s.BatchConfigs = append(s.BatchConfigs, x)
		case *shutterevents.EonStarted:
			x := *e
			x.Height = hh
			if len(s.Eons) == 0 || s.Eons[len(s.Eons)-1].Eon < x.Eon {
				s.Eons = append(s.Eons, Eon{Eon: x.Eon, StartEvent: x, StartHeight: hh})
			}
		}
	}
	return s
}

// VerifPolling: however a keyper polls its node, it sees all events in their order.
func VerifPolling() {
	n := 2
	if verifsym.Tier() > 0 {
		n = 3
	}
	evs := []shutterevents.IEvent{&shutterevents.EonStarted{Eon: 4, BatchIndex: 2}}
	heights := []int64{1}
	kind := 0
	spread := verifsym.Choose("spread", 0, 1)
	steps := [][]int64{{0, 1}, {0, 498, 499}}[spread]
	for i := 0; i < n; i++ {
		// the same kind again, the next one or the start of an eon
		switch {
		case i == 0:
			kind = verifsym.Choose("kind", 0, vKinds-1)
		case verifsym.Fork(verifsym.Bool("next")):
			kind = (kind + 1) % vKinds
		case kind < 5 && verifsym.Fork(verifsym.Bool("eonstart")):
			kind = vKinds - 1
		}
		evs = append(evs, vEvent(kind, i > 0))
		heights = append(heights, heights[i]+steps[verifsym.Choose("step", 0, len(steps)-1)])
	}
	node := &vNode{}
	for i, ev := range evs {
		x := ev.MakeABCIEvent()
		if i > 0 && heights[i] == heights[i-1] && verifsym.Fork(verifsym.Bool("sametx")) {
			// several events of one transaction
			last := &node.txs[len(node.txs)-1]
			last.events = append(last.events, x)
			continue
		}
		node.txs = append(node.txs, vTx{heights[i], []abcitypes.Event{x}})
	}
	top := heights[n]
	ctx := context.Background()
	s := NewShutter()
	cuts := []int64{0, heights[1] - 1, heights[1], top, top + 1}
	at := int64(0)
	for i := 0; i < 2; i++ {
		c := cuts[verifsym.Choose("cut", 0, len(cuts)-1)]
		if i == 1 {
			c = top + 1
		}
		if c < at {
			verifsym.Assume(false)
		}
		at = c
		node.head = c
		node.calls = 0
		node.fail = 0
		if i == 1 {
			node.fail = verifsym.Choose("fail", 0, 1+spread)
		}
		before := s
		old := s.CurrentBlock
		r, err := s.SyncToHead(ctx, node)
		if err != nil {
			verifsym.Assert(node.calls == node.fail, "polling succeeds")
			verifsym.Assert(s.CurrentBlock == old && vSameView(s, vTruth(old, heights, evs), 0, 0), "a failed poll changes nothing")
			verifsym.Reach("failed")
			r, err = s.SyncToHead(ctx, node)
			verifsym.Assert(err == nil, "polling is repeated")
		}
		verifsym.Assert(r.CurrentBlock == c, "the view is that of the polled height")
		verifsym.Assert(vSameView(r, vTruth(c, heights, evs), 0, 0), "the view contains exactly the events of the chain in their order")
		verifsym.Assert(before.CurrentBlock == old && vSameView(before, vTruth(old, heights, evs), 0, 0), "earlier views are not changed")
		s = r
	}
	verifsym.Reach("polled")
}

// VerifPages: many transactions, which the node returns in several pages.
func VerifPages() {
	node := &vNode{head: 600}
	ev := vEvent(verifsym.Choose("kind", 5, 7), false)
	n := []int{0, 99, 100, 101, 200, 301}[verifsym.Choose("transactions", 0, 5)]
	for i := 0; i < n; i++ {
		node.txs = append(node.txs, vTx{height: 3})
	}
	at := []int64{3, 4, 499, 500, 600}[verifsym.Choose("at", 0, 4)]
	node.txs = append(node.txs, vTx{at, []abcitypes.Event{ev.MakeABCIEvent()}})
	s, err := NewShutter().SyncToHead(context.Background(), node)
	verifsym.Assert(err == nil, "polling succeeds")
	verifsym.Assert(vSameView(s, vTruth(600, []int64{at}, []shutterevents.IEvent{ev}), 0, 0), "events behind many transactions are seen")
	verifsym.Reach("paged")
}

// VerifFilter: garbage collection keeps everything from the given height and batch on.
func VerifFilter() {
	evs := []shutterevents.IEvent{&shutterevents.EonStarted{Eon: 4, BatchIndex: 2}}
	heights := []int64{1}
	n := 2
	if verifsym.Tier() > 0 {
		n = 3
	}
	a := NewShutter()
	apply := func(i int) { a.applyTxEvents(heights[i], []abcitypes.Event{evs[i].MakeABCIEvent()}) }
	apply(0)
	kind := verifsym.Choose("kind", 0, vKinds-1)
	from := ShutterFilter{SyncHeight: int64(verifsym.Choose("from", 0, n+1)), BatchIndex: 8}
	if kind == 5 {
		from.BatchIndex = uint64(verifsym.Choose("frombatch", 7, 10))
	}
	at := verifsym.Choose("filtered", 1, n)
	height, batch := int64(0), uint64(0)
	for i := 1; i <= n; i++ {
		if i == at {
			before := a
			a = a.ApplyFilter(from)
			if verifsym.Fork(verifsym.Bool("again")) {
				// an outdated filter
				a = a.ApplyFilter(ShutterFilter{SyncHeight: from.SyncHeight - 1, BatchIndex: from.BatchIndex})
			}
			height, batch = from.SyncHeight, from.BatchIndex
			verifsym.Assert(vSameView(before, vTruth(9, heights, evs), 0, 0), "earlier views are not changed")
		}
		evs = append(evs, vEvent(kind, true))
		heights = append(heights, heights[i-1]+int64(verifsym.Choose("step", 0, 1)))
		a = a.Clone()
		apply(i)
	}
	verifsym.Assert(vSameView(a, vTruth(9, heights, evs), height, batch), "nothing from the filtered height and batch on is lost")
	verifsym.Reach("filtered")
}

// VerifLookup: eons and batch configs are found by eon, config and batch index.
func VerifLookup() {
	a := NewShutter()
	n := verifsym.Choose("n", 0, 2+verifsym.Tier())
	var eons, starts, configs, cstarts []uint64
	for i := 0; i < n; i++ {
		e := verifsym.U64("eon")
		if i > 0 {
			verifsym.Assume(e > eons[i-1])
		}
		eons = append(eons, e)
		starts = append(starts, verifsym.U64("start"))
		a.applyEvent(&shutterevents.EonStarted{Eon: e, BatchIndex: starts[i], Height: int64(i)})
		configs = append(configs, verifsym.U64("config"))
		for j := 0; j < i; j++ {
			verifsym.Assume(configs[i] != configs[j])
		}
		cstarts = append(cstarts, verifsym.U64("configstart"))
		a.applyEvent(&shutterevents.BatchConfig{ConfigIndex: configs[i], StartBatchIndex: cstarts[i], Keypers: []common.Address{vAddr("keyper")}, Threshold: 1})
	}
	q := verifsym.U64("query")
	wantEon, wantStart, wantConfig, wantCStart := -1, -1, -1, -1
	for i := 0; i < n; i++ {
		if eons[i] == q {
			wantEon = i
		}
		if starts[i] <= q {
			wantStart = i
		}
		if configs[i] == q {
			wantConfig = i
		}
		if cstarts[i] <= q {
			wantCStart = i
		}
	}
	e, err := a.FindEon(q)
	verifsym.Assert((err == nil) == (wantEon >= 0), "eons are found by number")
	if err == nil {
		verifsym.Assert(e.Eon == q, "eons are found by number")
		verifsym.Reach("eon")
	}
	e, err = a.FindEonByBatchIndex(q)
	verifsym.Assert((err == nil) == (wantStart >= 0), "eons are found by batch")
	if err == nil {
		verifsym.Assert(e.Eon == eons[wantStart], "the latest eon that covers a batch is found")
		verifsym.Reach("eonbatch")
	}
	c, err := a.FindBatchConfigByConfigIndex(q)
	verifsym.Assert((err == nil) == (wantConfig >= 0), "configs are found by number")
	if err == nil {
		verifsym.Assert(c.StartBatchIndex == cstarts[wantConfig], "configs are found by number")
		verifsym.Reach("config")
	}
	c = a.FindBatchConfigByBatchIndex(q)
	verifsym.Assert((len(c.Keypers) > 0) == (wantCStart >= 0), "configs are found by batch")
	if wantCStart >= 0 {
		verifsym.Assert(c.ConfigIndex == configs[wantCStart], "the latest config that covers a batch is found")
		verifsym.Reach("configbatch")
	}
	addr := vAddr("who")
	in := false
	for _, bc := range a.BatchConfigs {
		in = verifsym.Or(in, bc.Keypers[0] == addr)
	}
	verifsym.Assert(a.IsKeyper(addr) == in, "keypers are those of any config")
}
