package app

import (
	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

// vConfigOf is the config a BatchConfig message proposes.
func vConfigOf(m *shmsg.BatchConfig) BatchConfig {
	bc := BatchConfig{
		StartBatchIndex:       m.StartBatchIndex,
		Threshold:             m.Threshold,
		ConfigContractAddress: common.BytesToAddress(m.ConfigContractAddress),
		ConfigIndex:           m.ConfigIndex,
		Started:               m.Started,
		ValidatorsUpdated:     m.ValidatorsUpdated,
	}
	for _, k := range m.Keypers {
		bc.Keypers = append(bc.Keypers, common.BytesToAddress(k))
	}
	return bc
}

// vConfigValid says whether a proposed config may follow last.
func vConfigValid(bc, last BatchConfig) bool {
	return verifsym.And(len(bc.Keypers) > 0, vDistinct(bc.Keypers), bc.Threshold >= 1, bc.Threshold <= uint64(len(bc.Keypers)),
		bc.StartBatchIndex >= last.StartBatchIndex, bc.ConfigIndex > last.ConfigIndex)
}

// vCandidates returns two proposals; the second is a copy of the first with one field changed.
func vCandidates() [2]*shmsg.BatchConfig {
	n := verifsym.Choose("ncand", 1, 2)
	c := shmsg.BatchConfig{
		StartBatchIndex:       verifsym.U64("start"),
		Threshold:             verifsym.U64("cthreshold"),
		ConfigIndex:           verifsym.U64("idx"),
		ConfigContractAddress: verifsym.Bytes("cc", 20),
	}
	for i := 0; i < n; i++ {
		c.Keypers = append(c.Keypers, verifsym.Bytes("ck", 20))
	}
	d := shmsg.BatchConfig{
		StartBatchIndex:       c.StartBatchIndex,
		Threshold:             c.Threshold,
		ConfigIndex:           c.ConfigIndex,
		ConfigContractAddress: c.ConfigContractAddress,
		Keypers:               append([][]byte(nil), c.Keypers...),
	}
	switch verifsym.Choose("field", 0, 4) {
	case 0:
		d.StartBatchIndex = verifsym.U64("start")
		verifsym.Assume(d.StartBatchIndex != c.StartBatchIndex)
	case 1:
		d.Threshold = verifsym.U64("cthreshold")
		verifsym.Assume(d.Threshold != c.Threshold)
	case 2:
		d.ConfigIndex = verifsym.U64("idx")
		verifsym.Assume(d.ConfigIndex != c.ConfigIndex)
	case 3:
		d.ConfigContractAddress = verifsym.Bytes("cc", 20)
		verifsym.Assume(common.BytesToAddress(d.ConfigContractAddress) != common.BytesToAddress(c.ConfigContractAddress))
	case 4:
		d.Keypers[n-1] = verifsym.Bytes("ck", 20)
		verifsym.Assume(common.BytesToAddress(d.Keypers[n-1]) != common.BytesToAddress(c.Keypers[n-1]))
	}
	return [2]*shmsg.BatchConfig{&c, &d}
}

// VerifConfigHistory drives a history of config votes against a reference model: a proposal is
// adopted exactly when threshold many distinct keypers of the last config voted for that proposal,
// every keyper votes once per voting, and a new voting starts from zero with the new config's
// keypers and threshold.
func VerifConfigHistory() {
	n := verifsym.Choose("n", 1, 3)
	keypers := vKeypers("keyper", n)
	t := verifsym.U64("threshold")
	verifsym.Assume(t >= 1 && t <= uint64(n))
	app := NewShutterApp()
	start := verifsym.U64("start0")
	idx := verifsym.U64("idx0")
	app.Configs = []*BatchConfig{{Keypers: keypers, Threshold: t, StartBatchIndex: start, ConfigIndex: idx}}
	eon := verifsym.U64("eon")
	verifsym.Assume(eon < 1<<63)
	app.EONCounter = eon
	// the running eon belongs to the current config
	cur := NewDKGInstance(*app.Configs[0], eon)
	app.DKGMap[eon] = &cur

	last := vCloneConfig(*app.Configs[0])
	cands := vCandidates()
	// proposals are valid successors of the current config (VerifConfigMessage covers the others)
	verifsym.Assume(vConfigValid(vConfigOf(cands[0]), last))
	verifsym.Assume(vConfigValid(vConfigOf(cands[1]), last))
	steps := 3
	if verifsym.Tier() > 0 {
		steps = 4
	}
	vConfigDrive(app, last, cands, eon, steps, func() common.Address { return vAddr("sender") })
}

// VerifConfigRounds drives longer histories with several voting rounds; the keypers are fixed, and
// thresholds, indexes and start batches arbitrary.
func VerifConfigRounds() {
	var ks []common.Address
	var raw [][]byte
	for i := 0; i < 3; i++ {
		a := common.BytesToAddress([]byte{byte(i + 1)})
		ks = append(ks, a)
		raw = append(raw, a.Bytes())
	}
	app := NewShutterApp()
	last := BatchConfig{Keypers: ks, Threshold: 2}
	app.Configs = []*BatchConfig{{Keypers: ks, Threshold: 2}}
	cur := NewDKGInstance(*app.Configs[0], 1)
	app.DKGMap[1] = &cur
	app.EONCounter = 1
	var cands [2]*shmsg.BatchConfig
	for i := range cands {
		n := verifsym.Choose("size", 2, 3)
		cands[i] = &shmsg.BatchConfig{
			StartBatchIndex:       verifsym.U64("start"),
			Threshold:             verifsym.U64("cthreshold"),
			ConfigIndex:           verifsym.U64("idx"),
			ConfigContractAddress: ks[0].Bytes(),
			Keypers:               raw[3-n:],
		}
		verifsym.Assume(vConfigValid(vConfigOf(cands[i]), last))
	}
	verifsym.Assume(cands[0].ConfigIndex < cands[1].ConfigIndex)
	steps := 4
	if verifsym.Tier() > 0 {
		steps = 5
	}
	vConfigDrive(app, last, cands, 1, steps, func() common.Address { return ks[verifsym.Choose("sender", 0, 2)] })
}

func vConfigDrive(app *ShutterApp, last BatchConfig, cands [2]*shmsg.BatchConfig, eon uint64, steps int, sender func() common.Address) {
	votes := map[common.Address]int{}
	for k := 0; k < steps; k++ {
		s := sender()
		c := verifsym.Choose("cand", 0, 1)
		bc := vConfigOf(cands[c])
		before := len(app.Configs)
		if verifsym.DeepEq(bc, last) {
			// an already adopted config is acknowledged without effect
			r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: cands[c]}}, s)
			verifsym.Assert(r.Code == 0 && len(r.Events) == 0 && len(app.Configs) == before, "adopted-config-acknowledged")
			verifsym.Reach("acknowledged")
			continue
		}
		_, voted := votes[s]
		ok := verifsym.And(vConfigValid(bc, last), vIn(last.Keypers, s), !voted)
		r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: cands[c]}}, s)
		verifsym.Assert((r.Code == 0) == ok, "vote-accepted-iff-allowed")
		if !ok {
			verifsym.Assert(len(app.Configs) == before && len(r.Events) == 0, "rejected-vote-no-effect")
			verifsym.Reach("rejected")
			continue
		}
		votes[s] = c
		var cnt uint64
		for _, v := range votes {
			if v == c {
				cnt++
			}
		}
		if cnt < last.Threshold {
			verifsym.Assert(len(app.Configs) == before && len(r.Events) == 0, "no-adoption-below-threshold")
			verifsym.Reach("below")
			continue
		}
		verifsym.Assert(len(app.Configs) == before+1, "adopted-at-threshold")
		verifsym.Assert(verifsym.DeepEq(*app.LastConfig(), bc), "adopted-config-is-the-voted-one")
		want := []abcitypes.Event{bc.MakeABCIEvent()}
		if bc.Threshold != last.Threshold || !verifsym.DeepEq(bc.Keypers, last.Keypers) {
			eon++
			want = append(want, shutterevents.EonStarted{Eon: eon, BatchIndex: bc.StartBatchIndex}.MakeABCIEvent())
			verifsym.Assert(app.DKGMap[eon] != nil, "key-generation-registered")
			verifsym.Reach("eon")
		} else {
			verifsym.Reach("noeon")
		}
		verifsym.Assert(app.EONCounter == eon, "eon-counter")
		verifsym.Assert(vSameEvents(r.Events, want), "adoption-events")
		verifsym.Reach("adopted")
		last = bc
		votes = map[common.Address]int{}
	}
}

// VerifConfigMessage delivers one arbitrary, possibly malformed BatchConfig message to a node whose
// last config has threshold one.
func VerifConfigMessage() {
	keypers := vKeypers("keyper", verifsym.Choose("n", 1, 2))
	app := NewShutterApp()
	app.Configs = []*BatchConfig{
		{Keypers: vKeypers("old", 1), Threshold: 1, StartBatchIndex: 0, ConfigIndex: verifsym.U64("idx0")},
		{Keypers: keypers, Threshold: 1, StartBatchIndex: verifsym.U64("start1"), ConfigIndex: verifsym.U64("idx1")},
	}
	verifsym.Assume(app.Configs[0].ConfigIndex < app.Configs[1].ConfigIndex)
	last := vCloneConfig(*app.Configs[1])
	m := &shmsg.BatchConfig{
		StartBatchIndex:       verifsym.U64("start"),
		Threshold:             verifsym.U64("cthreshold"),
		ConfigIndex:           verifsym.U64("idx"),
		ConfigContractAddress: verifsym.Bytes("cc", verifsym.Choose("cclen", 19, 21)),
	}
	wellformed := len(m.ConfigContractAddress) == 20
	nc := verifsym.Choose("nck", 0, 3)
	bad := verifsym.Choose("badkeyper", 0, nc)
	for i := 0; i < nc; i++ {
		l := 20
		if i == bad-1 {
			l = 20 + 2*verifsym.Choose("badlen", 0, 1) - 1
			wellformed = false
		}
		m.Keypers = append(m.Keypers, verifsym.Bytes("ck", l))
	}
	sender := vAddr("sender")
	before := vClone(app)
	r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: m}}, sender)
	bc := vConfigOf(m)
	if wellformed && verifsym.DeepEq(bc, last) {
		verifsym.Assert(r.Code == 0 && vSameState(app, before), "adopted-config-acknowledged")
		verifsym.Reach("acknowledged")
		return
	}
	ok := verifsym.And(wellformed, vConfigValid(bc, last), vIn(keypers, sender))
	verifsym.Assert((r.Code == 0) == ok, "config-accepted-iff-valid")
	if !ok {
		verifsym.Assert(vSameState(app, before), "rejected-config-no-effect")
		verifsym.Reach("rejected")
		return
	}
	verifsym.Assert(len(app.Configs) == 3 && verifsym.DeepEq(*app.LastConfig(), bc), "config-adopted")
	verifsym.Reach("adopted")
}
