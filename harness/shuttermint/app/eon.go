package app

import (
	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

// VerifEonVotes: a key generation is restarted exactly when threshold many keypers of the config in
// charge of a batch currently ask for the same start batch; eons are numbered consecutively.
func VerifEonVotes() {
	app := NewShutterApp()
	n := verifsym.Choose("n", 1, 3)
	k0 := vKeypers("keyper", n)
	t0 := verifsym.U64("threshold")
	verifsym.Assume(t0 >= 1 && t0 <= uint64(n))
	s1 := verifsym.U64("start1")
	n1 := verifsym.Choose("n1", 0, 1)
	app.Configs = []*BatchConfig{{Keypers: k0, Threshold: t0, ConfigIndex: 4}}
	var k1 []common.Address
	if n1 > 0 {
		// the second config may share keypers with the first
		k1 = vKeypers("next", n1)
		app.Configs = append(app.Configs, &BatchConfig{Keypers: k1, Threshold: 1, ConfigIndex: 9, StartBatchIndex: s1})
	}
	eon := verifsym.U64("eon")
	verifsym.Assume(eon < 1<<63)
	app.EONCounter = eon
	votes := [2]map[common.Address]uint64{{}, {}}
	steps := 4
	if verifsym.Tier() > 0 {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		s := vAddr("sender")
		b := verifsym.U64("batch")
		c := 0
		if n1 > 0 && b >= s1 {
			c = 1
		}
		cfg := *app.Configs[c]
		r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_EonStartVote{
			EonStartVote: &shmsg.EonStartVote{StartBatchIndex: b}}}, s)
		ok := vIn(cfg.Keypers, s)
		verifsym.Assert((r.Code == 0) == ok, "eon-vote-accepted-iff-keyper")
		if !ok {
			verifsym.Assert(len(r.Events) == 0 && app.EONCounter == eon, "rejected-eon-vote-no-effect")
			verifsym.Reach("rejected")
			continue
		}
		votes[c][s] = b
		var cnt uint64
		for _, x := range votes[c] {
			if x == b {
				cnt++
			}
		}
		if cnt < cfg.Threshold {
			verifsym.Assert(len(r.Events) == 0 && app.EONCounter == eon, "no-eon-below-threshold")
			verifsym.Reach("below")
			continue
		}
		votes[c] = map[common.Address]uint64{}
		eon++
		verifsym.Assert(app.EONCounter == eon, "eon-consecutive")
		verifsym.Assert(vSameEvents(r.Events, []abcitypes.Event{shutterevents.EonStarted{Eon: eon, BatchIndex: b}.MakeABCIEvent()}), "eon-started-event")
		d := app.DKGMap[eon]
		verifsym.Assert(d != nil && d.Eon == eon && verifsym.DeepEq(d.Config, cfg), "key-generation-registered")
		verifsym.Assert(len(d.PolyEvalsSeen) == 0 && len(d.PolyCommitmentsSeen) == 0 && len(d.AccusationsSeen) == 0 && len(d.ApologiesSeen) == 0, "key-generation-fresh")
		verifsym.Reach("started")
	}
}
