package app

import (
	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

// VerifStartHistory: a config is started at the end of a block exactly when as many keypers of its
// predecessor as the predecessor's threshold announced the start of that very config.
func VerifStartHistory() {
	n := verifsym.Choose("n", 1, 3)
	k0 := vKeypers("keyper", n)
	t0 := verifsym.U64("threshold")
	verifsym.Assume(t0 >= 1 && t0 <= uint64(n))
	k1 := vKeypers("next", 1)
	app := NewShutterApp()
	idx0, idx1 := verifsym.U64("idx0"), verifsym.U64("idx1")
	verifsym.Assume(idx0 < idx1 && idx1 < 1<<63)
	app.Configs = []*BatchConfig{
		{Keypers: k0, Threshold: t0, ConfigIndex: idx0},
		{Keypers: k1, Threshold: 1, ConfigIndex: idx1},
	}
	prev, cur := 0, 1
	votes := map[common.Address]bool{}
	started := false
	steps := 4
	if verifsym.Tier() > 0 {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		switch verifsym.Choose("op", 0, 2) {
		case 0:
			s := vAddr("sender")
			idx := verifsym.U64("idx")
			r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_BatchConfigStarted{
				BatchConfigStarted: &shmsg.BatchConfigStarted{BatchConfigIndex: idx}}}, s)
			ok := verifsym.And(idx == app.Configs[cur].ConfigIndex, vIn(app.Configs[prev].Keypers, s))
			verifsym.Assert((r.Code == 0) == ok, "start-vote-accepted-iff-allowed")
			if ok {
				votes[s] = true
				verifsym.Reach("vote")
			} else {
				verifsym.Reach("rejected")
			}
		case 1:
			app.EndBlock(abcitypes.RequestEndBlock{Height: int64(i)})
			if uint64(len(votes)) >= app.Configs[prev].Threshold {
				started = true
			}
			verifsym.Reach("endblock")
		case 2:
			if cur > 1 {
				verifsym.Assume(false)
			}
			// the single keyper of the last config adopts a successor
			m := &shmsg.BatchConfig{Keypers: vBytesOf(k0), Threshold: t0, ConfigIndex: idx1 + 1, ConfigContractAddress: make([]byte, 20)}
			r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: m}}, k1[0])
			verifsym.Assert(r.Code == 0 && len(app.Configs) == 3, "successor-adopted")
			verifsym.Assert(app.Configs[cur].Started == started, "started-iff-threshold")
			prev, cur = 1, 2
			// announcements for one config do not count for its successor
			votes = map[common.Address]bool{}
			started = false
			verifsym.Reach("successor")
		}
		verifsym.Assert(app.Configs[cur].Started == started, "started-iff-threshold")
		if started {
			verifsym.Reach("started")
		}
	}
}
