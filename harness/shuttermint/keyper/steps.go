package keyper

import (
	"context"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

// VerifStepsCrash lets a keyper decide about executions in two steps, lets the machine crash
// somewhere, starts again and repeats the last step: every half step is taken on once.
func VerifStepsCrash() {
	vos.Reset()
	const b0 = 3
	s0 := 1 + vNum32("block")
	world := func(batches int, done uint64) observe.World {
		mc := observe.NewMainChain(0)
		mc.BatchConfigs = []contract.BatchConfig{{}, {
			StartBatchIndex: b0, StartBlockNumber: s0, BatchSpan: 1, ExecutionTimeout: 1, Keypers: vSigners(0), Threshold: 1,
		}}
		mc.CurrentBlock = s0 + uint64(batches) + 1
		mc.NumExecutionHalfSteps = 2*b0 + done
		sh := observe.NewShutter()
		sh.CurrentBlock = int64(batches)
		sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: vSigners(0), Threshold: 1, ConfigIndex: 9}}
		return observe.World{MainChain: mc, Shutter: sh}
	}
	start := func() *Keyper {
		k := vStart()
		k.runenv = fx.NewRunEnv(nil, nil, k.CurrentWorld, k.pathActionsGob())
		return k
	}
	ctx := context.Background()
	first := verifsym.Choose("first", 0, 2)
	second := first + verifsym.Choose("second", 0, 2)
	done := uint64(0)
	if verifsym.Choose("executed", 0, 1) == 1 {
		done = 2 * uint64(first)
	}
	vos.CrashAt(verifsym.Choose("crash", 0, 14))
	k := start()
	k.world.Store(world(first, 0))
	verifsym.Assert(k.runOneStep(ctx) == nil, "steps are taken")
	k.world.Store(world(second, done))
	verifsym.Assert(k.runOneStep(ctx) == nil, "steps are taken")
	if vos.Crashed() {
		verifsym.Reach("crash")
	}
	vos.Recover()
	k = start()
	verifsym.Assert(k.LoadState() == nil, "state can be loaded")
	verifsym.Assert(k.loadRunenv(ctx) == nil, "pending actions can be loaded")
	if len(k.State.Actions) > 0 {
		verifsym.Assert(k.runActions(ctx) == nil, "actions are run")
		verifsym.Reach("again")
	}
	k.world.Store(world(second, done))
	verifsym.Assert(k.runOneStep(ctx) == nil, "steps are taken")
	count := map[uint64]int{}
	for _, a := range k.runenv.PendingActions.ActionMap {
		switch x := a.(type) {
		case *fx.SkipCipherBatch:
			count[2*x.BatchIndex]++
		case *fx.ExecutePlainBatch:
			count[2*x.BatchIndex+1]++
		default:
			verifsym.Assert(false, "only half steps are executed")
		}
	}
	for i := uint64(0); i < 2*uint64(second); i++ {
		n := count[2*b0+i]
		verifsym.Assert(n <= 1, "no half step is taken on twice")
		if i >= done && (done > 0 || first == 0 || i < 2*uint64(first)) {
			verifsym.Assert(n == 1, "no half step gets lost")
			verifsym.Reach("pending")
		}
	}
}
