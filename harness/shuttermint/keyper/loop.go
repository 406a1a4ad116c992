package keyper

import (
	"errors"
	"os"
	"time"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

var errVOver = errors.New("over")

// vCtx hands over one thing each time the keyper waits for something, and is done in the end.
type vCtx struct {
	next func() bool // whether there is something
	done chan struct{}
	err  error
}

func (c *vCtx) Deadline() (t time.Time, ok bool) { return t, false }

func (c *vCtx) Value(interface{}) interface{} { return nil }

func (c *vCtx) Err() error { return c.err }

func (c *vCtx) Done() <-chan struct{} {
	if c.err == nil && !c.next() {
		c.err = errVOver
		close(c.done)
	}
	return c.done
}

// vInTime runs f, which has to return without anything else happening.
func vInTime(f func() error, label string) error {
	if verifsym.Symbolic() {
		verifsym.NoWait(label)
		err := f()
		verifsym.NoWait("")
		return err
	}
	done := make(chan error, 1)
	failed := make(chan interface{}, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				failed <- r
			}
		}()
		done <- f()
	}()
	select {
	case err := <-done:
		return err
	case r := <-failed:
		panic(r)
	case <-time.After(10 * time.Second):
		verifsym.Assert(false, label)
	}
	return nil
}

// VerifMainLoop: the keyper acts on every view it gets together with the last one of the other
// chain, and remembers them.
func VerifMainLoop() {
	vos.Reset()
	const b0 = 3
	const views = 5
	s0 := 1 + vNum32("block")
	batches := make([]int, views) // closed when the view is taken
	heights := make([]int64, views)
	mains := make([]bool, views)
	mainView := func(i int) *observe.MainChain {
		mc := observe.NewMainChain(0)
		mc.BatchConfigs = []contract.BatchConfig{{}, {
			StartBatchIndex: b0, StartBlockNumber: s0, BatchSpan: 1, ExecutionTimeout: 1, Keypers: vSigners(0), Threshold: 1,
		}}
		mc.CurrentBlock = s0 + uint64(batches[i]) + 1
		mc.NumExecutionHalfSteps = 2 * b0
		return mc
	}
	shutterView := func(i int) *observe.Shutter {
		sh := observe.NewShutter()
		sh.CurrentBlock = heights[i]
		sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: vSigners(0), Threshold: 1, ConfigIndex: 9}}
		return sh
	}
	k := vStart()
	k.world.Store(observe.World{Shutter: observe.NewShutter(), MainChain: observe.NewMainChain(0)})
	k.runenv = fx.NewRunEnv(nil, nil, k.CurrentWorld, k.pathActionsGob())
	k.mainChainCh = make(chan *observe.MainChain, 1)
	k.shutterCh = make(chan *observe.Shutter, 1)
	k.signalCh = make(chan os.Signal, 1)
	k.shutterFilterCh = make(chan observe.ShutterFilter, 3)
	var mc *observe.MainChain
	var sh *observe.Shutter
	n, closed := 0, 0
	started := false // both views were there
	// the loop fetching from shuttermint may not have taken earlier announcements yet
	filters := verifsym.Choose("filters", 0, 1) * 2
	for i := 0; i < filters; i++ {
		k.shutterFilterCh <- observe.ShutterFilter{SyncHeight: 1}
	}
	// check looks at the keyper after it has acted on the last view
	check := func() {
		w := k.CurrentWorld()
		if mc == nil || sh == nil {
			return
		}
		verifsym.Assert(w.MainChain == mc && w.Shutter == sh, "the keyper has the last views of both chains")
		if !started {
			started = true
			return // it starts with the next one
		}
		verifsym.Assert(k.State.SyncHeight == sh.CurrentBlock+1, "the keyper acts on each view")
		count := 0
		for range k.runenv.PendingActions.ActionMap {
			count++
		}
		verifsym.Assert((count > 0) == (closed > 0), "the keyper acts on each view")
		other := vStart()
		verifsym.Assert(other.LoadState() == nil, "the state is stored")
		lw := other.CurrentWorld()
		verifsym.Assert(lw.MainChain.CurrentBlock == mc.CurrentBlock && lw.Shutter.CurrentBlock == sh.CurrentBlock && other.State.SyncHeight == k.State.SyncHeight, "the views are stored with the state")
		if filters < 3 {
			filters++
		}
		verifsym.Assert(len(k.shutterFilterCh) == filters, "what is not needed anymore is announced")
		if filters == 3 && verifsym.Choose("take", 0, 1) == 1 {
			for ; filters > 0; filters-- {
				f := <-k.shutterFilterCh
				verifsym.Assert(f.SyncHeight > 0 && f.SyncHeight <= k.State.SyncHeight && f.BatchIndex <= mc.NumExecutionHalfSteps/2, "only what is not needed anymore is forgotten")
			}
			verifsym.Reach("taken")
		}
	}
	ctx := &vCtx{done: make(chan struct{})}
	handing := 0
	ctx.next = func() bool {
		if handing < len(k.State.Actions) {
			handing++ // the keyper hands over what it has decided
			return true
		}
		handing = 0
		if n > 0 {
			check()
		}
		if n == views {
			return false
		}
		mains[n] = verifsym.Choose("main", 0, 1) == 1
		if mains[n] {
			if mc != nil {
				closed += verifsym.Choose("closed", 0, 1)
			}
			batches[n] = closed
			mc = mainView(n)
			k.mainChainCh <- mc
		} else {
			heights[n] = int64(10 + 2*n)
			sh = shutterView(n)
			k.shutterCh <- sh
		}
		n++
		return true
	}
	k.syncOnce(ctx)
	if mc == nil || sh == nil {
		verifsym.Assert(ctx.err != nil && k.State.SyncHeight == 0, "the keyper waits for both chains")
		verifsym.Reach("waiting")
		return
	}
	err := vInTime(func() error { return k.syncLoop(ctx) }, "announcing does not hold up the keyper")
	verifsym.Assert(err == errVOver, "the keyper stops when told to")
	verifsym.Reach("acting")
}
