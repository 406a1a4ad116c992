package observe

import (
	"context"
	"errors"
	"math/big"
	"runtime"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	rpctypes "github.com/tendermint/tendermint/rpc/core/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
)

var errVOver = errors.New("over")

// vCtx hands over one thing each time the loop waits for something, and is done in the end.
type vCtx struct {
	next func() bool // whether there is something
	done chan struct{}
	err  error
}

func (c *vCtx) Deadline() (t time.Time, ok bool) { return t, false }

func (c *vCtx) Value(interface{}) interface{} { return nil }

func (c *vCtx) Err() error { return c.err }

func (c *vCtx) Done() <-chan struct{} {
	if !verifsym.Symbolic() {
		// RPC clients wait, too
		if _, file, _, ok := runtime.Caller(1); !ok || !strings.Contains(file, "/keyper/observe/") {
			return c.done
		}
	}
	if c.err == nil && !c.next() {
		c.err = errVOver
		close(c.done)
	}
	return c.done
}

// vBlocks is a node announcing blocks.
type vBlocks struct {
	*vNode
	events chan rpctypes.ResultEvent
}

func (b *vBlocks) Subscribe(_ context.Context, subscriber, query string, _ ...int) (<-chan rpctypes.ResultEvent, error) {
	if subscriber == "" || query != "tm.event = 'NewBlock'" {
		return nil, errors.New("bad subscription")
	}
	return b.events, nil
}

// VerifShutterLoop: every new block brings a complete view, also after failures and garbage
// collections.
func VerifShutterLoop() {
	kind := verifsym.Choose("kind", 0, vKinds-1)
	evs := []shutterevents.IEvent{&shutterevents.EonStarted{Eon: 4, BatchIndex: 2}}
	heights := []int64{1}
	for i := 0; i < 4; i++ {
		evs = append(evs, vEvent(kind, false))
		heights = append(heights, int64(1+i))
	}
	node := &vBlocks{vNode: &vNode{}, events: make(chan rpctypes.ResultEvent, 1)}
	for i, ev := range evs {
		node.txs = append(node.txs, vTx{heights[i], []abcitypes.Event{ev.MakeABCIEvent()}})
	}
	views := make(chan *Shutter, 1)
	filters := make(chan ShutterFilter, 3)
	at, want := int64(-1), int64(-1) // the last view's height, that of the next one
	var from int64
	var batch uint64
	steps := 0
	announced := false // a block is being handled
	inner := false     // the view is handed over
	ctx := &vCtx{done: make(chan struct{})}
	ctx.next = func() bool {
		if announced && !inner && node.fail == 0 {
			inner = true
			return true // the view is being handed over
		}
		inner = false
		if announced {
			announced = false
			if node.fail == 0 {
				verifsym.Assert(len(views) == 1, "every block brings a view")
				v := <-views
				verifsym.Assert(v.CurrentBlock == want, "the view is that of the block")
				verifsym.Assert(vSameView(v, vTruth(want, heights, evs), from, batch), "the view is complete")
				for i := range v.Eons {
					for _, x := range v.Eons[i].PolyEvals {
						verifsym.Assert(x.Height >= from, "what isn't needed is forgotten")
					}
					for _, x := range v.Eons[i].EpochSecretKeyShares {
						verifsym.Assert(x.Height >= from, "what isn't needed is forgotten")
					}
				}
				at = want
				verifsym.Reach("view")
			} else {
				verifsym.Assert(len(views) == 0, "there's no view if a query fails")
				verifsym.Reach("failed")
			}
		}
		if steps == 4+verifsym.Tier() {
			return false
		}
		steps++
		node.fail = 0
		if at >= 0 && verifsym.Choose("filter", 0, 1) == 1 {
			f := ShutterFilter{SyncHeight: at + int64(verifsym.Choose("height", 0, 1)), BatchIndex: 8}
			if kind == 5 {
				f.BatchIndex += uint64(verifsym.Choose("batch", 0, 1))
			}
			if f.SyncHeight < from || f.BatchIndex < batch {
				verifsym.Assume(false) // it doesn't shrink
			}
			from, batch = f.SyncHeight, f.BatchIndex
			filters <- f
			verifsym.Reach("filter")
			return true
		}
		head := want + int64(verifsym.Choose("blocks", 0, 2))
		if head < 0 {
			head = 0
		}
		want = head
		node.head = want
		node.calls = 0
		if want > at {
			node.fail = verifsym.Choose("fail", 0, 1)
		}
		announced = true
		node.events <- rpctypes.ResultEvent{}
		return true
	}
	err := SyncShutter(ctx, node, NewShutter(), views, filters)
	verifsym.Assert(err == errVOver, "the loop ends when told to")
}

// vSub is the subscription of new blocks of the main chain.
type vSub struct{ err chan error }

func (s *vSub) Unsubscribe() {}

func (s *vSub) Err() <-chan error { return s.err }

var vHeads chan<- *types.Header

func vSubscribeNewHead(_ *ethclient.Client, _ context.Context, ch chan<- *types.Header) (ethereum.Subscription, error) {
	vHeads = ch
	return &vSub{}, nil
}

var vNotify func()

// NewHeads is the subscription in native runs.
func (VEth) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
	n, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, errors.New("no notifications")
	}
	sub := n.CreateSubscription()
	vNotify = func() {
		if err := n.Notify(sub.ID, &types.Header{Number: big.NewInt(0), Difficulty: new(big.Int)}); err != nil {
			panic(err)
		}
	}
	return sub, nil
}

// VerifMainChainLoop: every new block brings a complete view, also after failures.
func VerifMainChainLoop() {
	m := &vMain{}
	vM = m
	vFew = true
	m.add(vConfigScheduled, 1)
	m.add(vCipherTx, 1)
	m.add(vDeposit, 1)
	m.add(vCipherTx, 2)
	m.add(vHalfStep, 2)
	m.add(vAccused, 2)
	m.add(vPlainTx, 3)
	m.add(vHalfStep, 3)
	m.add(vAppealed, 3)
	caller := vMainCaller()
	views := make(chan *MainChain, 1)
	steps := 0
	announced := false
	inner := false
	var first *MainChain
	var firstAt uint64
	ctx := &vCtx{done: make(chan struct{})}
	ctx.next = func() bool {
		failed := m.fail != 0 && m.calls >= m.fail
		if announced && !inner && !failed {
			inner = true
			return true // the view is being handed over
		}
		inner = false
		if announced {
			announced = false
			if !failed {
				verifsym.Assert(len(views) == 1, "every block brings a view")
				v := <-views
				m.vCheckMain(v, m.head)
				if first == nil {
					first, firstAt = v, m.head
				}
				verifsym.Reach("view")
			} else {
				verifsym.Assert(len(views) == 0, "there's no view if a query fails")
				verifsym.Reach("failed")
			}
		}
		if steps == 3+verifsym.Tier() {
			return false
		}
		steps++
		least := 0
		if m.head == 0 {
			least = 1
		}
		m.head += uint64(verifsym.Choose("blocks", least, 2))
		m.calls = 0
		m.fail = []int{0, 2, 6}[verifsym.Choose("fail", 0, 2)]
		announced = true
		if verifsym.Symbolic() {
			vHeads <- &types.Header{}
		} else {
			vNotify()
		}
		return true
	}
	err := SyncMain(ctx, caller, NewMainChain(0), views)
	verifsym.Assert(err == errVOver, "the loop ends when told to")
	if first != nil {
		m.vCheckMain(first, firstAt)
	}
}

func vAfter(time.Duration) <-chan time.Time { return make(chan time.Time) }
