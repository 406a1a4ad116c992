package keyper

import (
	"encoding/binary"
	"math/big"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

func vEonSecret(eon uint64) *shcrypto.EonSecretKeyShare {
	return shcrypto.ComputeEonSecretKeyShare([]*big.Int{big.NewInt(int64(1000 + eon))})
}

func vEpochShare(eon, epoch uint64) *shcrypto.EpochSecretKeyShare {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, epoch)
	return shcrypto.ComputeEpochSecretKeyShare(vEonSecret(eon), shcrypto.ComputeEpochID(b))
}

func vEKG(eon uint64) *EKG {
	return &EKG{Eon: eon, Keypers: vSigners(0, 1, 2), EpochKG: &epochkg.EpochKG{
		Eon: eon, NumKeypers: 3, Threshold: 2, SecretKeyShare: vEonSecret(eon),
		SecretShares: map[uint64][]*epochkg.EpochSecretKeyShare{}, SecretKeys: map[uint64]*shcrypto.EpochSecretKey{},
	}}
}

// VerifShareTiming: which shares of epoch keys a keyper publishes, and when.
func VerifShareTiming() {
	k := vStart()
	w := k.CurrentWorld()
	mc, sh := w.MainChain, w.Shutter
	b0, s0 := vFirstBatches[3*verifsym.Choose("start", 0, verifsym.Tier())], 1+vNum32("block")
	if verifsym.Tier() == 0 {
		b0 = 1<<33 + 1
	}
	schemes := [][]int{{1, 0, 2}, {1, 2}}
	scheme := verifsym.Choose("keypers", 0, 1)
	mc.BatchConfigs = []contract.BatchConfig{{}, {
		StartBatchIndex: b0, StartBlockNumber: s0, BatchSpan: 1, ExecutionTimeout: 1 + vNum32("timeout"),
		Keypers: vSigners(schemes[scheme]...), Threshold: 2,
	}}
	const batches = 3 // that many may have been closed
	nconfigs := 1 + verifsym.Choose("configs", 0, 1)
	// the keypers of the second config are those of the first, or keyper 0 only joins or leaves
	other := scheme
	if nconfigs == 2 {
		if verifsym.Choose("change", 0, 1) == 1 {
			other = 1 - scheme
		}
		mc.BatchConfigs = append(mc.BatchConfigs, contract.BatchConfig{
			StartBatchIndex: b0 + 1, StartBlockNumber: s0 + 1, BatchSpan: 2, ExecutionTimeout: 1 + vNum32("timeout"),
			Keypers: vSigners(schemes[other]...), Threshold: 2,
		})
	}
	sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: vSigners(0, 1, 2), Threshold: 2}}
	learn := func(i int) {
		c := mc.BatchConfigs[i]
		sh.BatchConfigs = append(sh.BatchConfigs, shutterevents.BatchConfig{
			StartBatchIndex: c.StartBatchIndex, Keypers: c.Keypers, Threshold: c.Threshold, ConfigIndex: uint64(i),
		})
	}
	// the key of the second eon replaces that of the first one later on
	second := b0 + uint64(verifsym.Choose("second", 0, 2))
	sh.Eons = []observe.Eon{
		{Eon: 3, StartEvent: shutterevents.EonStarted{Eon: 3, BatchIndex: b0}},
		{Eon: 4, StartEvent: shutterevents.EonStarted{Eon: 4, BatchIndex: second}},
	}
	eonOf := func(b uint64) uint64 {
		if b >= second {
			return 4
		}
		return 3
	}
	k.State.LastEonStarted = 4
	next := b0 + uint64(verifsym.Choose("next", 0, 1))
	k.State.NextEpochSecretShare = next
	mc.CurrentBlock = s0
	knownConfigs, have := 0, map[uint64]bool{}
	var knownKey uint64
	for step := 0; step < 2; step++ {
		for c := verifsym.Choose("configs known", knownConfigs, nconfigs); knownConfigs < c; knownConfigs++ {
			learn(knownConfigs + 1)
		}
		if step == 1 {
			sh = sh.ShallowClone()
			k.world.Store(observe.World{Shutter: sh, MainChain: mc})
		}
		for e := uint64(3); e <= 4; e++ {
			if !have[e] && verifsym.Choose("key", 0, 1) == 1 {
				have[e] = true
				k.State.EKGs = append(k.State.EKGs, vEKG(e))
			}
		}
		if step == 0 && len(k.State.EKGs) == 2 && verifsym.Choose("known", 0, 1) == 1 {
			// everybody else was faster
			knownKey = b0 + 1
			k.State.EKGs[eonOf(knownKey)-3].EpochKG.SecretKeys[knownKey] = &shcrypto.EpochSecretKey{}
		}
		mc.CurrentBlock += vNum32("blocks")
		now := mc.CurrentBlock
		active := 1
		if nconfigs == 2 && verifsym.Fork(now >= s0+1) {
			active = 2
		}
		cfg := mc.BatchConfigs[active]
		closed := cfg.StartBatchIndex + (now-cfg.StartBlockNumber)/cfg.BatchSpan
		verifsym.Assume(closed <= b0+batches)

		acts := vDecide(k)
		sh = vFilter(k)

		count := map[uint64]int{}
		for _, a := range acts {
			s, ok := a.(*fx.SendShuttermintMessage)
			if !ok {
				continue // executions
			}
			m := s.Msg.GetEpochSecretKeyShare()
			verifsym.Assert(m != nil, "nothing else is published")
			e := m.Epoch
			verifsym.Assert(e >= next && e < closed, "shares are published once, of closed batches")
			count[e]++
			verifsym.Assert(count[e] == 1, "shares are published once, of closed batches")
			eon := eonOf(e)
			verifsym.Assert(verifsym.DeepEq(m, shmsg.NewEpochSecretKeyShare(eon, e, vEpochShare(eon, e)).GetEpochSecretKeyShare()),
				"the share is that of the epoch, with the key of the eon")
			verifsym.Reach("share")
		}
		if knownConfigs < active {
			verifsym.Assert(len(count) == 0, "nothing is published before shuttermint knows the config")
			verifsym.Reach("unknown")
			continue
		}
		for b := next; b < b0+batches; b++ {
			if !verifsym.Fork(b < closed) {
				break
			}
			c := mc.BatchConfigs[1]
			who := scheme
			if nconfigs == 2 && b > b0 {
				c, who = mc.BatchConfigs[2], other
			}
			end := c.StartBlockNumber + (b+1-c.StartBatchIndex)*c.BatchSpan
			if count[b] > 0 {
				verifsym.Assert(now < end+c.ExecutionTimeout, "nothing is published after the timeout")
				verifsym.Assert(who == 0, "only keypers of the config publish shares")
			} else {
				due := who == 0 && have[eonOf(b)] && b != knownKey
				verifsym.Assert(!due || now+1 >= end+c.ExecutionTimeout, "the share of a closed batch is published")
				if due {
					verifsym.Reach("late")
				}
			}
		}
		next = closed
	}
}
