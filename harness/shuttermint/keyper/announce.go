package keyper

import (
	"bytes"
	"crypto/ed25519"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
)

// VerifAnnounce: when a keyper checks in and which batch configs it proposes.
func VerifAnnounce() {
	k := vStart()
	k.State.CheckInMessageSent = false
	k.State.LastSentBatchConfigIndex = 0
	self := vSigner(0)
	mc := observe.NewMainChain(0)
	mc.BatchConfigs = []contract.BatchConfig{{}}
	const configs = 3
	var all []contract.BatchConfig
	for i := 0; i < configs; i++ {
		c := contract.BatchConfig{
			StartBatchIndex: verifsym.U64("start batch"), Threshold: verifsym.U64("threshold"),
			// not active yet
			StartBlockNumber: 1<<40 + uint64(i), BatchSpan: 1,
			Keypers: [][]common.Address{vSigners(0, 1), vSigners(1, 2), vSigners(2, 0, 1)}[i],
		}
		all = append(all, c)
	}
	steps := 3 + verifsym.Tier()
	var onMain, onShutter, sentConfigs int
	first := verifsym.Choose("first", 0, 1) // whether the keyper is one of the initial ones
	checkedIn, checkIns := false, 0
	for step := 0; step < steps; step++ {
		// more configs are set up on the main chain, some of them decided about on the other one
		for more := verifsym.Choose("main", 0, 1+verifsym.Tier()); more > 0 && onMain < configs; more-- {
			mc.BatchConfigs = append(mc.BatchConfigs, all[onMain])
			onMain++
		}
		if onShutter < onMain && verifsym.Choose("decided", 0, 1) == 1 {
			onShutter++
		}
		if !checkedIn && verifsym.Choose("checked in", 0, 1) == 1 {
			checkedIn = true // the check-in may have been sent before the state got lost
		}
		sh := observe.NewShutter()
		sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: vSigners([][]int{{1, 2}, {1, 0}}[first]...), Threshold: 2}}
		for i := 0; i < onShutter; i++ {
			sh.BatchConfigs = append(sh.BatchConfigs, shutterevents.BatchConfig{
				StartBatchIndex: all[i].StartBatchIndex, Threshold: all[i].Threshold, Keypers: all[i].Keypers, ConfigIndex: uint64(i + 1),
			})
		}
		if checkedIn {
			sh.KeyperEncryptionKeys[self] = (*observe.EncryptionPublicKey)(&k.Config.EncryptionKey.PublicKey)
		}
		k.world.Store(observe.World{Shutter: sh, MainChain: mc})
		isKeyper := first == 1 || onShutter > 0
		acts := vDecide(k)
		n := 0
		for _, a := range acts {
			s, ok := a.(*fx.SendShuttermintMessage)
			verifsym.Assert(ok, "only messages are sent")
			if m := s.Msg.GetCheckIn(); m != nil {
				checkIns++
				verifsym.Assert(!checkedIn, "nobody checks in twice")
				verifsym.Assert(bytes.Equal(m.ValidatorPublicKey, k.Config.ValidatorKey.Public().(ed25519.PublicKey)), "the validator key is announced")
				verifsym.Assert(bytes.Equal(m.EncryptionPublicKey, crypto.CompressPubkey(k.Config.EncryptionKey.PublicKey.ExportECDSA())), "the encryption key is announced")
				continue
			}
			m := s.Msg.GetBatchConfig()
			verifsym.Assert(m != nil, "nothing else is sent")
			n++
			verifsym.Assert(int(m.ConfigIndex) == onShutter+1 && onShutter < onMain, "the next config is proposed")
			c := all[onShutter]
			same := verifsym.And(m.StartBatchIndex == c.StartBatchIndex, m.Threshold == c.Threshold, len(m.Keypers) == len(c.Keypers), !m.Started, !m.ValidatorsUpdated)
			for i := range c.Keypers {
				same = verifsym.And(same, bytes.Equal(m.Keypers[i], c.Keypers[i].Bytes()))
			}
			same = verifsym.And(same, bytes.Equal(m.ConfigContractAddress, k.Config.ConfigContractAddress.Bytes()))
			verifsym.Assert(same, "the proposed config is the one of the main chain")
			verifsym.Assert(sentConfigs < onShutter+1, "a config is proposed once")
			sentConfigs = onShutter + 1
			verifsym.Reach("proposed")
		}
		if !isKeyper {
			verifsym.Assert(len(acts) == 0, "only keypers do something")
			verifsym.Reach("other")
			continue
		}
		verifsym.Assert(n <= 1, "one config after the other is proposed")
		if onShutter < onMain {
			verifsym.Assert(sentConfigs == onShutter+1, "the next config is proposed")
		}
		if !checkedIn {
			verifsym.Assert(checkIns == 1, "the keyper checks in once")
			verifsym.Reach("checkin")
		}
		verifsym.Assert(checkIns <= 1, "the keyper checks in once")
	}
}

// VerifJoin: which key generations a keyper joins.
func VerifJoin() {
	k := vStart()
	sh := k.CurrentWorld().Shutter
	mc := k.CurrentWorld().MainChain
	mc.BatchConfigs = []contract.BatchConfig{{}}
	start := uint64(verifsym.U32("start"))
	other := verifsym.Choose("other", 0, 2)
	schemes := [][]common.Address{vSigners(1, 2), vSigners(2, 1, 0), vSigners(0)}
	thresholds := []uint64{1, 2, 1}
	sh.BatchConfigs = append(sh.BatchConfigs, shutterevents.BatchConfig{
		StartBatchIndex: start, Keypers: schemes[other], Threshold: thresholds[other], ConfigIndex: 1,
	})
	var eons []observe.Eon
	n := 2 + verifsym.Tier()
	number := uint64(3)
	known := 0
	for i := 0; i < n; i++ {
		b := uint64(verifsym.U32("batch"))
		h := int64(20 + 10*i)
		eons = append(eons, observe.Eon{Eon: number, StartHeight: h, StartEvent: shutterevents.EonStarted{Height: h, Eon: number, BatchIndex: b}})
		number += 1 + uint64(verifsym.Choose("gap", 0, 1))
	}
	polls := 2
	for p := 0; p < polls; p++ {
		known = verifsym.Choose("known", known, n)
		s := sh.ShallowClone()
		s.Eons = eons[:known]
		s.CurrentBlock = int64(100 + 10*p)
		k.world.Store(observe.World{Shutter: s, MainChain: mc})
		vFilter(k)
		vDecide(k)
	}
	verifsym.Assume(known == n)
	i := 0
	for _, e := range eons {
		keypers, threshold := vSigners(0, 1, 2), uint64(2)
		if verifsym.Fork(e.StartEvent.BatchIndex >= start) {
			keypers, threshold = schemes[other], thresholds[other]
		}
		index := -1
		for j, a := range keypers {
			if a == vSigner(0) {
				index = j
			}
		}
		if index < 0 {
			verifsym.Reach("other keypers")
			continue
		}
		verifsym.Assert(i < len(k.State.DKGs), "key generations are joined")
		d := k.State.DKGs[i]
		i++
		verifsym.Assert(verifsym.And(d.Eon == e.Eon, d.StartBatchIndex == e.StartEvent.BatchIndex), "key generations are joined once, in their order")
		verifsym.Assert(verifsym.DeepEq(d.Keypers, keypers), "the keypers are those of the config")
		p := d.Pure
		verifsym.Assert(p != nil && verifsym.And(p.Eon == e.Eon, p.NumKeypers == uint64(len(keypers)), p.Threshold == threshold, p.Keyper == uint64(index)), "key generations are joined with the config's parameters")
		verifsym.Reach("joined")
	}
	verifsym.Assert(i == len(k.State.DKGs), "key generations are joined once")
}
