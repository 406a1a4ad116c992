package keyper

import (
	"crypto/ecdsa"
	"crypto/ed25519"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
)

// vSecret is the signing key of keyper i.
func vSecret(i int) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(common.LeftPadBytes([]byte{byte(i + 1)}, 32))
	if err != nil {
		panic(err)
	}
	return k
}

func vSigner(i int) common.Address { return crypto.PubkeyToAddress(vSecret(i).PublicKey) }

func vSigners(is ...int) []common.Address {
	var r []common.Address
	for _, i := range is {
		r = append(r, vSigner(i))
	}
	return r
}

func vNum32(name string) uint64 { return uint64(verifsym.U32(name)) }

// vStart is keyper 0, which knows that it's a keyper and has checked in.
func vStart() *Keyper {
	kpr := NewKeyper(Config{
		DBDir: "/db", SigningKey: vSecret(0), EncryptionKey: ecies.ImportECDSA(vSecret(100)),
		ValidatorKey: ed25519.NewKeyFromSeed(make([]byte, 32)), DKGPhaseLength: 30,
		BatcherContractAddress: common.BytesToAddress([]byte{0xba}), ConfigContractAddress: common.BytesToAddress([]byte{0xc0}),
	})
	kpr.State.CheckInMessageSent = true
	kpr.State.LastSentBatchConfigIndex = 100
	sh := observe.NewShutter()
	sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: vSigners(0, 1, 2), Threshold: 2}}
	kpr.world.Store(observe.World{Shutter: sh, MainChain: observe.NewMainChain(0)})
	return &kpr
}

// vDecide lets the keyper decide what to do.
func vDecide(kpr *Keyper) []fx.IAction {
	d := NewDecider(kpr)
	d.Decide()
	return d.Actions
}

// vFilter forgets what the keyper says it doesn't need anymore, as SyncShutter does.
func vFilter(kpr *Keyper) *observe.Shutter {
	w := kpr.CurrentWorld()
	w.Shutter = w.Shutter.ApplyFilter(kpr.State.GetShutterFilter(w.MainChain))
	kpr.world.Store(w)
	return w.Shutter
}

func vIsOneOf(addrs []common.Address, a common.Address) (uint64, bool) {
	for i := range addrs {
		if addrs[i] == a {
			return uint64(i), true
		}
	}
	return 0, false
}

// vScheme is who the keypers of a config are; keyper 0 is the one deciding.
var vSchemes = [][]int{{0}, {1, 2, 0}, {1, 2}, {}, {1, 0}, {0, 1, 2}}

// vFirstBatches are the start batches of configs.
var vFirstBatches = []uint64{0, 1<<33 + 1, 5, 1000002}

const (
	vMissing  = iota // not decrypted yet
	vEmpty           // no transactions
	vUnsigned        // not signed by enough keypers
	vReady
	vBatchStates
)

// VerifExecution: which half steps a keyper executes or skips, and when.
func VerifExecution() {
	k := vStart()
	mc := k.CurrentWorld().MainChain
	scheme := verifsym.Choose("keypers", 0, 3+2*verifsym.Tier())
	b0, s0 := vFirstBatches[scheme%2], 1+vNum32("block")
	span := uint64(1)
	if verifsym.Tier() > 0 {
		b0 = vFirstBatches[verifsym.Choose("batch", 0, 3)]
		span = uint64([]int{1, 3}[verifsym.Choose("span", 0, 1)])
	}
	keypers := vSigners(vSchemes[scheme]...)
	threshold := uint64(len(keypers)+1) / 2 // 0 if there is nobody
	mc.BatchConfigs = []contract.BatchConfig{{}, {
		StartBatchIndex: b0, StartBlockNumber: s0, BatchSpan: span, ExecutionTimeout: vNum32("timeout"),
		Keypers: keypers, Threshold: threshold, TransactionGasLimit: verifsym.U64("gas"),
	}}
	const batches = 6 // that many may have been closed
	if verifsym.Choose("configs", 0, 1) == 1 {
		mc.BatchConfigs = append(mc.BatchConfigs, contract.BatchConfig{
			StartBatchIndex: b0 + 1, StartBlockNumber: s0 + span, BatchSpan: 2, ExecutionTimeout: vNum32("timeout"),
			Keypers: vSigners(0, 1), Threshold: 1, TransactionGasLimit: verifsym.U64("gas"),
		})
	}
	k.Config.ExecutionStaggering = vNum32("staggering")
	y := vNum32("blocks")
	mc.CurrentBlock = s0 + y
	cur := mc.CurrentConfig()
	closed := cur.BatchIndex(mc.CurrentBlock) // all before are closed
	verifsym.Assume(closed <= b0+batches)
	first := uint64(verifsym.Choose("executed", 0, 1+verifsym.Tier()))
	next := 2*b0 + first
	mc.NumExecutionHalfSteps = next
	k.State.HalfStepsChecked = next
	k.State.NextEpochSecretShare = b0 + batches
	state := verifsym.Choose("state", 0, vBatchStates-1)
	special := b0
	if state != vReady {
		special += uint64(verifsym.Choose("special", 0, 1))
	}
	var pending *uint64
	if state == vReady && verifsym.Choose("pending", 0, 1) == 1 {
		p := verifsym.U64("pendingstep")
		pending = &p
		k.State.PendingHalfStep = &p
	}
	for i := uint64(0); i < batches; i++ {
		b := b0 + i
		st := vReady
		if b == special {
			st = state
		}
		mb := &observe.Batch{BatchIndex: b, EncryptedBatchHash: common.Hash{1, byte(i)}, PlainTransactions: [][]byte{{2, byte(i)}}}
		sb := &Batch{BatchIndex: b, DecryptedTransactions: [][]byte{{3, byte(i)}, {4}}, VerifiedSignatures: map[common.Address][]byte{}}
		c, _ := mc.ConfigForBatchIndex(b)
		sigs := c.Threshold
		switch st {
		case vEmpty:
			mb, sb.IsEmpty, sb.DecryptedTransactions, sigs = nil, true, nil, 0
		case vUnsigned:
			verifsym.Assume(sigs > 0) // without keypers nobody has to sign
			sigs--
		}
		for j := uint64(0); j < sigs; j++ {
			sb.VerifiedSignatures[c.Keypers[j]] = []byte{1}
		}
		if mb != nil {
			mc.Batches[b] = mb
		}
		if st != vMissing {
			k.State.Batches[b] = sb
		}
	}

	acts := vDecide(k)

	verifsym.Assert(len(acts) <= 10, "not too many half steps are executed at the same time")
	if pending != nil && *pending >= next {
		verifsym.Assert(len(acts) == 0, "nothing is executed while an earlier execution is pending")
		verifsym.Assert(k.State.PendingHalfStep != nil && *k.State.PendingHalfStep == *pending, "the pending half step is remembered")
		verifsym.Reach("pending")
		return
	}
	if len(acts) > 0 {
		verifsym.Assert(k.State.PendingHalfStep != nil && *k.State.PendingHalfStep == next+uint64(len(acts))-1, "the last half step is remembered as pending")
	} else {
		verifsym.Assert(k.State.PendingHalfStep == nil, "nothing is pending")
		verifsym.Reach("none")
	}
	now := mc.CurrentBlock
	for i := 0; i <= len(acts) && i < 10; i++ {
		step := next + uint64(i)
		b := b0 + (first+uint64(i))/2
		cipher := (first+uint64(i))%2 == 0
		if (first+uint64(i))/2 >= batches {
			verifsym.Assert(i == len(acts), "only closed batches are executed")
			break
		}
		c, _ := mc.ConfigForBatchIndex(b)
		end := c.BatchEndBlock(b)
		place, isKeyper := vIsOneOf(c.Keypers, vSigner(0))
		st := vReady
		if b == special {
			st = state
		}
		if i == len(acts) {
			// it may stop here only if there's a reason
			late := now >= end+c.ExecutionTimeout/2
			stop := b >= closed
			if cipher {
				timeout := now >= end+c.ExecutionTimeout
				skip := now >= end+c.ExecutionTimeout+c.ExecutionTimeout/2
				ready := isKeyper && (st == vEmpty || st == vReady)
				stop = verifsym.Or(stop, verifsym.And(!skip, verifsym.Or(timeout, !late, !ready)))
			} else {
				stop = verifsym.Or(stop, !late, !isKeyper)
			}
			verifsym.Assert(stop, "what has to be done is done")
			break
		}
		verifsym.Assert(b < closed && now >= end, "only closed batches are executed")
		switch a := acts[i].(type) {
		case *fx.ExecuteCipherBatch:
			verifsym.Assert(cipher && a.BatchIndex == b, "half steps are executed in order")
			verifsym.Assert(isKeyper && a.KeyperIndex == place, "batches are executed by keypers")
			verifsym.Assert(st == vEmpty || st == vReady, "encrypted batches are executed when decrypted and signed by enough keypers")
			verifsym.Assert(now < end+c.ExecutionTimeout, "encrypted batches are executed before the timeout")
			verifsym.Assert(verifsym.DeepEq(a.Transactions, k.State.Batches[b].DecryptedTransactions), "the decrypted transactions are executed")
			var hash common.Hash
			if st == vReady {
				hash = mc.Batches[b].EncryptedBatchHash
			}
			verifsym.Assert(a.CipherBatchHash == hash, "the hash of the batch is passed")
			verifsym.Assert(a.TransactionGasLimit == c.TransactionGasLimit, "the gas limit is the configured one")
			verifsym.Reach("cipher")
		case *fx.ExecutePlainBatch:
			verifsym.Assert(!cipher && a.BatchIndex == b, "half steps are executed in order")
			verifsym.Assert(isKeyper, "batches are executed by keypers")
			var txs [][]byte
			if mb := mc.Batches[b]; mb != nil {
				txs = mb.PlainTransactions
			}
			verifsym.Assert(len(txs) == len(a.Transactions) && (len(txs) == 0 || verifsym.DeepEq(a.Transactions, txs)), "the plain transactions are executed")
			verifsym.Assert(a.TransactionGasLimit == c.TransactionGasLimit, "the gas limit is the configured one")
			verifsym.Reach("plain")
		case *fx.SkipCipherBatch:
			verifsym.Assert(cipher && a.BatchIndex == b, "half steps are skipped in order")
			verifsym.Assert(now >= end+c.ExecutionTimeout, "encrypted batches are skipped after the timeout")
			verifsym.Reach("skip")
		default:
			verifsym.Assert(false, "nothing else is done")
		}
		_ = step
	}
}

// VerifTurns: keypers take turns in being the first one to execute half steps.
func VerifTurns() {
	n := verifsym.Choose("n", 1, 3+verifsym.Tier())
	b0, s0 := vFirstBatches[verifsym.Choose("batch", 1, 1+2*verifsym.Tier())], 1+vNum32("block")
	timeout, staggering := vNum32("timeout"), vNum32("staggering")
	x := vNum32("blocks")
	cipher := verifsym.Choose("cipher", 0, 1) == 1
	wait := staggering
	if n > 1 && timeout/uint64(2*(n-1)) < wait {
		wait = timeout / uint64(2*(n-1))
	}
	late, since := false, x // the end of the batch, or its timeout: then it's skipped
	if cipher && verifsym.Fork(x >= timeout) {
		late, since = true, x-timeout
		verifsym.Reach("skipping")
	}
	rounds := n
	if late && verifsym.Tier() == 0 {
		rounds = 1
	}
	turns := make([]bool, n)
	for rot := 0; rot < rounds; rot++ { // one half step after the other
		count := 0
		for own := 0; own < n; own++ {
			k := vStart()
			mc := k.CurrentWorld().MainChain
			var who []int
			for i := 0; i < n; i++ {
				who = append(who, (i-own+n)%n) // keyper 0 is in place own
			}
			mc.BatchConfigs = []contract.BatchConfig{{}, {
				StartBatchIndex: b0, StartBlockNumber: s0, BatchSpan: 4, ExecutionTimeout: timeout, Keypers: vSigners(who...), Threshold: 1,
			}}
			k.Config.ExecutionStaggering = staggering
			next := 2*b0 + uint64(2*rot) + 1
			if cipher {
				next--
			}
			b := b0 + uint64(rot)
			k.State.Batches[b] = &Batch{BatchIndex: b, IsEmpty: true}
			mc.CurrentBlock = s0 + 4*uint64(rot+1) + x
			mc.NumExecutionHalfSteps = next
			k.State.HalfStepsChecked = next
			k.State.NextEpochSecretShare = mc.BatchConfigs[1].BatchIndex(mc.CurrentBlock)
			if len(vDecide(k)) > 0 {
				count++
				if since == 0 && wait > 0 {
					turns[own] = true
				}
			}
		}
		// the first one may execute at once, the next one has to wait, and so on
		for c := 1; c <= n; c++ {
			if count == c {
				verifsym.Assert(verifsym.And(verifsym.Implies(c < n, since < uint64(c)*wait), since >= uint64(c-1)*wait), "one keyper after the other executes")
			}
		}
		verifsym.Assert(count > 0, "somebody executes")
	}
	if since == 0 && wait > 0 && n > 1 && n%2 == 1 && !late {
		verifsym.Reach("turns")
	}
}
