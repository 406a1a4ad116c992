package keyper

import (
	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
)

// vExecStart is a keyper after the execution of batches from b0 on.
func vExecStart(b0 uint64, scheme []int) (*Keyper, *observe.MainChain, []common.Address) {
	k := vStart()
	w := k.CurrentWorld()
	mc := w.MainChain
	keypers := vSigners(scheme...)
	mc.BatchConfigs = []contract.BatchConfig{{}, {
		StartBatchIndex: b0, StartBlockNumber: 1, BatchSpan: 1, ExecutionTimeout: 1 << 30, Keypers: keypers, Threshold: 2,
	}}
	mc.CurrentBlock = 1 + 100
	w.Shutter.BatchConfigs = []shutterevents.BatchConfig{{Keypers: vSigners(0, 1, 2), Threshold: 2, ConfigIndex: 7}}
	pending := 2*b0 + 1<<40
	k.State.PendingHalfStep = &pending
	k.State.HalfStepsChecked = 2 * b0
	mc.NumExecutionHalfSteps = 2 * b0
	return k, mc, keypers
}

func vHash(name string) common.Hash { return common.BytesToHash(verifsym.Bytes(name, 32)) }

// VerifAccuse: who executes something else than the decrypted batch is accused.
func VerifAccuse() {
	b0 := vFirstBatches[1]
	who := verifsym.Choose("keypers", 0, 1)
	k, mc, keypers := vExecStart(b0, [][]int{{1, 2, 0}, {1, 2}}[who])
	me, isKeyper := vIsOneOf(keypers, vSigner(0))
	const batches = 2
	const never = 3
	var executed, decrypted, accused [batches]int // at which step
	var own, result, cipher [batches]common.Hash
	var skipped, done [batches]bool
	for i := range own {
		executed[i] = verifsym.Choose("executed", 0, 1)
		if i > 0 && executed[i] < executed[i-1] {
			executed[i] = executed[i-1]
		}
		full := i == 0 || verifsym.Tier() > 0
		skipped[i] = full && verifsym.Choose("skipped", 0, 1) == 1
		decrypted[i] = verifsym.Choose("decrypted", 0, never)
		accused[i] = never
		if full && !skipped[i] && verifsym.Choose("accused", 0, 1) == 1 {
			accused[i] = executed[i] + verifsym.Choose("when", 0, 1)
		}
		own[i], result[i], cipher[i] = vHash("own"), vHash("result"), vHash("cipher")
	}
	for step := 0; step < 3; step++ {
		for i := range own {
			h := 2 * (b0 + uint64(i))
			if executed[i] == step {
				mc.NumExecutionHalfSteps = h + 1
				if verifsym.Tier() > 0 && verifsym.Choose("plain", 0, 1) == 1 || i+1 < batches && executed[i+1] == step {
					mc.NumExecutionHalfSteps = h + 2
				}
				if !skipped[i] {
					mc.CipherExecutionReceipts[h] = &contract.CipherExecutionReceipt{
						Executed: true, Executor: vSigner(1), HalfStep: h, CipherBatchHash: cipher[i], BatchHash: result[i],
					}
				}
			}
			if decrypted[i] == step {
				k.State.Batches[h/2] = &Batch{BatchIndex: h / 2, DecryptedBatchHash: own[i].Bytes()}
			}
			if accused[i] == step {
				mc.Accusations[h] = &observe.Accusation{HalfStep: h, Executor: vSigner(1), Accuser: vSigner(2)}
			}
		}
		if executed[0] < step && mc.NumExecutionHalfSteps == 2*b0+1 {
			mc.NumExecutionHalfSteps++ // the plain transactions
		}
		acts := vDecide(k)
		var got [batches]*fx.Accuse
		for _, a := range acts {
			acc, ok := a.(*fx.Accuse)
			if !ok {
				continue
			}
			i := acc.HalfStep/2 - b0
			verifsym.Assert(acc.HalfStep%2 == 0 && acc.HalfStep >= 2*b0 && i < batches, "executors of encrypted batches are accused")
			verifsym.Assert(got[i] == nil, "nobody is accused twice")
			got[i] = acc
		}
		for i := range own {
			if done[i] || executed[i] > step || decrypted[i] > step || skipped[i] || !isKeyper {
				verifsym.Assert(got[i] == nil, "nobody is accused without need, twice or too early")
				continue
			}
			done[i] = true
			wrong := verifsym.And(own[i] != result[i], cipher[i] != common.Hash{}, accused[i] > step)
			verifsym.Assert((got[i] != nil) == wrong, "exactly who executed something else is accused")
			if got[i] != nil {
				verifsym.Assert(got[i].KeyperIndex == me, "the keyper accuses with its own index")
				verifsym.Reach("accused")
				if decrypted[i] > executed[i] {
					verifsym.Reach("late")
				}
			}
		}
	}
}

// VerifAppeal: appeals are made against wrong accusations, with what the contract wants to see.
func VerifAppeal() {
	b0 := vFirstBatches[1]
	k, mc, keypers := vExecStart(b0, [][]int{{1, 2, 0}, {3, 1, 0, 2}}[verifsym.Choose("keypers", 0, 1)])
	threshold := uint64(verifsym.Choose("threshold", 1, 3))
	mc.BatchConfigs[1].Threshold = threshold
	const batches = 2
	const never = 3
	var accused, appealed, signed [batches]int
	var own, result, cipher [batches]common.Hash
	var enough, sent [batches]bool
	k.State.Batches = map[uint64]*Batch{}
	for i := range own {
		b := b0 + uint64(i)
		accused[i] = never
		appealed[i] = never
		own[i], result[i], cipher[i] = vHash("own"), vHash("result"), vHash("cipher")
		if i > 0 && verifsym.Tier() == 0 {
			accused[i] = 1
		} else if i == 0 || verifsym.Choose("second", 0, 1) == 1 {
			accused[i] = verifsym.Choose("accused", 0, 1)
			if verifsym.Choose("appealed", 0, 1) == 1 {
				appealed[i] = accused[i] + verifsym.Choose("when", 0, 1)
			}
		}
		signed[i] = never
		if i > 0 && verifsym.Tier() == 0 {
			signed[i] = 0
		} else if i == 0 || accused[1] != never {
			signed[i] = verifsym.Choose("signed", 0, 1)
		}
		mc.CipherExecutionReceipts[2*b] = &contract.CipherExecutionReceipt{
			Executed: true, Executor: vSigner(1), HalfStep: 2 * b, CipherBatchHash: cipher[i], BatchHash: result[i],
		}
		k.State.Batches[b] = &Batch{BatchIndex: b, DecryptedBatchHash: own[i].Bytes(), DecryptionSignatureHash: vAuthorizationHash(k, b, cipher[i], own[i].Bytes())}
	}
	mc.NumExecutionHalfSteps = 2 * (b0 + batches)
	if verifsym.Choose("undecrypted", 0, 1) == 1 {
		delete(k.State.Batches, b0)
		signed[0] = never
	}
	reverse := verifsym.Choose("reverse", 0, 1) == 1
	for step := 0; step < 3; step++ {
		for i := range own {
			b := b0 + uint64(i)
			if accused[i] == step {
				mc.Accusations[2*b] = &observe.Accusation{HalfStep: 2 * b, Executor: vSigner(1), Accuser: vSigner(2)}
			}
			if appealed[i] == step {
				mc.Accusations[2*b].Appealed = true
			}
			if signed[i] == step {
				// by the last, the first, the second ...
				n := 3
				if i == 0 || verifsym.Tier() > 0 {
					n = verifsym.Choose("signatures", 0, 3)
				}
				order := []int{len(keypers) - 1, 0, 1}
				for _, j := range order[:n] {
					for s := 0; s < 4; s++ {
						if vSigner(s) == keypers[j] {
							k.State.Batches[b].AddSignature(keypers[j], vSign(k.State.Batches[b].DecryptionSignatureHash, s))
						}
					}
				}
				enough[i] = uint64(n) >= threshold
			}
		}
		verifsym.MapReverse(reverse)
		acts := vDecide(k)
		verifsym.MapReverse(false)
		var got [batches]*fx.Appeal
		for _, a := range acts {
			ap, ok := a.(*fx.Appeal)
			if !ok {
				continue
			}
			i := ap.Authorization.HalfStep/2 - b0
			verifsym.Assert(ap.Authorization.HalfStep%2 == 0 && ap.Authorization.HalfStep >= 2*b0 && i < batches, "appeals are about executed batches")
			verifsym.Assert(got[i] == nil, "there's one appeal at a time")
			got[i] = ap
		}
		for i := range own {
			b := b0 + uint64(i)
			if accused[i] > step || appealed[i] <= step || !enough[i] || sent[i] {
				verifsym.Assert(got[i] == nil, "there's no appeal without need")
				continue
			}
			verifsym.Assert((got[i] != nil) == (own[i] == result[i]), "appeals are made exactly against wrong accusations")
			if got[i] == nil {
				continue
			}
			sent[i] = true
			au := got[i].Authorization
			verifsym.Assert(au.BatchHash == [32]byte(result[i]), "the appeal is about the executed transactions")
			verifsym.Assert(uint64(len(au.Signatures)) >= threshold && len(au.Signatures) == len(au.SignerIndices), "there are enough signatures")
			hash := vAuthorizationHash(k, b, cipher[i], result[i][:])
			for j := range au.Signatures {
				verifsym.Assert(au.SignerIndices[j] < uint64(len(keypers)) && (j == 0 || au.SignerIndices[j] > au.SignerIndices[j-1]), "signers are listed in order")
				var want []byte
				for s := 0; s < 4; s++ {
					if vSigner(s) == keypers[au.SignerIndices[j]] {
						want = vSign(hash, s)
					}
				}
				want[64] += 27
				verifsym.Assert(verifsym.DeepEq(au.Signatures[j], want), "the contract accepts the signatures")
			}
			verifsym.Reach("appeal")
		}
	}
}
