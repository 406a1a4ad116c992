package keyper

import (
	"encoding/binary"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
)

// vTransactionsHash is the batch hash the executor contract computes.
func vTransactionsHash(txs [][]byte) []byte {
	h := make([]byte, 32)
	for _, tx := range txs {
		h = crypto.Keccak256(append(append([]byte{}, tx...), h...))
	}
	return h
}

// vAuthorizationHash is what keypers sign according to the slasher contract.
func vAuthorizationHash(k *Keyper, batch uint64, cipherHash common.Hash, batchHash []byte) []byte {
	m := append([]byte("\x19dectx"), k.Config.BatcherContractAddress[:]...)
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, batch)
	m = append(m, b...)
	m = append(m, cipherHash[:]...)
	return crypto.Keccak256(append(m, batchHash...))
}

func vSign(hash []byte, i int) []byte {
	s, err := crypto.Sign(hash, vSecret(i))
	if err != nil {
		panic(err)
	}
	return s
}

var vEonPoly = []*big.Int{big.NewInt(5000), big.NewInt(77)}

func vEonShare(i int) *shcrypto.EonSecretKeyShare {
	p, err := shcrypto.NewPolynomial(vEonPoly)
	if err != nil {
		panic(err)
	}
	return shcrypto.ComputeEonSecretKeyShare([]*big.Int{p.EvalForKeyper(i)})
}

func vEpochID(epoch uint64) *shcrypto.EpochID {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, epoch)
	return shcrypto.ComputeEpochID(b)
}

// vEon is the state of the keyper after the DKG of eon 3 among the given keypers.
func vEon(keypers []common.Address, me int) *EKG {
	p, err := shcrypto.NewPolynomial(vEonPoly)
	if err != nil {
		panic(err)
	}
	gammas := []*shcrypto.Gammas{p.Gammas()}
	kg := &epochkg.EpochKG{
		Eon: 3, NumKeypers: uint64(len(keypers)), Threshold: 2, Keyper: uint64(me), SecretKeyShare: vEonShare(me),
		PublicKey:    shcrypto.ComputeEonPublicKey(gammas),
		SecretShares: map[uint64][]*epochkg.EpochSecretKeyShare{}, SecretKeys: map[uint64]*shcrypto.EpochSecretKey{},
	}
	for i := range keypers {
		kg.PublicKeyShares = append(kg.PublicKeyShares, shcrypto.ComputeEonPublicKeyShare(i, gammas))
	}
	return &EKG{Eon: 3, Keypers: keypers, EpochKG: kg}
}

// vEpochKey is the key of an epoch in eon 3.
func vEpochKey(epoch uint64) *shcrypto.EpochSecretKey {
	key, err := shcrypto.ComputeEpochSecretKey([]int{0, 1}, []*shcrypto.EpochSecretKeyShare{
		shcrypto.ComputeEpochSecretKeyShare(vEonShare(0), vEpochID(epoch)),
		shcrypto.ComputeEpochSecretKeyShare(vEonShare(1), vEpochID(epoch)),
	}, 2)
	if err != nil {
		panic(err)
	}
	return key
}

// vEncrypted is a transaction encrypted for an epoch of eon 3.
func vEncrypted(ekg *EKG, epoch uint64, tx []byte, sigma byte) []byte {
	return shcrypto.Encrypt(append([]byte{}, tx...), ekg.EpochKG.PublicKey, vEpochID(epoch), shcrypto.Block{sigma}).Marshal()
}

// vGarbage tells where to cut a transaction, if at all.
func vGarbage(i, j, n int) int {
	if i != 0 || j != 0 {
		return -1
	}
	switch verifsym.Choose("garbage", 0, 2) {
	case 1:
		return n - 1
	case 2:
		return 5
	}
	return -1
}

// vShuffle stands for the pseudorandom order of the transactions.
func vShuffle(txs [][]byte, key *shcrypto.EpochSecretKey) [][]byte {
	var r [][]byte
	for i := len(txs) - 1; i >= 0; i-- {
		r = append(r, txs[i])
	}
	return r
}

func vShareEvent(height int64, keypers []common.Address, i int, epoch uint64) shutterevents.EpochSecretKeyShare {
	return shutterevents.EpochSecretKeyShare{
		Height: height, Sender: keypers[i], Eon: 3, Epoch: epoch,
		Share: shcrypto.ComputeEpochSecretKeyShare(vEonShare(i), vEpochID(epoch)),
	}
}

// vDecryptStart is a keyper with the eon key, and configs with batches from b0 on.
func vDecryptStart(b0, s0, span uint64) (*Keyper, *EKG, []common.Address) {
	k := vStart()
	w := k.CurrentWorld()
	keypers := vSigners(1, 0, 2)
	w.MainChain.BatchConfigs = []contract.BatchConfig{{}, {
		StartBatchIndex: b0, StartBlockNumber: s0, BatchSpan: span, ExecutionTimeout: 1 + vNum32("timeout"), Keypers: keypers, Threshold: 2,
	}, {
		// the next config is far in the future
		StartBatchIndex: b0 + 1<<40, StartBlockNumber: s0 + span<<40, BatchSpan: span, ExecutionTimeout: 5, Keypers: vSigners(3), Threshold: 1,
	}}
	w.Shutter.BatchConfigs = []shutterevents.BatchConfig{ // shares are not of interest here
		{StartBatchIndex: b0, Keypers: keypers, Threshold: 2, ConfigIndex: 7},
		{StartBatchIndex: b0 + 1<<40, Keypers: vSigners(3), Threshold: 1, ConfigIndex: 8},
	}
	w.Shutter.Eons = []observe.Eon{{Eon: 3, StartEvent: shutterevents.EonStarted{Eon: 3, BatchIndex: b0}}}
	k.State.LastEonStarted = 3
	ekg := vEon(keypers, 1)
	k.State.EKGs = []*EKG{ekg}
	// neither are executions
	w.MainChain.NumExecutionHalfSteps = 2 * b0
	k.State.HalfStepsChecked = 2 * b0
	pending := 2*b0 + 1<<40
	k.State.PendingHalfStep = &pending
	return k, ekg, keypers
}

func vSignaturesSent(acts []fx.IAction) map[uint64][]byte {
	r := map[uint64][]byte{}
	for _, a := range acts {
		s, ok := a.(*fx.SendShuttermintMessage)
		if !ok {
			continue
		}
		if m := s.Msg.GetDecryptionSignature(); m != nil {
			verifsym.Assert(r[m.BatchIndex] == nil, "a batch is signed once")
			r[m.BatchIndex] = m.Signature
		}
	}
	return r
}

// VerifDecryption: batches are decrypted and signed when they are complete, whenever their key gets
// known.
func VerifDecryption() {
	b0, s0 := vFirstBatches[1], 1+vNum32("block")
	k, ekg, keypers := vDecryptStart(b0, s0, 2)
	mc, sh := k.CurrentWorld().MainChain, k.CurrentWorld().Shutter
	const batches = 2
	// the transactions, those which are lost, and their hashes
	var txs, cipher [batches][][]byte
	var hash [batches][]common.Hash
	for i := range txs {
		n := 2 - i
		if i == 0 {
			n = verifsym.Choose("transactions", 0, 2)
		}
		for j := 0; j < n; j++ {
			tx := make([]byte, [][]int{{33, 0}, {3}}[i][j])
			if len(tx) > 0 {
				tx[0] = byte(16*i + j)
			}
			c := vEncrypted(ekg, b0+uint64(i), tx, byte(1+2*i+j))
			if g := vGarbage(i, j, len(c)); g >= 0 {
				c = c[:g]
			} else {
				txs[i] = append(txs[i], tx)
			}
			cipher[i] = append(cipher[i], c)
			hash[i] = append(hash[i], common.BytesToHash(verifsym.Bytes("hash", 32)))
			verifsym.Assume(hash[i][j] != common.Hash{})
		}
	}
	var key [batches]int
	for i := range key {
		key[i] = verifsym.Choose("key", 0, 2)
	}
	mc.CurrentBlock = s0
	var done [batches]bool
	for step := 0; step < 3; step++ {
		mc.CurrentBlock += vNum32("blocks")
		now := mc.CurrentBlock
		sh.CurrentBlock = int64(10 + step)
		var closed [batches]bool
		for i := range txs {
			b := b0 + uint64(i)
			closed[i] = verifsym.Fork(now >= s0+2*uint64(i+1))
			seen := len(cipher[i])
			if !closed[i] {
				// transactions may be added until the batch is closed
				seen = 0
				if old := mc.Batches[b]; old != nil {
					seen = len(old.EncryptedTransactions)
				}
				if seen == 0 && len(cipher[i]) > 0 {
					seen = verifsym.Choose("seen", 0, 1)
				}
			}
			if seen > 0 {
				mc.Batches[b] = &observe.Batch{BatchIndex: b, EncryptedTransactions: cipher[i][:seen], EncryptedBatchHash: hash[i][seen-1]}
			}
			if key[i] == step {
				e := &sh.Eons[0]
				e.EpochSecretKeyShares = append(e.EpochSecretKeyShares, vShareEvent(sh.CurrentBlock, keypers, 2, b), vShareEvent(sh.CurrentBlock, keypers, 0, b))
			}
		}
		sent := vSignaturesSent(vDecide(k))
		sh = vFilter(k)
		for i := range txs {
			b := b0 + uint64(i)
			sb := k.State.Batches[b]
			if !closed[i] || step < key[i] {
				verifsym.Assert(sb == nil && sent[b] == nil, "a batch is not decrypted before it is closed and its key is known")
				if step >= key[i] {
					verifsym.Reach("early")
				}
				continue
			}
			verifsym.Assert(sb != nil, "a closed batch is decrypted when its key is known")
			want := shcrypto.Shuffle(txs[i], vEpochKey(b))
			same := len(sb.DecryptedTransactions) == len(want)
			for j := 0; same && j < len(want); j++ {
				same = verifsym.DeepEq(sb.DecryptedTransactions[j], want[j])
			}
			verifsym.Assert(same, "all decryptable transactions are there, in the right order")
			th := vTransactionsHash(want)
			verifsym.Assert(verifsym.DeepEq(sb.DecryptedBatchHash, th), "the batch hash is what the contract computes")
			var ch common.Hash
			if n := len(hash[i]); n > 0 {
				ch = hash[i][n-1]
			}
			verifsym.Assert(sb.BatchIndex == b && sb.IsEmpty == (len(cipher[i]) == 0), "batches without transactions are empty")
			ah := vAuthorizationHash(k, b, ch, th)
			verifsym.Assert(verifsym.DeepEq(sb.DecryptionSignatureHash, ah), "the authorization hash is what the contract computes")
			end := s0 + 2*uint64(i+1)
			timeout := end + mc.BatchConfigs[1].ExecutionTimeout
			switch {
			case done[i] || len(cipher[i]) == 0:
				verifsym.Assert(sent[b] == nil, "a batch is signed once")
			case sent[b] != nil:
				verifsym.Assert(now < timeout, "batches are not signed after the timeout")
				verifsym.Assert(verifsym.DeepEq(sent[b], vSign(ah, 0)), "the keyper signs what it decrypted")
				verifsym.Reach("signed")
			default:
				verifsym.Assert(now+1 >= timeout, "the keyper signs what it decrypted")
				verifsym.Reach("late")
			}
			done[i] = true
		}
	}
}

// VerifSignatures: the signatures of other keypers are collected, but only valid ones.
func VerifSignatures() {
	b0, s0 := vFirstBatches[1], 1+vNum32("block")
	k, ekg, keypers := vDecryptStart(b0, s0, 1)
	mc, sh := k.CurrentWorld().MainChain, k.CurrentWorld().Shutter
	tx := []byte{1, 2, 3}
	ch := common.BytesToHash(verifsym.Bytes("hash", 32))
	verifsym.Assume(ch != common.Hash{})
	mc.Batches[b0] = &observe.Batch{BatchIndex: b0, EncryptedTransactions: [][]byte{vEncrypted(ekg, b0, tx, 1)}, EncryptedBatchHash: ch}
	mc.CurrentBlock = s0 + 1
	ah := vAuthorizationHash(k, b0, ch, vTransactionsHash([][]byte{tx}))
	wrong := vAuthorizationHash(k, b0+1, ch, vTransactionsHash([][]byte{tx}))
	valid := map[int]bool{}
	executed := verifsym.Choose("executed", 0, 3) // at step 1, 2 or never, or half of it at step 0
	n := 0
	total, bad := 3+verifsym.Tier(), 1+verifsym.Tier()
	for step := 0; step < 3; step++ {
		sh.CurrentBlock = int64(10 + step)
		for m := verifsym.Choose("signatures", 0, 1) * (1 + (total-n)/2); m > 0 && n < total; m-- {
			n++
			who := verifsym.Choose("signer", 0, 2)
			ev := shutterevents.DecryptionSignature{Height: sh.CurrentBlock, BatchIndex: b0, Sender: vSigner(who), Signature: vSign(ah, who)}
			kind := 0
			if bad > 0 {
				kind = verifsym.Choose("kind", 0, 4)
			}
			if kind > 0 {
				bad--
			}
			switch kind {
			case 0:
				valid[who] = true
			case 1:
				ev.Signature = vSign(wrong, who)
			case 2: // not a keyper, or not the sender
				ev.Sender = vSigner(who + 1)
				if ev.Sender == vSigner(3) {
					ev.Signature = vSign(ah, 3)
				}
			case 3: // the contract doesn't accept these
				ev.Signature = verifsym.HighS(ev.Signature)
			case 4:
				ev.Signature = ev.Signature[:64]
			}
			if sh.Batches[b0] == nil {
				sh.Batches[b0] = &observe.BatchData{BatchIndex: b0}
			}
			sh.Batches[b0].DecryptionSignatures = append(sh.Batches[b0].DecryptionSignatures, ev)
		}
		if step == 1 {
			e := &sh.Eons[0]
			e.EpochSecretKeyShares = append(e.EpochSecretKeyShares, vShareEvent(sh.CurrentBlock, keypers, 2, b0), vShareEvent(sh.CurrentBlock, keypers, 0, b0))
		}
		count := len(valid)
		if count > 2 {
			count = 2
		}
		mc.CurrentBlock += vNum32("blocks")
		if executed == step-1 {
			mc.NumExecutionHalfSteps = 2*b0 + 2
			k.State.HalfStepsChecked = 2*b0 + 2
		}
		if executed == 3 {
			mc.NumExecutionHalfSteps = 2*b0 + 1
			k.State.HalfStepsChecked = 2*b0 + 1
		}
		sent := vSignaturesSent(vDecide(k))
		sh = vFilter(k)
		if step == 0 {
			verifsym.Assert(len(sent) == 0 && k.State.Batches[b0] == nil, "nothing is signed before the key is known")
			continue
		}
		sb := k.State.Batches[b0]
		verifsym.Assert(len(sb.VerifiedSignatures) >= count, "valid signatures are collected up to the threshold")
		for addr, sig := range sb.VerifiedSignatures {
			ok := false
			for i := 0; i < 3; i++ {
				ok = ok || vSigner(i) == addr && valid[i] && verifsym.DeepEq(sig, vSign(ah, i))
			}
			verifsym.Assert(ok, "only signatures which the contract accepts are collected")
			verifsym.Reach("collected")
		}
		if sig := sent[b0]; sig != nil {
			verifsym.Assert(step == 1 && verifsym.DeepEq(sig, vSign(ah, 0)), "the keyper signs what it decrypted, once")
		} else if step == 1 {
			verifsym.Assert(verifsym.Or(count == 2, mc.CurrentBlock+1 >= s0+1+mc.BatchConfigs[1].ExecutionTimeout), "the keyper signs what it decrypted unless others did")
			verifsym.Reach("enough")
		}
	}
}
