DEC = "shuttermint/keyper/decide.go"
KPR = "shuttermint/keyper/keyper.go"
OBS = "shuttermint/keyper/observe/shutter.go"
MCH = "shuttermint/keyper/observe/mainchain.go"
FXA = "shuttermint/keyper/fx/actions.go"
FXP = "shuttermint/keyper/fx/pending.go"
FXR = "shuttermint/keyper/fx/runenv.go"
FXM = "shuttermint/keyper/fx/messagesender.go"
EKGF = "shuttermint/keyper/epochkg/epochkg.go"
EVM = "shuttermint/keyper/shutterevents/marshal.go"
CFGF = "shuttermint/contract/config.go"

KHEAD = '''
package keyper

import (
IMPORTS)

'''
KIMP = {
 "testing": '"testing"', "big": '"math/big"', "common": '"github.com/ethereum/go-ethereum/common"',
 "crypto": '"github.com/ethereum/go-ethereum/crypto"', "ecies": '"github.com/ethereum/go-ethereum/crypto/ecies"',
 "ecdsa": '"crypto/ecdsa"', "rand": '"crypto/rand"', "os": '"os"', "filepath": '"path/filepath"', "context": '"context"',
 "errors": '"errors"', "bytes": '"bytes"', "sort": '"sort"', "fmt": '"fmt"',
 "puredkg": '"github.com/shutter-network/shutter/shlib/puredkg"', "shcrypto": '"github.com/shutter-network/shutter/shlib/shcrypto"',
 "contract": '"github.com/shutter-network/shutter/shuttermint/contract"',
 "epochkg": '"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"',
 "fx": '"github.com/shutter-network/shutter/shuttermint/keyper/fx"',
 "observe": '"github.com/shutter-network/shutter/shuttermint/keyper/observe"',
 "shutterevents": '"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"',
 "shmsg": '"github.com/shutter-network/shutter/shuttermint/shmsg"',
 "abcitypes": 'abcitypes "github.com/tendermint/tendermint/abci/types"',
 "client": '"github.com/tendermint/tendermint/rpc/client"',
 "ctypes": 'ctypes "github.com/tendermint/tendermint/rpc/core/types"',
 "tmtypes": 'tmtypes "github.com/tendermint/tendermint/types"',
 "bind": '"github.com/ethereum/go-ethereum/accounts/abi/bind"',
 "types": '"github.com/ethereum/go-ethereum/core/types"',
 "time": '"time"',
}
KIMP.update({"json": '"encoding/json"', "httptest": '"net/http/httptest"', "http": '"net/http"', "strings": '"strings"', "ethclient": '"github.com/ethereum/go-ethereum/ethclient"'})
import re as _re
def keyper_seed(id, prop, edits, body, needs, breaks, pkg="keyper", helpers="", nokhelp=False):
    text = helpers + "func TestSeedDemo(t *testing.T) {\n" + body + "}\n"
    if pkg == "keyper" and not nokhelp:
        text = KHELP + text
    used = [v for k, v in KIMP.items() if _re.search(r"\b%s\." % k, text)]
    head = "package " + pkg.split("/")[-1] + "\n\nimport (\n\t" + "\n\t".join(used) + "\n)\n\n"
    seed(id, prop, "shuttermint", pkg if pkg == "contract" else ("keyper" if pkg == "keyper" else "keyper/" + pkg), edits, head + text, needs, breaks)

KHELP = '''
func dKey(b byte) *ecdsa.PrivateKey {
	x := make([]byte, 32)
	x[31] = b
	k, err := crypto.ToECDSA(x)
	if err != nil {
		panic(err)
	}
	return k
}

func dAddr(b byte) common.Address { return crypto.PubkeyToAddress(dKey(b).PublicKey) }

func dAddrs(n byte) []common.Address {
	var res []common.Address
	for b := byte(1); b <= n; b++ {
		res = append(res, dAddr(b))
	}
	return res
}

// dDecider returns a decider of the first of n keypers.
func dDecider(n byte) *Decider {
	cfg := Config{SigningKey: dKey(1), EncryptionKey: ecies.ImportECDSA(dKey(1))}
	sh := observe.NewShutter()
	mc := observe.NewMainChain(0)
	mc.BatchConfigs = []contract.BatchConfig{{}}
	return &Decider{Config: cfg, State: NewState(), Shutter: sh, MainChain: mc, PhaseLength: NewConstantPhaseLength(10)}
}

// dResults runs a key generation without problems.
func dResults(n, threshold uint64) []*puredkg.Result {
	var dkgs []*puredkg.PureDKG
	for i := uint64(0); i < n; i++ {
		d := puredkg.NewPureDKG(1, n, threshold, i)
		dkgs = append(dkgs, &d)
	}
	for _, d := range dkgs {
		c, evals, err := d.StartPhase1Dealing()
		if err != nil {
			panic(err)
		}
		for _, r := range dkgs {
			_ = r.HandlePolyCommitmentMsg(c)
		}
		for _, e := range evals {
			_ = dkgs[e.Receiver].HandlePolyEvalMsg(e)
		}
	}
	var res []*puredkg.Result
	for _, d := range dkgs {
		d.StartPhase2Accusing()
		d.StartPhase3Apologizing()
		d.Finalize()
		r, err := d.ComputeResult()
		if err != nil {
			panic(err)
		}
		res = append(res, &r)
	}
	return res
}

'''
# the helpers are all used or harmless; silence unused imports by referring to all of them
for _k in ("dDecider", "dResults", "dAddrs"):
    KHELP += "var _ = %s\n" % _k

keyper_seed("share-timeout-other-config", "K04",
 [(DEC, "	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)\n	if !ok {\n		return true // config is inactive\n	}\n	executionTimeoutBlock := config.BatchEndBlock(batchIndex) + config.ExecutionTimeout\n	return dcdr.MainChain.CurrentBlock >= executionTimeoutBlock-1\n",
   "	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)\n	if !ok {\n		return true // config is inactive\n	}\n	timeout := dcdr.MainChain.CurrentConfig().ExecutionTimeout\n	executionTimeoutBlock := config.BatchEndBlock(batchIndex) + timeout\n	return dcdr.MainChain.CurrentBlock >= executionTimeoutBlock-1\n")],
 '''	d := dDecider(2)
	old := contract.BatchConfig{StartBatchIndex: 0, StartBlockNumber: 0, Keypers: dAddrs(2), Threshold: 1, BatchSpan: 10, ExecutionTimeout: 1000}
	next := contract.BatchConfig{StartBatchIndex: 10, StartBlockNumber: 100, Keypers: dAddrs(2), Threshold: 1, BatchSpan: 10, ExecutionTimeout: 2}
	d.MainChain.BatchConfigs = []contract.BatchConfig{old, next}
	d.MainChain.CurrentBlock = 105
	d.Shutter.BatchConfigs = []shutterevents.BatchConfig{
		{StartBatchIndex: 0, Keypers: dAddrs(2), Threshold: 1, ConfigIndex: 0},
		{StartBatchIndex: 10, Keypers: dAddrs(2), Threshold: 1, ConfigIndex: 1},
	}
	d.Shutter.Eons = []observe.Eon{{Eon: 1, StartEvent: shutterevents.EonStarted{Eon: 1}}}
	d.State.EKGs = []*EKG{{Eon: 1, Keypers: dAddrs(2), EpochKG: epochkg.NewEpochKG(dResults(2, 1)[0])}}
	d.State.NextEpochSecretShare = 9
	d.publishEpochSecretKeyShares()
	if len(d.Actions) != 1 {
		t.Fatalf("demo: %d shares sent for the last batch of the old config", len(d.Actions))
	}
''', "a batch of one config is closed while the next config, with a shorter execution timeout, is already active",
 "the execution timeout of the current config is used for batches of the previous one, so their shares are withheld (or sent after their timeout)")

keyper_seed("signature-of-nonkeyper", "K06",
 [(DEC, "		if !config.IsKeyper(ev.Sender) {\n			log.Printf(\"Ignoring signature for batch", "		if !dcdr.Shutter.IsKeyper(ev.Sender) {\n			log.Printf(\"Ignoring signature for batch")],
 '''	d := dDecider(2)
	d.MainChain.BatchConfigs = []contract.BatchConfig{{Keypers: dAddrs(2), Threshold: 2, BatchSpan: 10, ExecutionTimeout: 100}}
	d.Shutter.BatchConfigs = []shutterevents.BatchConfig{
		{StartBatchIndex: 0, Keypers: dAddrs(2), Threshold: 2, ConfigIndex: 0},
		{StartBatchIndex: 100, Keypers: dAddrs(3), Threshold: 2, ConfigIndex: 1},
	}
	hash := crypto.Keccak256([]byte("batch"))
	b := &Batch{BatchIndex: 4, DecryptionSignatureHash: hash}
	d.State.Batches[4] = b
	sig, err := crypto.Sign(hash, dKey(3))
	if err != nil {
		t.Fatal(err)
	}
	d.Shutter.Batches[4] = &observe.BatchData{BatchIndex: 4, DecryptionSignatures: []shutterevents.DecryptionSignature{{BatchIndex: 4, Sender: dAddr(3), Signature: sig}}}
	d.syncBatch(b)
	if len(b.VerifiedSignatures) != 0 {
		t.Fatal("demo: the signature of a keyper of another config was collected")
	}
''', "a keyper which only belongs to another (e.g. the next) config signs the batch", "signatures of keypers that are not in the config of the batch are counted, execution and appeals then fail at the contract")

keyper_seed("batch-hash-skips-empty-tx", "K06",
 [(DEC, "	for _, tx := range txs {\n		keccak.Reset()\n", "	for _, tx := range txs {\n		if len(tx) == 0 {\n			continue\n		}\n		keccak.Reset()\n")],
 '''	want := crypto.Keccak256(nil, crypto.Keccak256([]byte{1, 2}, make([]byte, 32)))
	if !bytes.Equal(transactionsHash([][]byte{{1, 2}, {}}), want) {
		t.Fatal("demo: hash of a batch with an empty transaction differs from the contract's")
	}
''', "a user submits an encrypted empty transaction", "the hash of the decrypted batch differs from the hash the executor contract computes, so the honest executor is accused")

keyper_seed("appeals-forgotten", "K07",
 [(DEC, "			if halfStep == accusation.HalfStep && accusation.Appealed {", "			if halfStep >= accusation.HalfStep && accusation.Appealed {")],
 '''	d := dDecider(1)
	d.MainChain.BatchConfigs = []contract.BatchConfig{{Keypers: dAddrs(1), Threshold: 1, BatchSpan: 10, ExecutionTimeout: 100}}
	hash := crypto.Keccak256([]byte("x"))
	var h32 [32]byte
	copy(h32[:], hash)
	for _, b := range []uint64{2, 3} {
		d.MainChain.Accusations[2*b] = &observe.Accusation{HalfStep: 2 * b}
		d.MainChain.CipherExecutionReceipts[2*b] = &contract.CipherExecutionReceipt{Executed: true, HalfStep: 2 * b, BatchHash: h32}
		d.State.Batches[b] = &Batch{BatchIndex: b, DecryptedBatchHash: hash, VerifiedSignatures: map[common.Address][]byte{dAddr(1): make([]byte, 65)}}
	}
	d.maybeAppeal()
	if len(d.Actions) != 2 {
		t.Fatal("demo: expected two appeals")
	}
	d.Actions = nil
	d.MainChain.Accusations[4].Appealed = true
	d.maybeAppeal()
	if len(d.Actions) != 0 {
		t.Fatal("demo: appeal sent a second time while it is pending")
	}
''', "two accusations are open and the appeal against the earlier one is mined first", "an appeal that is still pending is sent again")

keyper_seed("appeal-unsorted-signers", "K07",
 [(DEC, "		return sigsAndIndices[i].index < sigsAndIndices[j].index\n", "		return bytes.Compare(sigsAndIndices[i].signature, sigsAndIndices[j].signature) < 0\n")],
 '''	d := dDecider(2)
	d.MainChain.BatchConfigs = []contract.BatchConfig{{Keypers: dAddrs(2), Threshold: 2, BatchSpan: 10, ExecutionTimeout: 100}}
	one, two := make([]byte, 65), make([]byte, 65)
	one[0] = 2
	two[0] = 1
	_, idx, err := d.getSortedDecryptionSignaturesWithIndices(&Batch{BatchIndex: 1, VerifiedSignatures: map[common.Address][]byte{dAddr(1): one, dAddr(2): two}})
	if err != nil || idx[0] != 0 || idx[1] != 1 {
		t.Fatal("demo: signers are not sorted by index", idx)
	}
''', "the signature of a keyper with a higher index is numerically smaller", "appeals list the signers in the wrong order and are rejected by the contract")

keyper_seed("execute-at-timeout", "K05",
 [(DEC, "	if isCipherBatch && dcdr.MainChain.CurrentBlock >= executionTimeoutBlock {\n", "	if isCipherBatch && dcdr.MainChain.CurrentBlock > executionTimeoutBlock {\n")],
 '''	d := dDecider(1)
	d.MainChain.BatchConfigs = []contract.BatchConfig{{Keypers: dAddrs(1), Threshold: 1, BatchSpan: 10, ExecutionTimeout: 100}}
	d.MainChain.CurrentBlock = 30 + 100
	d.MainChain.NumExecutionHalfSteps = 4
	d.State.Batches[2] = &Batch{BatchIndex: 2, IsEmpty: true}
	if _, ok := d.maybeExecuteHalfStep(4).(*fx.ExecuteCipherBatch); ok {
		t.Fatal("demo: cipher batch executed although the contract's timeout is reached")
	}
''', "the main chain is exactly at the execution timeout block", "the cipher half step is executed at a block where the contract only allows to skip it; the transaction reverts")

keyper_seed("pending-half-step-forgotten", "K05",
 [(DEC, "	if dcdr.State.PendingHalfStep != nil && nextHalfStep > *dcdr.State.PendingHalfStep {", "	if dcdr.State.PendingHalfStep != nil && nextHalfStep >= *dcdr.State.PendingHalfStep {")],
 '''	d := dDecider(1)
	d.MainChain.BatchConfigs = []contract.BatchConfig{{Keypers: dAddrs(1), Threshold: 1, BatchSpan: 10, ExecutionTimeout: 100}}
	d.MainChain.CurrentBlock = 15
	d.State.Batches[0] = &Batch{BatchIndex: 0, IsEmpty: true}
	d.maybeExecuteBatch()
	if len(d.Actions) != 2 {
		t.Fatal("demo: expected both half steps")
	}
	d.Actions = nil
	d.MainChain.CurrentBlock = 16
	d.MainChain.NumExecutionHalfSteps = 1 // the plain half step is still in flight
	d.maybeExecuteBatch()
	if len(d.Actions) != 0 {
		t.Fatal("demo: half step sent again while its transaction is pending")
	}
''', "several half steps are in flight and all but the last are mined", "the last half step is executed a second time while its transaction is still pending")

keyper_seed("evals-dropped-late-checkin", "K02",
 [(DEC, "		dkg.OutgoingPolyEvalMsgs = newOutgoing\n", "		dkg.OutgoingPolyEvalMsgs = newOutgoing[:0]\n")],
 '''	d := dDecider(3)
	pure := puredkg.NewPureDKG(1, 3, 2, 0)
	_, evals, err := pure.StartPhase1Dealing()
	if err != nil {
		t.Fatal(err)
	}
	dkg := &DKG{Eon: 1, Keypers: dAddrs(3), Pure: &pure, OutgoingPolyEvalMsgs: evals}
	key := func(b byte) *observe.EncryptionPublicKey {
		return (*observe.EncryptionPublicKey)(&ecies.ImportECDSA(dKey(b)).PublicKey)
	}
	d.Shutter.KeyperEncryptionKeys[dAddr(2)] = key(2)
	d.sendPolyEvals(dkg)
	d.Shutter.KeyperEncryptionKeys[dAddr(3)] = key(3)
	d.sendPolyEvals(dkg)
	if len(d.Actions) != 2 {
		t.Fatal("demo: the keyper who checked in later didn't get its evaluation")
	}
''', "one keyper checks in after another one's evaluation has already been sent", "keypers that check in later never get their evaluation")

keyper_seed("late-accusations", "K02",
 [(DEC, "		if phase != puredkg.Accusing {\n", "		if phase < puredkg.Accusing {\n")],
 '''	d := dDecider(2)
	pure := puredkg.NewPureDKG(1, 2, 1, 0)
	if _, _, err := pure.StartPhase1Dealing(); err != nil {
		t.Fatal(err)
	}
	pure.StartPhase2Accusing()
	dkg := &DKG{Eon: 1, Keypers: dAddrs(2), Pure: &pure, PhaseLength: d.PhaseLength}
	eon := observe.Eon{Eon: 1, StartHeight: 100, Accusations: []shutterevents.Accusation{{Height: 125, Eon: 1, Sender: dAddr(2), Accused: []common.Address{dAddr(1)}}}}
	n := len(pure.Accusations)
	dkg.syncAccusations(0, eon)
	if len(pure.Accusations) != n {
		t.Fatal("demo: accusation of a later phase was counted")
	}
''', "an accusation is included in a block of the apologizing phase, and a keyper processes several blocks at once", "keypers that process blocks one by one and those that catch up count different accusations, so they compute different results")

keyper_seed("config-announced-before-known", "K10",
 [(DEC, "		dcdr.sendBatchConfig(configIndex, dcdr.MainChain.BatchConfigs[configIndex])\n		dcdr.State.LastSentBatchConfigIndex = configIndex\n	}\n", "		dcdr.sendBatchConfig(configIndex, dcdr.MainChain.BatchConfigs[configIndex])\n	}\n	dcdr.State.LastSentBatchConfigIndex = configIndex\n")],
 '''	d := dDecider(1)
	d.Shutter.BatchConfigs = []shutterevents.BatchConfig{{ConfigIndex: 0}}
	d.maybeSendBatchConfig()
	d.MainChain.BatchConfigs = append(d.MainChain.BatchConfigs, contract.BatchConfig{Keypers: dAddrs(1), Threshold: 1})
	d.maybeSendBatchConfig()
	if len(d.Actions) != 1 {
		t.Fatal("demo: config not announced")
	}
''', "the keyper decides once before the next config is visible on the main chain", "the vote for that config is never sent")

keyper_seed("eon-last-config", "K10",
 [(DEC, "	batchConfig := dcdr.Shutter.FindBatchConfigByBatchIndex(eon.StartEvent.BatchIndex)\n	keyperIndex,", "	batchConfig := dcdr.Shutter.BatchConfigs[len(dcdr.Shutter.BatchConfigs)-1]\n	keyperIndex,")],
 '''	d := dDecider(2)
	d.Shutter.BatchConfigs = []shutterevents.BatchConfig{
		{StartBatchIndex: 0, Keypers: dAddrs(1), Threshold: 1},
		{StartBatchIndex: 10, Keypers: dAddrs(3), Threshold: 2, ConfigIndex: 1},
		{StartBatchIndex: 20, Keypers: dAddrs(4), Threshold: 3, ConfigIndex: 2},
	}
	d.Shutter.Eons = []observe.Eon{{Eon: 1, StartEvent: shutterevents.EonStarted{Eon: 1, BatchIndex: 10}}}
	d.maybeStartDKG()
	if len(d.State.DKGs) != 1 || len(d.State.DKGs[0].Keypers) != 3 {
		t.Fatal("demo: key generation started with the keypers of another config")
	}
''', "an eon is restarted for a config while a later config is already agreed on", "the key generation runs with the keypers and threshold of the later config")

keyper_seed("state-saved-in-place", "K11",
 [(KPR, "	gobpath := kpr.pathStateGob()\n	tmppath := gobpath + \".tmp\"\n	file, err := os.Create(tmppath)\n", "	gobpath := kpr.pathStateGob()\n	tmppath := gobpath\n	file, err := os.Create(tmppath)\n")],
 '''	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	kpr := &Keyper{Config: Config{DBDir: dir}, State: NewState()}
	kpr.world.Store(observe.World{Shutter: observe.NewShutter(), MainChain: observe.NewMainChain(0)})
	kpr.State.LastEonStarted = 7
	if err := kpr.saveState(); err != nil {
		t.Fatal(err)
	}
	kpr.State.Actions = []fx.IAction{dUnknown{}} // encoding fails in the middle, as with a full disk or a crash
	if err := kpr.saveState(); err == nil {
		t.Fatal("demo: expected an error")
	}
	kpr2 := &Keyper{Config: Config{DBDir: dir}, State: NewState()}
	if err := kpr2.LoadState(); err != nil || kpr2.State.LastEonStarted != 7 {
		t.Fatal("demo: the state is lost", err)
	}
''', "a crash or write error while the state is being saved", "the previous state is lost", nokhelp=True, helpers='''type dUnknown struct{}

func (dUnknown) IsExpired(observe.World) bool { return false }

''')

keyper_seed("actions-before-state", "K11",
 [(KPR, "	if err := kpr.saveState(); err != nil {\n		panic(err)\n	}\n	return kpr.runActions(ctx)\n", "	if err := kpr.runActions(ctx); err != nil {\n		return err\n	}\n	if err := kpr.saveState(); err != nil {\n		panic(err)\n	}\n	return nil\n")],
 '''	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	d := dDecider(1)
	d.MainChain.BatchConfigs = []contract.BatchConfig{{Keypers: dAddrs(1), Threshold: 1, BatchSpan: 10, ExecutionTimeout: 100}}
	d.MainChain.CurrentBlock = 15
	d.MainChain.NumExecutionHalfSteps = 1
	d.Shutter.BatchConfigs = []shutterevents.BatchConfig{{Keypers: dAddrs(1), Threshold: 1}}
	d.Shutter.KeyperEncryptionKeys[dAddr(1)] = (*observe.EncryptionPublicKey)(&d.Config.EncryptionKey.PublicKey)
	d.Config.DBDir = dir
	kpr := &Keyper{Config: d.Config, State: d.State}
	kpr.world.Store(observe.World{Shutter: d.Shutter, MainChain: d.MainChain})
	kpr.runenv = fx.NewRunEnv(nil, nil, kpr.CurrentWorld, kpr.pathActionsGob())
	// the state cannot be written: this is what a crash right before it looks like to the disk
	if err := os.Mkdir(filepath.Join(dir, "state.gob.tmp"), 0o700); err != nil {
		t.Fatal(err)
	}
	func() {
		defer func() { _ = recover() }()
		_ = kpr.runOneStep(context.Background())
	}()
	if _, err := os.Stat(kpr.pathActionsGob()); err == nil {
		t.Fatal("demo: actions are run (and stored) although the state that decided them is not stored")
	}
''', "a crash after the actions are handed over and before the state is stored", "after the restart the same decisions are taken and sent again")

keyper_seed("share-duplicate-not-last", "K08",
 [(EKGF, "	for _, s := range shares {\n		if s.Sender == share.Sender {\n", "	if n := len(shares); n > 0 {\n		if s := shares[n-1]; s.Sender == share.Sender {\n")],
 '''	n := uint64(3)
	var dkgs []*puredkg.PureDKG
	for i := uint64(0); i < n; i++ {
		d := puredkg.NewPureDKG(1, n, 3, i)
		dkgs = append(dkgs, &d)
	}
	for _, d := range dkgs {
		c, evals, err := d.StartPhase1Dealing()
		if err != nil {
			t.Fatal(err)
		}
		for _, r := range dkgs {
			_ = r.HandlePolyCommitmentMsg(c)
		}
		for _, e := range evals {
			_ = dkgs[e.Receiver].HandlePolyEvalMsg(e)
		}
	}
	var kgs []*EpochKG
	for _, d := range dkgs {
		d.StartPhase2Accusing()
		d.StartPhase3Apologizing()
		d.Finalize()
		r, err := d.ComputeResult()
		if err != nil {
			t.Fatal(err)
		}
		kgs = append(kgs, NewEpochKG(&r))
	}
	for _, s := range []int{0, 1, 0} {
		_ = kgs[0].HandleEpochSecretKeyShare(&EpochSecretKeyShare{Eon: 1, Epoch: 5, Sender: uint64(s), Share: kgs[s].ComputeEpochSecretKeyShare(5)})
	}
	if _, ok := kgs[0].SecretKeys[5]; ok {
		t.Fatal("demo: key computed from the shares of two keypers, the threshold is three")
	}
''', "a keyper's share arrives twice with another keyper's share in between", "the repeated share is counted, a wrong epoch key is computed and the real one never", pkg="epochkg")

keyper_seed("fetch-window-gap", "K01",
 [(OBS, "		currentBlock = height\n	}\n\n	return shutter, nil\n", "		currentBlock = height + 1\n	}\n\n	return shutter, nil\n")],
 '''	seen := map[int64]int{}
	m := &dClient{seen: seen}
	if _, err := NewShutter().fetchAndApplyEvents(context.Background(), m, 1200); err != nil {
		t.Fatal(err)
	}
	for h := int64(0); h <= 1200; h++ {
		if seen[h] != 1 {
			t.Fatal("demo: height queried", seen[h], "times:", h)
		}
	}
''', "the keyper is more than 500 blocks behind", "the events of every 500th block are never seen", pkg="observe", helpers='''type dClient struct {
	client.Client
	seen map[int64]int
}

func (m *dClient) TxSearch(ctx context.Context, query string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	var from, to int64
	if _, err := fmt.Sscanf(query, "tx.height >= %d and tx.height <= %d", &from, &to); err != nil {
		return nil, err
	}
	for h := from; h <= to; h++ {
		m.seen[h]++
	}
	return &ctypes.ResultTxSearch{}, nil
}

''')

keyper_seed("apologies-at-sync-height", "K01",
 [(OBS, "	slice := eon.Apologies\n	idx := sort.Search(len(slice),\n		func(i int) bool {\n			return slice[i].Height >= syncHeight\n", "	slice := eon.Apologies\n	idx := sort.Search(len(slice),\n		func(i int) bool {\n			return slice[i].Height > syncHeight\n")],
 '''	eon := Eon{Apologies: []shutterevents.Apology{{Height: 4}, {Height: 5}, {Height: 6}}}
	if len(eon.GetApologies(5)) != 2 {
		t.Fatal("demo: apology of the first unprocessed block is lost")
	}
''', "an apology in the first block after the one processed last", "the apology is never handled, its sender is disqualified by this keyper only", pkg="observe")

keyper_seed("batches-filtered-too-early", "K01",
 [(OBS, "		if b >= batchIndex {\n			newBatches[b] = bd\n", "		if b > batchIndex {\n			newBatches[b] = bd\n")],
 '''	s := NewShutter()
	s.Batches[7] = &BatchData{BatchIndex: 7}
	s = s.ApplyFilter(ShutterFilter{SyncHeight: 1, BatchIndex: 7})
	if _, ok := s.Batches[7]; !ok {
		t.Fatal("demo: signatures of the batch to be executed next are dropped")
	}
''', "signatures for the next batch arrive in several steps, with a filter update in between", "signatures of the batch that is executed next are dropped", pkg="observe")


keyper_seed("mainchain-range-overlap", "K12",
 [(MCH, "		Start: mainchain.CurrentBlock + 1,\n", "		Start: mainchain.CurrentBlock,\n")],
 '''	starts := dStarts(t)
	if len(starts) == 0 || starts[0] != "0x6" {
		t.Fatal("demo: the logs of a block that was processed already are fetched again", starts)
	}
''', "a transaction in the last block of the previous sync", "the transactions of that block are added to their batches twice", pkg="observe", helpers='''
func dStarts(t *testing.T) []string {
	var starts []string
	call := func(method string, params []json.RawMessage) interface{} {
		switch method {
		case "eth_syncing":
			return false
		case "eth_getBlockByNumber":
			h := types.Header{Number: big.NewInt(8), Difficulty: big.NewInt(1)}
			return &h
		case "eth_getLogs":
			var f map[string]interface{}
			_ = json.Unmarshal(params[0], &f)
			starts = append(starts, f["fromBlock"].(string))
			return []interface{}{}
		case "eth_call":
			return "0x" + strings.Repeat("00", 32)
		}
		return nil
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var req struct {
			ID     json.RawMessage   `json:"id"`
			Method string            `json:"method"`
			Params []json.RawMessage `json:"params"`
		}
		_ = json.NewDecoder(r.Body).Decode(&req)
		w.Header().Set("Content-Type", "application/json")
		_ = json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": call(req.Method, req.Params)})
	}))
	defer srv.Close()
	cl, err := ethclient.Dial(srv.URL)
	if err != nil {
		t.Fatal(err)
	}
	cfg, _ := contract.NewConfigContract(common.Address{}, cl)
	bat, _ := contract.NewBatcherContract(common.Address{}, cl)
	exe, _ := contract.NewExecutorContract(common.Address{}, cl)
	dep, _ := contract.NewDepositContract(common.Address{}, cl)
	sla, _ := contract.NewKeyperSlasher(common.Address{}, cl)
	key, _ := crypto.GenerateKey()
	caller := contract.NewCaller(cl, key, cfg, nil, bat, exe, dep, sla)
	mc := NewMainChain(0)
	mc.CurrentBlock = 5
	if _, err := mc.SyncToHead(context.Background(), &caller); err != nil {
		t.Log(err)
	}
	return starts
}

''')

keyper_seed("config-search-strict", "K03",
 [(MCH, "		if config.StartBatchIndex <= batchIndex {\n			if config.IsActive() {\n				return i, true\n			}\n			return 0, false\n		}\n", "		if config.StartBatchIndex <= batchIndex && config.IsActive() {\n			return i, true\n		}\n		if i == 0 {\n			return 0, false\n		}\n")],
 '''	mc := NewMainChain(0)
	mc.BatchConfigs = []contract.BatchConfig{{BatchSpan: 10}, {StartBatchIndex: 5, StartBlockNumber: 50}}
	if _, ok := mc.ConfigForBatchIndex(7); ok {
		t.Fatal("demo: batch of a deactivated config is attributed to the config before")
	}
''', "a config with batch span zero (the system is paused) follows an active one", "batches after the pause are attributed to the previous config", pkg="observe")

keyper_seed("batch-index-rounds-up", "K03",
 [(CFGF, "	return bc.StartBatchIndex + (blockNumber-bc.StartBlockNumber)/bc.BatchSpan\n", "	return bc.StartBatchIndex + blockNumber/bc.BatchSpan - bc.StartBlockNumber/bc.BatchSpan\n")],
 '''	bc := BatchConfig{StartBlockNumber: 15, StartBatchIndex: 3, BatchSpan: 10}
	if bc.BatchIndex(21) != 3 || bc.BatchIndex(25) != 4 {
		t.Fatal("demo: wrong batch for a block", bc.BatchIndex(21))
	}
''', "a config whose start block is no multiple of its batch span", "blocks are attributed to a later batch than the contract does, so shares are released before the batch is closed", pkg="contract")

keyper_seed("event-empty-bytes", "E01",
 [(EVM, "	for _, v := range strings.Split(s, \",\") {\n		bs, err := hexutil.Decode(v)\n", "	for _, v := range strings.Split(s, \",\") {\n		if v == \"0x\" {\n			continue\n		}\n		bs, err := hexutil.Decode(v)\n")],
 '''	v, err := decodeByteSequence(encodeByteSequence([][]byte{{}, {1}}))
	if err != nil || len(v) != 2 {
		t.Fatal("demo: empty element lost", v, err)
	}
''', "a message with an empty byte string (e.g. the apology for a polynomial value of zero)", "the elements shift: values are attributed to the wrong keyper, or an index panics in the keyper", pkg="shutterevents")

keyper_seed("inflight-resent-after-restart", "K09",
 [(FXR, "		if txhash != zerohash {\n			ch = runenv.inFlightMainChainTXs\n", "		if txhash != zerohash && act.IsExpired(runenv.CurrentWorld()) {\n			ch = runenv.inFlightMainChainTXs\n")],
 '''	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	world := func() observe.World { return observe.World{MainChain: observe.NewMainChain(0), Shutter: observe.NewShutter()} }
	p := NewPendingActions(filepath.Join(dir, "actions.gob"))
	p.AddActions(0, []IAction{&SkipCipherBatch{BatchIndex: 3}})
	p.SetMainChainTXHash(0, common.Hash{1})
	env := NewRunEnv(nil, nil, world, filepath.Join(dir, "actions.gob"))
	got := make(chan bool, 1)
	go func() {
		select {
		case <-env.mainChainTXs:
			got <- true
		case <-env.inFlightMainChainTXs:
			got <- false
		}
	}()
	if _, err := env.Load(context.Background()); err != nil {
		t.Fatal(err)
	}
	if <-got {
		t.Fatal("demo: the transaction is sent again although it is in flight")
	}
''', "a restart while a main chain transaction is in flight", "the transaction is sent a second time after the restart", pkg="fx")


keyper_seed("appeal-gives-up", "K09",
 [(FXA, "	if err != nil && strings.Contains(err.Error(), \"wrong signer\") {\n", "	if err != nil {\n")],
 '''	cc, err := contract.NewKeyperSlasher(common.Address{}, dBackend{})
	if err != nil {
		t.Fatal(err)
	}
	auth := &bind.TransactOpts{Nonce: big.NewInt(1), GasLimit: 1, GasPrice: big.NewInt(1), Signer: func(_ common.Address, tx *types.Transaction) (*types.Transaction, error) { return tx, nil }}
	_, err = Appeal{}.SendTX(&contract.Caller{KeyperSlasher: cc}, auth)
	if err == nil || !IsRetriable(err) {
		t.Fatal("demo: the appeal is given up after a connection problem", err)
	}
''', "the connection to the node fails while an appeal is sent", "the appeal is given up and an honest executor is slashed", pkg="fx", helpers='''type dBackend struct{ bind.ContractBackend }

func (dBackend) HeaderByNumber(ctx context.Context, number *big.Int) (*types.Header, error) {
	return &types.Header{Number: big.NewInt(1), Difficulty: big.NewInt(1)}, nil
}

func (dBackend) SendTransaction(ctx context.Context, tx *types.Transaction) error {
	return errors.New("connection refused")
}

''')

keyper_seed("actions-unsorted-after-restart", "K09",
 [(FXP, "	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })\n", "	sort.Slice(ids, func(i, j int) bool { return uint8(ids[i]) < uint8(ids[j]) })\n")],
 '''	p := NewPendingActions("")
	p.ActionMap[255] = &SkipCipherBatch{}
	p.ActionMap[256] = &SkipCipherBatch{}
	ids := p.SortedIDs()
	if ids[0] != 255 {
		t.Fatal("demo: actions are not restarted in their order", ids)
	}
''', "a restart with pending actions on both sides of a multiple of 256", "the actions are scheduled in the wrong order after the restart", pkg="fx")

app_seed("app-saved-in-place", "A12",
 [(APP, "	tmppath := app.Gobpath + \".tmp\"\n", "	tmppath := app.Gobpath\n")],
 '''	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	app := NewShutterApp()
	app.Gobpath = dir + "/shutter.gob"
	app.LastBlockHeight = 77
	if err := app.PersistToDisk(); err != nil {
		t.Fatal(err)
	}
	app.Configs = append(app.Configs, nil) // gob refuses nil elements: the write fails in the middle, as with a full disk
	if err := app.PersistToDisk(); err == nil {
		t.Fatal("demo: expected an error")
	}
	app2, err := LoadShutterAppFromFile(app.Gobpath)
	if err != nil || app2.LastBlockHeight != 77 {
		t.Fatal("demo: the state is lost", err)
	}
''', "a crash or write error while the application state is written", "the previous application state is lost", imports='	"os"\n')

app_seed("app-nonces-not-stored", "A12",
 [(APP, "	shapp.Gobpath = gobpath\n", "	shapp.Gobpath = gobpath\n	shapp.NonceTracker = NewNonceTracker()\n")],
 '''	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	app := NewShutterApp()
	app.Gobpath = dir + "/shutter.gob"
	app.NonceTracker.Add(dAddr(1), 5)
	if err := app.PersistToDisk(); err != nil {
		t.Fatal(err)
	}
	app2, err := LoadShutterAppFromFile(app.Gobpath)
	if err != nil || app2.NonceTracker.Check(dAddr(1), 5) {
		t.Fatal("demo: a message can be replayed after the restart", err)
	}
''', "a message is sent again after the node was restarted", "messages can be replayed after a restart, and restarted nodes diverge from the others", imports='	"os"\n')

keyper_seed("filter-announcement-blocks", "K13",
 [(KPR, "		select {\n		case kpr.shutterFilterCh <- kpr.State.GetShutterFilter(world.MainChain):\n		default:\n		}\n", "		select {\n		case kpr.shutterFilterCh <- kpr.State.GetShutterFilter(world.MainChain):\n		case <-kpr.signalCh:\n		}\n")],
 '''	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	kpr := NewKeyper(Config{DBDir: dir, SigningKey: dKey(1), EncryptionKey: ecies.ImportECDSA(dKey(1))})
	kpr.world.Store(observe.World{Shutter: observe.NewShutter(), MainChain: observe.NewMainChain(0)})
	kpr.State.CheckInMessageSent = true
	kpr.runenv = fx.NewRunEnv(nil, nil, kpr.CurrentWorld, kpr.pathActionsGob())
	kpr.mainChainCh = make(chan *observe.MainChain)
	kpr.shutterCh = make(chan *observe.Shutter)
	kpr.signalCh = make(chan os.Signal, 1)
	kpr.shutterFilterCh = make(chan observe.ShutterFilter, 3)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() { _ = kpr.syncLoop(ctx) }()
	for i := 0; i < 6; i++ {
		mc := observe.NewMainChain(0)
		mc.CurrentBlock = uint64(i)
		select {
		case kpr.mainChainCh <- mc:
		case <-time.After(20 * time.Second):
			t.Fatal("demo: the keyper does not take views anymore", i)
		}
	}
''', "shuttermint stops making blocks for a while: nobody takes the keyper's announcements", "the keyper stops acting on the main chain: it neither executes nor appeals")

keyper_seed("poll-failure-drops-view", "K13",
 [(OBS, '''				case shutters <- newShutter:
				}

				shutter = newShutter
			}
''', '''				case shutters <- newShutter:
				}
			}
			shutter = newShutter
''')],
 '''	c := &dNode{events: make(chan ctypes.ResultEvent, 2)}
	ctx, cancel := context.WithCancel(context.Background())
	c.cancel = cancel
	c.events <- ctypes.ResultEvent{}
	c.events <- ctypes.ResultEvent{}
	failed := make(chan interface{}, 1)
	go func() {
		defer func() { failed <- recover() }()
		_ = SyncShutter(ctx, c, NewShutter(), make(chan *Shutter), make(chan ShutterFilter))
	}()
	if r := <-failed; r != nil {
		t.Fatal("demo: the keyper crashes after a failed poll", r)
	}
''', "a query of the shuttermint node fails, and another block arrives", "the loop goes on without a view: it crashes the keyper at the next block", pkg="observe", helpers='''type dNode struct {
	client.Client
	events chan ctypes.ResultEvent
	cancel func()
	status int
}

func (c *dNode) Subscribe(context.Context, string, string, ...int) (<-chan ctypes.ResultEvent, error) {
	return c.events, nil
}

func (c *dNode) Block(context.Context, *int64) (*ctypes.ResultBlock, error) {
	return &ctypes.ResultBlock{Block: &tmtypes.Block{LastCommit: &tmtypes.Commit{Height: 5}}}, nil
}

func (c *dNode) Status(context.Context) (*ctypes.ResultStatus, error) {
	c.status++
	if c.status == 2 {
		c.cancel()
	}
	return nil, errors.New("connection refused")
}

''')

keyper_seed("view-stored-after-acting", "K13",
 [(KPR, '''		kpr.world.Store(world)
		err := kpr.runOneStep(ctx)
		if err != nil {
			return err
		}
		select {
''', '''		err := kpr.runOneStep(ctx)
		if err != nil {
			return err
		}
		kpr.world.Store(world)
		select {
''')],
 '''	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	kpr := NewKeyper(Config{DBDir: dir, SigningKey: dKey(1), EncryptionKey: ecies.ImportECDSA(dKey(1))})
	mc := observe.NewMainChain(0)
	mc.BatchConfigs = []contract.BatchConfig{{}}
	kpr.world.Store(observe.World{Shutter: observe.NewShutter(), MainChain: mc})
	kpr.State.CheckInMessageSent = true
	kpr.runenv = fx.NewRunEnv(nil, nil, kpr.CurrentWorld, kpr.pathActionsGob())
	kpr.mainChainCh = make(chan *observe.MainChain)
	kpr.shutterCh = make(chan *observe.Shutter)
	kpr.signalCh = make(chan os.Signal, 1)
	kpr.shutterFilterCh = make(chan observe.ShutterFilter, 3)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error)
	go func() { done <- kpr.syncLoop(ctx) }()
	sh := observe.NewShutter()
	sh.CurrentBlock = 77
	sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: dAddrs(1), Threshold: 1}}
	kpr.shutterCh <- sh
	<-kpr.shutterFilterCh
	cancel()
	<-done
	if kpr.State.SyncHeight != 78 {
		t.Fatal("demo: the keyper has not acted on what it got", kpr.State.SyncHeight)
	}
''', "the last block before a longer pause holds something to act on (or a restart follows at once)", "the keyper acts on the previous view and stores its state with it; what came last waits for the next block of either chain")

keyper_seed("filter-rounds-up", "K06",
 [(DEC, "		BatchIndex: mainChain.NumExecutionHalfSteps / 2,\n", "		BatchIndex: (mainChain.NumExecutionHalfSteps + 1) / 2,\n")],
 '''	mc := observe.NewMainChain(0)
	mc.NumExecutionHalfSteps = 11
	if f := NewState().GetShutterFilter(mc); f.BatchIndex > 5 {
		t.Fatal("demo: the signatures of a batch are dropped before its plain half step", f.BatchIndex)
	}
''', "a signature is collected between the two half steps of its batch", "signatures of the batch in execution are forgotten too early: appeals lack signatures")

keyper_seed("skip-without-turns", "K05",
 [(DEC, "		if dcdr.MainChain.CurrentBlock >= executionTimeoutBlock+delay {\n", "		if dcdr.MainChain.CurrentBlock+delay >= executionTimeoutBlock {\n")],
 '''	d := dDecider(1)
	d.Config.ExecutionStaggering = 5
	d.MainChain.BatchConfigs = []contract.BatchConfig{{Keypers: dAddrs(3), Threshold: 2, BatchSpan: 10, ExecutionTimeout: 100}}
	skipping := 0
	for b := uint64(3); b < 6; b++ {
		d.MainChain.NumExecutionHalfSteps = 2 * b
		d.MainChain.CurrentBlock = 10*(b+1) + 100
		if _, ok := d.maybeExecuteHalfStep(2 * b).(*fx.SkipCipherBatch); ok {
			skipping++
		}
	}
	if skipping != 1 {
		t.Fatal("demo: the keypers skip at the same time", skipping)
	}
''', "the cipher half step of a batch was not executed before its timeout", "all keypers skip it at once instead of one after the other")

keyper_seed("finished-eons-skipped", "X01",
 [(DEC, "		if eon.Eon > dcdr.State.LastEonStarted {\n			// TODO we should check that we do not start eons that are in the past\n			dcdr.startDKG(eon)\n",
   "		if eon.Eon > dcdr.State.LastEonStarted {\n			// eons of the past cannot be joined anymore\n			if dcdr.PhaseLength.getPhaseAtHeight(dcdr.Shutter.CurrentBlock+1, eon.StartHeight) < puredkg.Finalized {\n				dcdr.startDKG(eon)\n			}\n")],
 '''	d := dDecider(1)
	d.Shutter.BatchConfigs = []shutterevents.BatchConfig{{Keypers: dAddrs(3), Threshold: 2}}
	d.Shutter.CurrentBlock = 200
	d.Shutter.Eons = []observe.Eon{{Eon: 1, StartHeight: 100, StartEvent: shutterevents.EonStarted{Eon: 1, Height: 100}}}
	d.maybeStartDKG()
	if len(d.State.DKGs) != 1 {
		t.Fatal("demo: the keyper will never know its key share")
	}
''', "a keyper which has checked in sleeps during the whole key generation", "a keyper that slept through a key generation, whose evaluations are on the chain, never gets its share of the key; if another keyper stops, nothing is decrypted anymore")

keyper_seed("restart-asked-by-dealers-only", "X01",
 [(DEC, '		log.Printf("Error: DKG process failed for %s: %+v", dkg.ShortInfo(), err)\n', '		log.Printf("Error: DKG process failed for %s: %+v", dkg.ShortInfo(), err)\n		if dkg.Pure.Commitments[dkg.Pure.Keyper] == nil {\n			return // we did not take part; those who did will ask\n		}\n')],
 '''	d := dDecider(1)
	pure := puredkg.NewPureDKG(1, 3, 2, 0)
	if _, _, err := pure.StartPhase1Dealing(); err != nil {
		t.Fatal(err)
	}
	pure.StartPhase2Accusing()
	pure.StartPhase3Apologizing()
	d.dkgFinalize(&DKG{Eon: 1, Keypers: dAddrs(3), Pure: &pure, PhaseLength: d.PhaseLength})
	if len(d.Actions) != 1 {
		t.Fatal("demo: another key generation is not asked for")
	}
''', "so many keypers sleep in the dealing phase that the key generation fails, and fewer than the threshold were awake", "a failed key generation is never repeated")
