APP = "shuttermint/app/app.go"
HEAD = '''
package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

var _ = abcitypes.Event{}
var _ = crypto.SignatureLength
var _ = shmsg.Message{}

func dAddr(b byte) common.Address {
	var a common.Address
	a[19] = b
	return a
}

'''
def app_seed(id, prop, edits, body, needs, breaks, imports=""):
    head = HEAD
    if imports:
        head = head.replace('import (\n', 'import (\n' + imports)
    seed(id, prop, "shuttermint", "app", edits, head + "func TestSeedDemo(t *testing.T) {\n" + body + "}\n", needs, breaks)

app_seed("app-eonvotes-leftover", "A04",
  [(APP, "	delete(app.EonStartVotings, config.ConfigIndex)\n", "	if len(v.Votes) == threshold {\n		delete(app.EonStartVotings, config.ConfigIndex)\n	}\n")],
  '''	app := NewShutterApp()
	app.Configs = []*BatchConfig{{Keypers: []common.Address{dAddr(1), dAddr(2), dAddr(3)}, Threshold: 2}}
	vote := func(b byte, batch uint64) int {
		return len(app.deliverMessage(shmsg.NewEonStartVote(batch), dAddr(b)).Events)
	}
	if vote(1, 100) != 0 || vote(2, 200) != 0 || vote(3, 200) != 1 {
		t.Fatal("demo: unexpected start")
	}
	if vote(1, 200) != 0 {
		t.Fatal("demo: a single vote after the restart started another eon")
	}
''', "a dissenting vote present when the threshold is reached, followed by one further vote", "votes are not cleared after an eon was started, so a single later vote starts another eon")

app_seed("app-decsig-last-only", "A10",
  [("shuttermint/app/batch_state.go", "	for _, sig := range bs.DecryptionSignatures {\n		if sig.Sender == ds.Sender {", "	if n := len(bs.DecryptionSignatures); n > 0 {\n		if sig := bs.DecryptionSignatures[n-1]; sig.Sender == ds.Sender {")],
  '''	app := NewShutterApp()
	app.Configs = []*BatchConfig{{Keypers: []common.Address{dAddr(1), dAddr(2)}, Threshold: 2}}
	for i, k := range []byte{1, 2, 1} {
		r := app.deliverMessage(shmsg.NewDecryptionSignature(7, []byte{byte(i)}), dAddr(k))
		if (r.Code == 0) != (i < 2) {
			t.Fatal("demo: second signature of one keyper accepted")
		}
	}
''', "the duplicate signature arrives after another keyper's signature for the same batch", "a keyper can publish two decryption signatures for one batch")

app_seed("app-powerdiff-decrease", "A07",
  [("shuttermint/app/powermap.go", "		if oldpm[v] != p {", "		if oldpm[v] < p {")],
  '''	a, b := ValidatorPubkey{string(make([]byte, 32))}, NonExistentValidator
	app := NewShutterApp()
	app.Configs = []*BatchConfig{{}, {Keypers: []common.Address{dAddr(1), dAddr(2), dAddr(3)}, Threshold: 1, Started: true}}
	app.Validators = Powermap{}
	app.Identities[dAddr(1)] = a
	set := map[string]int64{}
	apply := func() {
		for _, u := range app.EndBlock(abcitypes.RequestEndBlock{}).ValidatorUpdates {
			set[string(u.PubKey.GetEd25519())] = u.Power
		}
	}
	apply()
	app.Identities[dAddr(2)] = a
	apply()
	if set[a.Ed25519pubkey] != 20 || set[b.Ed25519pubkey] != 10 {
		t.Fatal("demo: wrong validator set", set)
	}
''', "a validator's power shrinks but stays positive (two keypers not checked in yet, then one)", "decreases of voting power are never sent to tendermint")

app_seed("app-checktx-quota-order", "A09",
  [("shuttermint/app/checktx.go", "	if s.TxCounts[sender] >= MaxTxsPerBlock {\n		return false\n	}\n	if !s.NonceTracker.Check(sender, msg.RandomNonce) {\n		return false\n	}\n\n	s.TxCounts[sender]++\n",
    "	if s.TxCounts[sender] >= MaxTxsPerBlock {\n		return false\n	}\n	s.TxCounts[sender]++\n	if !s.NonceTracker.Check(sender, msg.RandomNonce) {\n		return false\n	}\n\n")],
  '''	s := NewCheckTxState()
	s.SetMembers([]common.Address{dAddr(1)})
	for i := 0; i < 9; i++ {
		s.AddTx(dAddr(1), &shmsg.MessageWithNonce{RandomNonce: uint64(i)})
	}
	s.AddTx(dAddr(1), &shmsg.MessageWithNonce{RandomNonce: 3})
	if !s.AddTx(dAddr(1), &shmsg.MessageWithNonce{RandomNonce: 10}) {
		t.Fatal("demo: tenth transaction refused")
	}
''', "a refused duplicate nonce while the sender is close to its quota", "refused duplicates use up the sender's quota")

app_seed("app-nonce-only-on-success", "A01",
  [(APP, "	app.NonceTracker.Add(signer, msg.RandomNonce)\n	return app.deliverMessage(msg.Msg, signer)\n",
    "	res := app.deliverMessage(msg.Msg, signer)\n	if res.Code == 0 {\n		app.NonceTracker.Add(signer, msg.RandomNonce)\n	}\n	return res\n")],
  '''	key, _ := crypto.GenerateKey()
	app := NewShutterApp()
	app.ChainID = "c"
	app.Configs = []*BatchConfig{{Keypers: []common.Address{dAddr(1)}, Threshold: 1}}
	signed, err := shmsg.SignMessage(&shmsg.MessageWithNonce{ChainId: []byte("c"), RandomNonce: 5, Msg: shmsg.NewDecryptionSignature(3, []byte{1})}, key)
	if err != nil {
		t.Fatal(err)
	}
	tx := []byte(base64.RawURLEncoding.EncodeToString(signed))
	if app.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}).Code == 0 {
		t.Fatal("demo: outsider accepted")
	}
	// the sender becomes a keyper later, the old transaction must stay dead
	app.Configs[0].Keypers = append(app.Configs[0].Keypers, crypto.PubkeyToAddress(key.PublicKey))
	if app.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}).Code == 0 {
		t.Fatal("demo: replayed transaction executed")
	}
''', "a transaction that failed once is delivered again after the state changed so that it succeeds", "failed transactions can be replayed", imports='	"encoding/base64"\n')

app_seed("app-sort-first-byte", "A08",
  [("shuttermint/app/powermap.go", "		return bytes.Compare(validators[i].PubKey.GetEd25519(), validators[j].PubKey.GetEd25519()) < 0", "		return bytes.Compare(validators[i].PubKey.GetEd25519()[:1], validators[j].PubKey.GetEd25519()[:1]) < 0")],
  '''	for i := 0; i < 200; i++ {
		pm := Powermap{}
		for j := 0; j < 3; j++ {
			k := make([]byte, 32)
			k[31] = byte(j)
			pm[ValidatorPubkey{string(k)}] = 10
		}
		for j, u := range pm.ValidatorUpdates() {
			if u.PubKey.GetEd25519()[31] != byte(j) {
				t.Fatal("demo: order depends on map iteration")
			}
		}
	}
''', "two validator keys that share their first byte, and nodes iterating over the map differently", "validator updates are ordered differently on different nodes")

app_seed("app-started-any-keyper", "A03",
  [(APP, "	if !app.Configs[len(app.Configs)-2].IsKeyper(sender) {", "	if !app.isKeyper(sender) {")],
  '''	app := NewShutterApp()
	app.Configs = []*BatchConfig{{Keypers: []common.Address{dAddr(1)}, Threshold: 1}, {Keypers: []common.Address{dAddr(2)}, Threshold: 1, ConfigIndex: 1}}
	app.deliverMessage(shmsg.NewBatchConfigStarted(1), dAddr(2))
	app.EndBlock(abcitypes.RequestEndBlock{})
	if app.LastConfig().Started {
		t.Fatal("demo: started by a keyper of the new config")
	}
''', "an announcement by a keyper that is in another config than the preceding one", "keypers of the new config can start it themselves")

app_seed("app-checkin-early-record", "A06",
  [(APP, "	encryptionPublicKeyECDSA, err := crypto.DecompressPubkey(msg.EncryptionPublicKey)\n", "	app.Identities[sender] = validatorPublicKey\n	encryptionPublicKeyECDSA, err := crypto.DecompressPubkey(msg.EncryptionPublicKey)\n"),
   (APP, "	encryptionPublicKey := ecies.ImportECDSAPublic(encryptionPublicKeyECDSA)\n\n	app.Identities[sender] = validatorPublicKey\n", "	encryptionPublicKey := ecies.ImportECDSAPublic(encryptionPublicKeyECDSA)\n")],
  '''	app := NewShutterApp()
	app.Configs = []*BatchConfig{{Keypers: []common.Address{dAddr(1)}, Threshold: 1}}
	m := &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{ValidatorPublicKey: make([]byte, 32), EncryptionPublicKey: []byte{1}}}}
	if app.deliverMessage(m, dAddr(1)).Code == 0 || len(app.Identities) != 0 {
		t.Fatal("demo: rejected check-in recorded")
	}
''', "a check-in with a valid validator key and an invalid encryption key", "a rejected check-in registers the keyper, who can then never check in properly")

app_seed("app-polyeval-partial", "A05",
  [("shuttermint/app/dkg.go", "			return errors.Errorf(\"polynomial evaluation from keyper %s for receiver %s already present\", sender.Hex(), receiver.Hex())\n		}\n	}\n\n	for _, receiver := range msg.Receivers {\n		dkg.PolyEvalsSeen",
    "			return errors.Errorf(\"polynomial evaluation from keyper %s for receiver %s already present\", sender.Hex(), receiver.Hex())\n		}\n		dkg.PolyEvalsSeen")],
  '''	app := NewShutterApp()
	app.Configs = []*BatchConfig{{Keypers: []common.Address{dAddr(1), dAddr(2), dAddr(3)}, Threshold: 1}}
	app.StartDKG(*app.Configs[0])
	if app.deliverMessage(shmsg.NewPolyEval(1, []common.Address{dAddr(2), dAddr(9)}, [][]byte{{1}, {2}}), dAddr(1)).Code == 0 {
		t.Fatal("demo: accepted")
	}
	if app.deliverMessage(shmsg.NewPolyEval(1, []common.Address{dAddr(2), dAddr(3)}, [][]byte{{1}, {2}}), dAddr(1)).Code != 0 {
		t.Fatal("demo: rejected message left a trace")
	}
''', "a message whose second receiver is invalid, followed by a correct one", "a rejected evaluation message blocks the later correct one")

app_seed("app-config-votes-leftover", "A02",
  [(APP, """	_, ok := app.ConfigVoting.Outcome(int(app.LastConfig().Threshold))
	if ok {
		app.ConfigVoting = NewConfigVoting()
		err = app.addConfig(bc)
		if err != nil {
			return makeErrorResponse(fmt.Sprintf("Error in addConfig: %s", err))
		}
""", """	adopted, ok := app.ConfigVoting.Outcome(int(app.LastConfig().Threshold))
	if ok {
		bc = adopted
		err = app.addConfig(bc)
		if err != nil {
			return makeErrorResponse(fmt.Sprintf("Error in addConfig: %s", err))
		}
		for voter, candidate := range app.ConfigVoting.Votes {
			if app.ConfigVoting.Candidates[candidate].ConfigIndex <= bc.ConfigIndex {
				delete(app.ConfigVoting.Votes, voter)
			}
		}
""")],
  '''	app := NewShutterApp()
	ks := []common.Address{dAddr(1), dAddr(2), dAddr(3)}
	app.Configs = []*BatchConfig{{Keypers: ks, Threshold: 2}}
	msg := func(idx uint64) *shmsg.Message {
		return shmsg.NewBatchConfig(idx*10, ks, 2, dAddr(9), idx, false, false)
	}
	app.deliverMessage(msg(2), dAddr(3))
	app.deliverMessage(msg(1), dAddr(1))
	app.deliverMessage(msg(1), dAddr(2))
	if len(app.Configs) != 2 {
		t.Fatal("demo: config 1 not adopted")
	}
	app.deliverMessage(msg(2), dAddr(1))
	if len(app.Configs) != 2 {
		t.Fatal("demo: config 2 adopted with a single vote of its own round")
	}
''', "a vote for a later proposal that was cast while an earlier one was decided", "votes cast in an earlier round count towards the next configuration")

app_seed("app-short-tx", "A11",
  [("shuttermint/shmsg/encode.go", "	if len(signedMessage) < crypto.SignatureLength {", "	if len(signedMessage) < crypto.RecoveryIDOffset {")],
  '''	app := NewShutterApp()
	app.Configs = []*BatchConfig{{Keypers: []common.Address{dAddr(1)}, Threshold: 1}}
	defer func() {
		if recover() != nil {
			t.Fatal("demo: the node crashed")
		}
	}()
	for n := 0; n < 100; n++ {
		app.DeliverTx(abcitypes.RequestDeliverTx{Tx: []byte(base64.RawURLEncoding.EncodeToString(make([]byte, n)))})
	}
''', "a transaction of exactly 64 bytes after decoding", "a transaction one byte too short crashes every node", imports='	"encoding/base64"\n')


app_seed("receivers-sorted-without-evals", "E02",
  [("shuttermint/shmsg/messages.go", "		rs = append(rs, receiver.Bytes())\n	}\n", "		rs = append(rs, receiver.Bytes())\n	}\n	sort.Slice(rs, func(i, j int) bool { return bytes.Compare(rs[i], rs[j]) < 0 })\n"),
   ("shuttermint/shmsg/messages.go", 'import (\n	"math/big"\n', 'import (\n	"bytes"\n	"math/big"\n	"sort"\n')],
  '''	for _, to := range [][]common.Address{{dAddr(1), dAddr(2)}, {dAddr(2), dAddr(1)}} {
		m := shmsg.NewPolyEval(3, to, [][]byte{{to[0][19]}, {to[1][19]}}).GetPolyEval()
		p, err := ParsePolyEvalMsg(m, dAddr(3))
		if err != nil {
			t.Fatal(err)
		}
		for i, r := range p.Receivers {
			if p.EncryptedEvals[i][0] != r[19] {
				t.Fatal("demo: evaluation for another receiver")
			}
		}
	}
''', "keypers are not listed in the order of their addresses", "encrypted evaluations are addressed to the wrong receivers")

app_seed("duplicate-genesis-validators", "A13",
  [("shuttermint/app/powermap.go", "		res[pk] += v.Power\n", "		if res[pk] < v.Power {\n			res[pk] = v.Power\n		}\n")],
  '''	key := func(b byte) tmcrypto.PublicKey {
		return tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: append(make([]byte, 31), b)}}
	}
	pm, err := MakePowermap([]abcitypes.ValidatorUpdate{{PubKey: key(1), Power: 10}, {PubKey: key(2), Power: 3}, {PubKey: key(1), Power: 5}})
	if err != nil {
		t.Fatal(err)
	}
	for _, u := range pm.ValidatorUpdates() {
		if u.PubKey.Equal(key(1)) && u.Power != 15 {
			t.Fatal("demo: power of validator", u.Power)
		}
	}
''', "several keypers of the genesis share one validator", "the powers of a validator listed several times are not added up", imports='	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"\n')

app_seed("genesis-mismatch-threshold", "A13",
  [(APP, "	} else if !reflect.DeepEqual(bc, *app.Configs[0]) {\n", "	} else if !reflect.DeepEqual(bc.Keypers, app.Configs[0].Keypers) {\n")],
  '''	state := func(threshold int) []byte {
		bz, err := amino.NewCodec().MarshalJSON(NewGenesisAppState([]common.Address{dAddr(1), dAddr(2)}, threshold))
		if err != nil {
			t.Fatal(err)
		}
		return bz
	}
	if os.Getenv("SEED_DEMO_CHILD") != "" {
		app := NewShutterApp()
		app.InitChain(abcitypes.RequestInitChain{AppStateBytes: state(2), ChainId: "a"})
		app.InitChain(abcitypes.RequestInitChain{AppStateBytes: state(1), ChainId: "a"})
		os.Exit(0) // went on
	}
	cmd := exec.Command(os.Args[0], "-test.run", "TestSeedDemo")
	cmd.Env = append(os.Environ(), "SEED_DEMO_CHILD=1")
	if cmd.Run() == nil {
		t.Fatal("demo: genesis of another chain accepted")
	}
''', "a node with state is started with a genesis that differs in the threshold only", "a node goes on with the genesis of another chain", imports='	"os"\n	"os/exec"\n\n	"github.com/tendermint/go-amino"\n')
