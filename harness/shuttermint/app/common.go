package app

import (
	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"VERIFMODULE/verifsym"
)

// vAddr returns an arbitrary address.
func vAddr(name string) common.Address {
	return common.BytesToAddress(verifsym.Bytes(name, common.AddressLength))
}

// vKeypers returns n pairwise distinct arbitrary addresses.
func vKeypers(name string, n int) []common.Address {
	var res []common.Address
	for i := 0; i < n; i++ {
		a := vAddr(name)
		for _, b := range res {
			verifsym.Assume(a != b)
		}
		res = append(res, a)
	}
	return res
}

func vIndexOf(as []common.Address, a common.Address) int {
	for i, b := range as {
		if a == b {
			return i
		}
	}
	return -1
}

// vIn says whether a occurs in as (without forking).
func vIn(as []common.Address, a common.Address) bool {
	r := false
	for _, b := range as {
		r = verifsym.Or(r, a == b)
	}
	return r
}

// vDistinct says whether all addresses differ (without forking).
func vDistinct(as []common.Address) bool {
	r := true
	for i := range as {
		for j := 0; j < i; j++ {
			r = verifsym.And(r, as[i] != as[j])
		}
	}
	return r
}

func vBytesOf(as []common.Address) [][]byte {
	var res [][]byte
	for _, a := range as {
		res = append(res, a.Bytes())
	}
	return res
}

// vSameEvents compares events including their order.
func vSameEvents(got, want []abcitypes.Event) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !verifsym.DeepEq(got[i], want[i]) {
			return false
		}
	}
	return true
}

func vCloneAddrSet(m map[common.Address]struct{}) map[common.Address]struct{} {
	r := make(map[common.Address]struct{})
	for k := range m {
		r[k] = struct{}{}
	}
	return r
}

func vCloneConfig(c BatchConfig) BatchConfig {
	r := c
	r.Keypers = append([]common.Address(nil), c.Keypers...)
	return r
}

func vCloneVotes(v Voting) Voting {
	r := NewVoting()
	for k, x := range v.Votes {
		r.Votes[k] = x
	}
	return r
}

// vClone copies the consensus relevant state.
func vClone(a *ShutterApp) *ShutterApp {
	r := NewShutterApp()
	r.Configs = nil
	byPtr := map[*BatchConfig]*BatchConfig{}
	for _, c := range a.Configs {
		d := vCloneConfig(*c)
		byPtr[c] = &d
		r.Configs = append(r.Configs, &d)
	}
	for k, v := range a.BatchStates {
		w := v
		if c := byPtr[v.Config]; c != nil {
			w.Config = c
		}
		w.DecryptionSignatures = append([]DecryptionSignature(nil), v.DecryptionSignatures...)
		r.BatchStates[k] = w
	}
	for k, d := range a.DKGMap {
		n := DKGInstance{
			Config:              vCloneConfig(d.Config),
			Eon:                 d.Eon,
			PolyEvalsSeen:       make(map[SenderReceiverPair]struct{}),
			PolyCommitmentsSeen: vCloneAddrSet(d.PolyCommitmentsSeen),
			AccusationsSeen:     vCloneAddrSet(d.AccusationsSeen),
			ApologiesSeen:       vCloneAddrSet(d.ApologiesSeen),
		}
		for p := range d.PolyEvalsSeen {
			n.PolyEvalsSeen[p] = struct{}{}
		}
		r.DKGMap[k] = &n
	}
	r.ConfigVoting.Voting = vCloneVotes(a.ConfigVoting.Voting)
	for _, c := range a.ConfigVoting.Candidates {
		r.ConfigVoting.Candidates = append(r.ConfigVoting.Candidates, vCloneConfig(c))
	}
	for k, v := range a.EonStartVotings {
		n := NewEonStartVoting()
		n.Voting = vCloneVotes(v.Voting)
		n.Candidates = append(n.Candidates, v.Candidates...)
		r.EonStartVotings[k] = n
	}
	r.LastBlockHeight = a.LastBlockHeight
	for k, v := range a.Identities {
		r.Identities[k] = v
	}
	r.StartedVotes = vCloneAddrSet(a.StartedVotes)
	if a.Validators != nil {
		r.Validators = make(Powermap)
		for k, v := range a.Validators {
			r.Validators[k] = v
		}
	}
	r.EONCounter = a.EONCounter
	r.DevMode = a.DevMode
	r.ChainID = a.ChainID
	for k, v := range a.NonceTracker.RandomNonces {
		m := make(map[uint64]bool)
		for n, b := range v {
			m[n] = b
		}
		r.NonceTracker.RandomNonces[k] = m
	}
	return r
}

// vSameState compares the consensus relevant state of two apps.
func vSameState(a, b *ShutterApp) bool {
	return verifsym.And(
		verifsym.DeepEq(a.Configs, b.Configs),
		verifsym.DeepEq(a.BatchStates, b.BatchStates),
		verifsym.DeepEq(a.DKGMap, b.DKGMap),
		verifsym.DeepEq(a.ConfigVoting, b.ConfigVoting),
		verifsym.DeepEq(a.EonStartVotings, b.EonStartVotings),
		a.LastBlockHeight == b.LastBlockHeight,
		verifsym.DeepEq(a.Identities, b.Identities),
		verifsym.DeepEq(a.StartedVotes, b.StartedVotes),
		verifsym.DeepEq(a.Validators, b.Validators),
		a.EONCounter == b.EONCounter,
		a.ChainID == b.ChainID,
		verifsym.DeepEq(a.NonceTracker, b.NonceTracker),
	)
}
