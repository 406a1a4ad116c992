package app

import (
	"bytes"

	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"VERIFMODULE/verifsym"
)

// vApply applies validator updates the way tendermint does: power 0 removes a known validator.
func vApply(set map[string]int64, ups []abcitypes.ValidatorUpdate) bool {
	ok := true
	for _, u := range ups {
		k := string(u.PubKey.GetEd25519())
		_, known := set[k]
		if u.Power == 0 {
			ok = ok && known
			delete(set, k)
		} else {
			ok = ok && u.Power > 0
			set[k] = u.Power
		}
	}
	return ok
}

func vSameSet(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

// VerifValidators drives blocks of an app whose configs, check-ins and initial validators are
// arbitrary and compares the validator set tendermint ends up with to the one the configs prescribe.
func VerifValidators() {
	n := verifsym.Choose("n", 1, 3)
	keypers := vKeypers("keyper", n)
	t := verifsym.U64("threshold")
	verifsym.Assume(t >= 1 && t <= uint64(n))
	app := NewShutterApp()
	app.DevMode = verifsym.Bool("devmode")
	old := vKeypers("old", 1)
	app.Configs = []*BatchConfig{
		{Keypers: old, Threshold: 1, Started: true, ValidatorsUpdated: verifsym.Fork(verifsym.Bool("oldupdated"))},
		{Keypers: keypers, Threshold: t, ConfigIndex: 1, StartBatchIndex: 7, Started: verifsym.Fork(verifsym.Bool("started"))},
	}
	ident := map[common.Address]string{}
	checkin := func(a common.Address) {
		if _, ok := ident[a]; ok {
			return
		}
		k := string(verifsym.Bytes("vkey", 32))
		verifsym.Assume(k != NonExistentValidator.Ed25519pubkey)
		ident[a] = k
		app.Identities[a] = ValidatorPubkey{Ed25519pubkey: k}
	}
	powers := func(ks []common.Address) map[string]int64 {
		m := map[string]int64{}
		for _, a := range ks {
			k, ok := ident[a]
			if !ok {
				k = NonExistentValidator.Ed25519pubkey
			}
			m[k] += 10
		}
		return m
	}
	if app.Configs[0].ValidatorsUpdated {
		checkin(old[0])
	}
	// the validators tendermint has at the beginning
	set := map[string]int64{}
	app.Validators = Powermap{}
	if app.Configs[0].ValidatorsUpdated {
		set = powers(old)
	} else {
		power := verifsym.I64("power")
		verifsym.Assume(power > 0 && power < 1<<59)
		set[string(verifsym.Bytes("genesis", 32))] = power
	}
	for k, v := range set {
		app.Validators[ValidatorPubkey{Ed25519pubkey: k}] = v
	}
	updated := false
	blocks := 2
	if n == 3 && verifsym.Tier() == 0 {
		blocks = 1
	}
	for block := 0; block < blocks; block++ {
		for i := range keypers {
			if verifsym.Fork(verifsym.Bool("checkin")) {
				checkin(keypers[i])
			}
		}
		if verifsym.Tier() > 0 && verifsym.Fork(verifsym.Bool("checkinold")) {
			checkin(old[0])
		}
		var in uint64
		for _, a := range keypers {
			if _, ok := ident[a]; ok {
				in++
			}
		}
		h := verifsym.I64("height")
		r := app.EndBlock(abcitypes.RequestEndBlock{Height: h})
		verifsym.Assert(app.LastBlockHeight == h, "height-recorded")
		if app.Configs[1].Started && in >= t {
			updated = true
		}
		want := map[string]int64{}
		switch {
		case updated:
			want = powers(keypers)
			verifsym.Reach("updated")
		case app.Configs[0].ValidatorsUpdated:
			want = powers(old)
			verifsym.Reach("previous")
		default:
			for k, v := range set {
				want[k] = v
			}
			verifsym.Reach("genesis")
		}
		if app.DevMode {
			verifsym.Assert(len(r.ValidatorUpdates) == 0, "no-updates-in-dev-mode")
			set = want
			verifsym.Reach("devmode")
			continue
		}
		for i := range r.ValidatorUpdates {
			u := r.ValidatorUpdates[i]
			k := string(u.PubKey.GetEd25519())
			verifsym.Assert(set[k] != u.Power, "no-redundant-update")
			if i > 0 {
				p := r.ValidatorUpdates[i-1]
				verifsym.Assert(bytes.Compare(p.PubKey.GetEd25519(), u.PubKey.GetEd25519()) < 0, "updates-sorted")
			}
		}
		verifsym.Assert(vApply(set, r.ValidatorUpdates), "updates-applicable")
		verifsym.Assert(vSameSet(set, want), "validators-match-config")
		if len(r.ValidatorUpdates) > 0 {
			verifsym.Reach("changed")
		}
	}
}
