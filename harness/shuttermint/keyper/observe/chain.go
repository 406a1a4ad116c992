package observe

import (
	"github.com/shutter-network/shutter/shuttermint/contract"

	"VERIFMODULE/verifsym"
)

func vNum(name string) uint64 { return uint64(verifsym.U32(name)) }

// VerifBatchBlocks: the blocks of an active config are divided into batches without gap or overlap.
func VerifBatchBlocks() {
	c := contract.BatchConfig{StartBatchIndex: vNum("batch"), StartBlockNumber: vNum("block"), BatchSpan: vNum("span")}
	i := c.StartBatchIndex + vNum("i")
	b := c.StartBlockNumber + vNum("b")
	verifsym.Assert(c.IsActive() == (c.BatchSpan > 0), "a config with batches is active")
	if !c.IsActive() {
		verifsym.Assert(c.BatchIndex(b) == c.StartBatchIndex, "an inactive config has no batches")
		verifsym.Reach("inactive")
		return
	}
	start, end := c.BatchStartBlock(i), c.BatchEndBlock(i)
	verifsym.Assert(c.BatchStartBlock(c.StartBatchIndex) == c.StartBlockNumber, "the first batch starts with the config")
	verifsym.Assert(end == start+c.BatchSpan, "batches are as long as configured")
	verifsym.Assert(c.BatchStartBlock(i+1) == end, "batches follow each other")
	verifsym.Assert((c.BatchIndex(b) == i) == verifsym.And(start <= b, b < end), "blocks belong to the batch whose blocks they are")
	verifsym.Reach("active")
}

var vSpans = []uint64{0, 1, 2, 7, 1<<20 + 1}

// vConfigs is a list of configs as the config contract allows to schedule them: it starts with an
// inactive one for everything, and transitions from active configs are seamless.
func vConfigs(n int) []contract.BatchConfig {
	cs := []contract.BatchConfig{{}}
	for i := 1; i <= n; i++ {
		last := cs[i-1]
		c := contract.BatchConfig{StartBatchIndex: last.StartBatchIndex, BatchSpan: vSpans[verifsym.Choose("span", 0, len(vSpans)-1)], Threshold: uint64(i)}
		if last.BatchSpan > 0 {
			k := vNum("batches")
			verifsym.Assume(k > 0)
			c.StartBatchIndex += k
			c.StartBlockNumber = last.StartBlockNumber + last.BatchSpan*k
		} else {
			k := vNum("blocks")
			verifsym.Assume(k > 0)
			c.StartBlockNumber = last.StartBlockNumber + k
		}
		cs = append(cs, c)
	}
	return cs
}

// VerifConfigOf: the config of a block and the config of its batch are the same one.
func VerifConfigOf() {
	m := NewMainChain(0)
	m.BatchConfigs = vConfigs(verifsym.Choose("n", 0, 3))
	b := vNum("b")
	want := 0
	for i, c := range m.BatchConfigs {
		if c.StartBlockNumber <= b {
			want = i
		}
	}
	at := m.ActiveConfigIndex(b)
	verifsym.Assert(at == want, "the latest config that has started is active")
	m.CurrentBlock = b
	// any batch belongs to the latest config that starts with it or an earlier one
	k := vNum("batch")
	wantk := 0
	for i, c := range m.BatchConfigs {
		if c.StartBatchIndex <= k {
			wantk = i
		}
	}
	atk, ok := m.ConfigIndexForBatchIndex(k)
	verifsym.Assert(ok == m.BatchConfigs[wantk].IsActive(), "only active configs have batches")
	verifsym.Assert(!ok || atk == wantk, "batches belong to the latest config that starts with or before them")
	ck, ok2 := m.ConfigForBatchIndex(k)
	verifsym.Assert(ok == ok2 && (!ok || ck.Threshold == uint64(wantk)), "the config of a batch is the one with its index")
	if !ok {
		verifsym.Reach("paused")
	}
	c := m.CurrentConfig()
	verifsym.Assert(c.Threshold == uint64(want) && len(m.ActiveConfigs()) == len(m.BatchConfigs)-want, "the current config is the active one")
	if !c.IsActive() {
		if ok {
			verifsym.Assert(!verifsym.And(ck.BatchStartBlock(k) <= b, b < ck.BatchEndBlock(k)), "no batch contains blocks of an inactive config")
		}
		verifsym.Reach("none")
		return
	}
	i := c.BatchIndex(b)
	j, ok := m.ConfigIndexForBatchIndex(i)
	verifsym.Assert(ok && j == at, "a batch has the config of its blocks")
	d, ok := m.ConfigForBatchIndex(i)
	verifsym.Assert(ok && d.Threshold == uint64(at), "a batch has the config of its blocks")
	verifsym.Assert(verifsym.And(d.BatchStartBlock(i) <= b, b < d.BatchEndBlock(i)), "the current batch contains the current block")
	if i > 0 {
		if e, ok := m.ConfigForBatchIndex(i - 1); ok {
			// there may be a pause between them
			gap := d.StartBatchIndex == i && !m.BatchConfigs[at-1].IsActive()
			end, start := e.BatchEndBlock(i-1), d.BatchStartBlock(i)
			verifsym.Assert(verifsym.Or(end == start, verifsym.And(gap, end < start)), "batches follow each other across configs")
			verifsym.Reach("seam")
		}
	}
	if e, ok := ck, ok2; ok {
		verifsym.Assert(verifsym.And(e.BatchStartBlock(k) <= b, b < e.BatchEndBlock(k)) == (k == i), "no other batch contains the current block")
		verifsym.Reach("other")
	}
}
