package shcrypto

import (
	"math/big"

	"VERIFMODULE/verifsym"
)

// VerifShuffle: the shuffled transactions are a permutation of the given ones, which depends on the
// key and the number of transactions only.
func VerifShuffle() {
	max := 5
	if verifsym.Tier() > 0 {
		max = 6
	}
	n := verifsym.Choose("transactions", 0, max)
	k := verifsym.Fq("key", order)
	var txs [][]byte
	for i := 0; i < n; i++ {
		txs = append(txs, verifsym.Bytes("transaction", i%3))
	}
	vShuffle(txs, k)
	if !verifsym.Symbolic() {
		// the permutation of the key found by the solver is that of some other key
		for i := int64(0); i < 2000; i++ {
			vShuffle(txs, big.NewInt(i))
		}
	}
}

func vShuffle(content [][]byte, k *big.Int) {
	n := len(content)
	key := (*EpochSecretKey)(generateP1(new(big.Int).Set(k)))
	var txs, tags, orig [][]byte
	for i, tx := range content {
		txs = append(txs, tx)
		orig = append(orig, append([]byte{}, tx...))
		tags = append(tags, []byte{byte(i)})
	}
	// spare capacity behind the transactions belongs to the caller
	more := append(txs[:n:n], []byte{1}, []byte{2})
	perm := Shuffle(tags, key)
	verifsym.Assert(len(perm) == n, "number-of-transactions")
	seen := make([]bool, n)
	moved := false
	for i, p := range perm {
		verifsym.Assert(len(p) == 1 && int(p[0]) < n && !seen[p[0]], "permutation")
		seen[p[0]] = true
		moved = moved || int(p[0]) != i
	}
	for i := range tags {
		verifsym.Assert(len(tags[i]) == 1 && tags[i][0] == byte(i), "order-of-the-input-unchanged")
	}
	res := Shuffle(more[:n], (*EpochSecretKey)(generateP1(k)))
	verifsym.Assert(len(res) == n, "number-of-transactions")
	for i := range res {
		verifsym.Assert(string(res[i]) == string(orig[perm[i][0]]), "order-depends-on-the-key-only")
		verifsym.Assert(string(more[i]) == string(orig[i]), "input-unchanged")
	}
	verifsym.Assert(len(more) == n+2 && more[n][0] == 1 && more[n+1][0] == 2, "memory-behind-the-input-unchanged")
	if moved {
		verifsym.Reach("moved")
	} else {
		verifsym.Reach("unmoved")
	}
}
