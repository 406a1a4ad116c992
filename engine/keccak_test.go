package main

import (
	"encoding/hex"
	"testing"
)

func TestKeccak(t *testing.T) {
	if h := hex.EncodeToString(keccakSum(nil, 136, 1, 32)); h != "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470" {
		t.Fatal(h)
	}
	if h := hex.EncodeToString(keccakSum([]byte("abc"), 136, 6, 32)); h != "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532" {
		t.Fatal(h)
	}
}
