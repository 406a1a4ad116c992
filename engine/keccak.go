package main

import "encoding/binary"

var keccakRC = [24]uint64{0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008}

func keccakF(a *[25]uint64) {
	rot := func(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for i := 0; i < 5; i++ {
			c[i] = a[i] ^ a[i+5] ^ a[i+10] ^ a[i+15] ^ a[i+20]
		}
		for i := 0; i < 5; i++ {
			d := c[(i+4)%5] ^ rot(c[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				a[i+j] ^= d
			}
		}
		x, y := 1, 0
		cur := a[1]
		for t := uint(0); t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			n := (t + 1) * (t + 2) / 2 % 64
			cur, a[x+5*y] = a[x+5*y], rot(cur, n)
		}
		for j := 0; j < 25; j += 5 {
			var b [5]uint64
			copy(b[:], a[j:j+5])
			for i := 0; i < 5; i++ {
				a[j+i] = b[i] ^ (^b[(i+1)%5] & b[(i+2)%5])
			}
		}
		a[0] ^= keccakRC[r]
	}
}

func keccakSum(data []byte, rate int, ds byte, outLen int) []byte {
	var st [25]uint64
	p := append([]byte(nil), data...)
	p = append(p, ds)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for off := 0; off < len(p); off += rate {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(p[off+8*i:])
		}
		keccakF(&st)
	}
	var out []byte
	for {
		for i := 0; i < rate/8; i++ {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], st[i])
			out = append(out, b[:]...)
		}
		if len(out) >= outLen {
			return out[:outLen]
		}
		keccakF(&st)
	}
}
