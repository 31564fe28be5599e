// Package zz_verif_spec holds the reference semantics the analysed code is
// compared with.  It is written from the MySQL 5.7 format definitions and shares
// no code with the repository.
package zz_verif_spec

// BE is the unsigned big-endian value of the first k bytes.
func be(b []byte, k int) uint64 {
	var n uint64
	for i := 0; i < k; i++ {
		n = n<<8 | uint64(b[i])
	}
	return n
}

func BE1(b []byte) uint64 { return be(b, 1) }
func BE2(b []byte) uint64 { return be(b, 2) }
func BE3(b []byte) uint64 { return be(b, 3) }
func BE4(b []byte) uint64 { return be(b, 4) }
func BE7(b []byte) uint64 { return be(b, 7) }
func BE8(b []byte) uint64 { return be(b, 8) }

// UintCol is an unsigned column of k bytes.
func UintCol(k int, b []byte) uint64 { return be(b, k) }

// IntCol is a signed column of k bytes: the sign bit is stored inverted.
func IntCol(k int, b []byte) int64 {
	n := be(b, k) ^ 1<<uint(8*k-1)
	return int64(n<<uint(64-8*k)) >> uint(64-8*k)
}

// Comp is the 32-bit compressed format: value and encoded length.
func Comp(d []byte, pos uint64) (uint64, uint64) {
	f := d[pos]
	if f&0x80 == 0 {
		return uint64(f), 1
	}
	if f&0x40 == 0 {
		return be(d[pos:], 2) & 0x3fff, 2
	}
	if f&0x20 == 0 {
		return be(d[pos:], 3) & 0x1fffff, 3
	}
	if f&0x10 == 0 {
		return be(d[pos:], 4) & 0xfffffff, 4
	}
	return be(d[pos+1:], 4), 5
}

// CompSize is the length InnoDB writes for a 32-bit value.
func CompSize(n uint64) uint64 {
	if n>>7 == 0 {
		return 1
	}
	if n>>14 == 0 {
		return 2
	}
	if n>>21 == 0 {
		return 3
	}
	if n>>28 == 0 {
		return 4
	}
	return 5
}

// UllComp: high word compressed, low word in 4 bytes.
func UllComp(d []byte, pos uint64) (uint64, uint64) {
	h, n := Comp(d, pos)
	return h<<32 | be(d[pos+n:], 4), pos + n + 4
}

// UllMuch: a marker byte 0xFF and the compressed high word when there is one,
// then the compressed low word.
func UllMuch(d []byte) (uint64, uint64) {
	var hi, pos uint64
	if d[0] == 0xff {
		h, n := Comp(d, 1)
		hi, pos = h, 1+n
	}
	lo, n := Comp(d, pos)
	return hi<<32 | lo, pos + n
}

func UllMuchSize(n uint64) uint64 {
	if n>>32 == 0 {
		return CompSize(n)
	}
	return 1 + CompSize(n>>32) + CompSize(n&0xffffffff)
}
