package zz_verif_spec

import (
	"encoding/hex"
	"fmt"
	"math"
	"strings"
	"time"
)

// Date is a 3 byte DATE: day 5 bits, month 4 bits, year 14 bits, sign bit set.
func Date(b []byte) string {
	n := be(b, 3)
	return fmt.Sprintf("%04d-%02d-%02d", n>>9&0x3fff, n>>5&15, n&31)
}

// Time is a 3 byte TIME2: a signed number around 0x800000 of hour (10 bits),
// minute (6) and second (6).
func Time(b []byte) string {
	n := be(b, 3)
	sign := ""
	if n < 0x800000 {
		n = 0x800000 - n
		sign = "-"
	} else {
		n = n - 0x800000
	}
	return sign + fmt.Sprintf("%02d:%02d:%02d", n>>12&0x3ff, n>>6&63, n&63)
}

// DateTimePacked is a DATETIME2: 1 sign bit, 17 bits year*13+month, 5 day,
// 5 hour, 6 minute, 6 second.
func DateTimePacked(b []byte) string {
	n := be(b, 5)
	ym := n >> 22 & 0x1ffff
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", ym/13, ym-ym/13*13, n>>17&31, n>>12&31, n>>6&63, n&63)
}

// DateTimeOld is the decimal number YYYYMMDDhhmmss in 8 bytes, sign bit set.
func DateTimeOld(b []byte) string {
	n := be(b, 8) & 0x7fffffffffffffff
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d",
		n/10000000000%10000, n/100000000%100, n/1000000%100, n/10000%100, n/100%100, n%100)
}

// Timestamp is the number of seconds since 1970 in 4 bytes, printed as local time.
func Timestamp(b []byte) string {
	return time.Unix(int64(be(b, 4)), 0).Format("2006-01-02 15:04:05")
}

func Hex(b []byte) string { return hex.EncodeToString(b) }

func Text(b []byte, n uint64) string { return string(b[:n]) }

func CharText(b []byte, n uint64) string { return strings.TrimRight(string(b[:n]), " ") }

func HexText(b []byte, n uint64) string { return hex.EncodeToString(b[:n]) }

func Float(b []byte) float32 {
	return math.Float32frombits(uint32(b[3])<<24 | uint32(b[2])<<16 | uint32(b[1])<<8 | uint32(b[0]))
}

func Double(b []byte) float64 {
	var n uint64
	for i := 7; i >= 0; i-- {
		n = n<<8 | uint64(b[i])
	}
	return math.Float64frombits(n)
}
