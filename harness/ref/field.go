// Package ref is an independent reference model of GF(2^255-19),
// Edwards25519, the Ristretto255 group (RFC 9496) and the integers modulo the
// group order.  It shares no code and no number representation with the
// library under test (saturated 64-bit limbs, always fully reduced; affine
// curve formulas) and is itself validated against math/big and
// crypto/ed25519 at the start of every run (SelfTest).
package ref

import (
	"encoding/binary"
	"encoding/hex"
	"math/big"
	"math/bits"
)

// Fe is an element of GF(2^255-19), always in [0, p), little-endian limbs.
type Fe [4]uint64

var (
	P, _                                                     = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	L, _                                                     = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	pLimbs                                                   = Fe{0xffffffffffffffed, ^uint64(0), ^uint64(0), 0x7fffffffffffffff}
	One                                                      = Fe{1}
	Zero                                                     = Fe{}
	MinusOne                                                 Fe
	I, D, TwoD                                               Fe // sqrt(-1) (non-negative), curve constant d, 2d
	OneMinusDSq, DMinusOneSq, SqrtADMinusOne, InvSqrtAMinusD Fe
)

// condSubP subtracts p once if a >= p.
func (a Fe) condSubP() Fe {
	r0, b := bits.Sub64(a[0], 0xffffffffffffffed, 0)
	r1, b := bits.Sub64(a[1], 0xffffffffffffffff, b)
	r2, b := bits.Sub64(a[2], 0xffffffffffffffff, b)
	r3, b := bits.Sub64(a[3], 0x7fffffffffffffff, b)
	if b == 1 {
		return a
	}
	return Fe{r0, r1, r2, r3}
}

func Add(a, b Fe) Fe {
	r0, c := bits.Add64(a[0], b[0], 0)
	r1, c := bits.Add64(a[1], b[1], c)
	r2, c := bits.Add64(a[2], b[2], c)
	r3 := a[3] + b[3] + c // a,b < 2^255 so no carry out
	return Fe{r0, r1, r2, r3}.condSubP()
}

func Neg(a Fe) Fe {
	if a == Zero {
		return a
	}
	var r Fe
	var b uint64
	for i := 0; i < 4; i++ {
		r[i], b = bits.Sub64(pLimbs[i], a[i], b)
	}
	return r
}

func Sub(a, b Fe) Fe { return Add(a, Neg(b)) }

func Mul(a, b Fe) Fe {
	var c, h, l, k uint64
	var t0, t1, t2, t3, t4, t5, t6, t7 uint64
	c = 0
	h, l = bits.Mul64(a[0], b[0])
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t0 = l
	h, l = bits.Mul64(a[0], b[1])
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t1 = l
	h, l = bits.Mul64(a[0], b[2])
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t2 = l
	h, l = bits.Mul64(a[0], b[3])
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t3 = l
	t4 = c
	c = 0
	h, l = bits.Mul64(a[1], b[0])
	l, k = bits.Add64(l, t1, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t1 = l
	h, l = bits.Mul64(a[1], b[1])
	l, k = bits.Add64(l, t2, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t2 = l
	h, l = bits.Mul64(a[1], b[2])
	l, k = bits.Add64(l, t3, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t3 = l
	h, l = bits.Mul64(a[1], b[3])
	l, k = bits.Add64(l, t4, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t4 = l
	t5 = c
	c = 0
	h, l = bits.Mul64(a[2], b[0])
	l, k = bits.Add64(l, t2, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t2 = l
	h, l = bits.Mul64(a[2], b[1])
	l, k = bits.Add64(l, t3, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t3 = l
	h, l = bits.Mul64(a[2], b[2])
	l, k = bits.Add64(l, t4, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t4 = l
	h, l = bits.Mul64(a[2], b[3])
	l, k = bits.Add64(l, t5, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t5 = l
	t6 = c
	c = 0
	h, l = bits.Mul64(a[3], b[0])
	l, k = bits.Add64(l, t3, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t3 = l
	h, l = bits.Mul64(a[3], b[1])
	l, k = bits.Add64(l, t4, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t4 = l
	h, l = bits.Mul64(a[3], b[2])
	l, k = bits.Add64(l, t5, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t5 = l
	h, l = bits.Mul64(a[3], b[3])
	l, k = bits.Add64(l, t6, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t6 = l
	t7 = c
	// 2^256 = 38 mod p
	c = 0
	h, l = bits.Mul64(t4, 38)
	l, k = bits.Add64(l, t0, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t0 = l
	h, l = bits.Mul64(t5, 38)
	l, k = bits.Add64(l, t1, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t1 = l
	h, l = bits.Mul64(t6, 38)
	l, k = bits.Add64(l, t2, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t2 = l
	h, l = bits.Mul64(t7, 38)
	l, k = bits.Add64(l, t3, 0)
	h += k
	l, k = bits.Add64(l, c, 0)
	c = h + k
	t3 = l
	// c <= 38; fold it and bit 255 together: 2^255 = 19
	c = c<<1 | t3>>63
	t3 &= 0x7fffffffffffffff
	t0, k = bits.Add64(t0, c*19, 0)
	t1, k = bits.Add64(t1, 0, k)
	t2, k = bits.Add64(t2, 0, k)
	t3 += k
	return Fe{t0, t1, t2, t3}.condSubP()
}

func Sq(a Fe) Fe { return Mul(a, a) }

// Pow returns a^e.
func Pow(a Fe, e *big.Int) Fe {
	r := One
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = Sq(r)
		if e.Bit(i) == 1 {
			r = Mul(r, a)
		}
	}
	return r
}

var expInv, expSqrt, expLegendre *big.Int

func pow2k(a Fe, k int) Fe {
	for i := 0; i < k; i++ {
		a = Sq(a)
	}
	return a
}

// pow22501 returns (a^(2^250-1), a^11).
func pow22501(a Fe) (Fe, Fe) {
	t0 := Sq(a)
	t1 := pow2k(t0, 2)
	t2 := Mul(a, t1)  // 9
	t3 := Mul(t0, t2) // 11
	t4 := Sq(t3)
	t5 := Mul(t2, t4) // 2^5-1
	t7 := Mul(pow2k(t5, 5), t5)
	t9 := Mul(pow2k(t7, 10), t7)
	t11 := Mul(pow2k(t9, 20), t9)
	t13 := Mul(pow2k(t11, 10), t7)
	t15 := Mul(pow2k(t13, 50), t13)
	t17 := Mul(pow2k(t15, 100), t15)
	t19 := Mul(pow2k(t17, 50), t13)
	return t19, t3
}

// Inv returns 1/a and 0 for a = 0.
func Inv(a Fe) Fe {
	t19, t3 := pow22501(a)
	return Mul(pow2k(t19, 5), t3)
}

func powP58(a Fe) Fe {
	t19, _ := pow22501(a)
	return Mul(pow2k(t19, 2), a)
}

func IsNeg(a Fe) bool { return a[0]&1 == 1 }

func Abs(a Fe) Fe {
	if IsNeg(a) {
		return Neg(a)
	}
	return a
}

// SqrtRatio is SQRT_RATIO_M1 of RFC 9496 section 4.2.
func SqrtRatio(u, v Fe) (bool, Fe) {
	v3 := Mul(Sq(v), v)
	v7 := Mul(Sq(v3), v)
	r := Mul(Mul(u, v3), powP58(Mul(u, v7)))
	check := Mul(v, Sq(r))
	nu := Neg(u)
	correct := check == u
	flipped := check == nu
	flippedI := check == Mul(nu, I)
	if flipped || flippedI {
		r = Mul(r, I)
	}
	return correct || flipped, Abs(r)
}

// IsSquare reports whether a is a square (0 is).
func IsSquare(a Fe) bool {
	ok, _ := SqrtRatio(a, One)
	return ok || a == Zero
}

// Sqrt returns the non-negative square root of a, if there is one.
func Sqrt(a Fe) (Fe, bool) {
	ok, r := SqrtRatio(a, One)
	return r, ok
}

// FromBytesMod interprets b little endian, ignoring the top bit, modulo p.
func FromBytesMod(b [32]byte) Fe {
	var r Fe
	for i := 0; i < 4; i++ {
		r[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	r[3] &= 0x7fffffffffffffff
	return r.condSubP()
}

func (a Fe) Bytes() [32]byte {
	var b [32]byte
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(b[8*i:], a[i])
	}
	return b
}

func (a Fe) Hex() string { b := a.Bytes(); return hex.EncodeToString(b[:]) }

func (a Fe) Big() *big.Int { b := a.Bytes(); return LEToBig(b[:]) }

func FromBig(x *big.Int) Fe {
	return FromBytesMod(BigToLE32(new(big.Int).Mod(x, P)))
}

func FromU64(x uint64) Fe { return Fe{x} }

// LEToBig interprets b as a little-endian natural number.
func LEToBig(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// BigToLE32 encodes 0 <= x < 2^256 as 32 little-endian bytes.
func BigToLE32(x *big.Int) [32]byte {
	var out [32]byte
	b := x.Bytes()
	if len(b) > 32 {
		panic("BigToLE32: too big")
	}
	for i := range b {
		out[i] = b[len(b)-1-i]
	}
	return out
}

func initField() {
	expInv = new(big.Int).Sub(P, big.NewInt(2))
	expLegendre = new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 1)
	MinusOne = Neg(One)
	// i = 2^((p-1)/4), made non-negative.
	I = Abs(Pow(FromU64(2), new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2)))
	// d = -121665/121666
	D = Mul(Neg(FromU64(121665)), Pow(FromU64(121666), expInv))
	TwoD = Add(D, D)
	OneMinusDSq = Sub(One, Sq(D))
	DMinusOneSq = Sq(Sub(D, One))
	// The RFC fixes these roots as integers; both turn out to be checked in
	// SelfTest against the decimal constants in RFC 9496 section 4.1.
	SqrtADMinusOne = mustDec("25063068953384623474111414158702152701244531502492656460079210482610430750235")
	InvSqrtAMinusD = mustDec("54469307008909316920995813868745141605393597292927456921205312896311721017578")
}

func mustDec(s string) Fe {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return FromBig(x)
}
