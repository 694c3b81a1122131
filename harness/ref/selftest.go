package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"
)

// SelfTest validates the model against math/big, crypto/ed25519 and the
// vectors of RFC 9496.  next supplies arbitrary 64-bit words.
func SelfTest(next func() uint64, n int) error {
	rnd := func(i int) [32]byte {
		var b [32]byte
		for j := 0; j < 4; j++ {
			w := next()
			switch (i + j) % 7 {
			case 3:
				w = ^uint64(0)
			case 5:
				w = 0
			}
			for k := 0; k < 8; k++ {
				b[8*j+k] = byte(w >> uint(8*k))
			}
		}
		return b
	}
	bigOf := func(b [32]byte) *big.Int {
		b[31] &= 127
		x := LEToBig(b[:])
		return x.Mod(x, P)
	}
	mod := func(x *big.Int) Fe {
		r := BigToLE32(x.Mod(x, P))
		return FromBytesMod(r)
	}
	edge := [][32]byte{{}, {1}, pLimbs.Bytes(), MinusOne.Bytes(), BigToLE32(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1)))}
	for i := 0; i < n; i++ {
		a8, b8 := rnd(i), rnd(i/7)
		if i < 25 {
			a8, b8 = edge[i/5], edge[i%5]
		}
		a, b := FromBytesMod(a8), FromBytesMod(b8)
		A, B := bigOf(a8), bigOf(b8)
		if a != mod(new(big.Int).Set(A)) || Add(a, b) != mod(new(big.Int).Add(A, B)) || Sub(a, b) != mod(new(big.Int).Sub(A, B)) ||
			Mul(a, b) != mod(new(big.Int).Mul(A, B)) || Neg(a) != mod(new(big.Int).Neg(A)) {
			return fmt.Errorf("ref: field arithmetic disagrees with math/big on %x %x", a8, b8)
		}
		if i < 25 || i%16 == 0 {
			if A.Sign() != 0 && Inv(a) != mod(new(big.Int).ModInverse(A, P)) {
				return fmt.Errorf("ref: inverse of %x", a8)
			}
			s, ok := Sqrt(a)
			if ok != (big.Jacobi(A, P) >= 0) {
				return fmt.Errorf("ref: squareness of %x", a8)
			}
			if ok && (Sq(s) != a || IsNeg(s)) {
				return fmt.Errorf("ref: root of %x", a8)
			}
			v, u := Map(a), Decode
			if !OnCurve(v) || !IsEven(v) {
				return fmt.Errorf("ref: map of %x", a8)
			}
			for k := 0; k < 8; k++ {
				if w := AddA(v, Tors[k]); IsEvenFast(w) != (k%2 == 0) {
					return fmt.Errorf("ref: evenness")
				}
			}
			q, ok := u(Encode(v))
			if !ok || !Equal(q, v) {
				return fmt.Errorf("ref: decode(encode(map(%x)))", a8)
			}
			found := false
			for _, t := range Preimages(v) {
				found = found || t == Abs(a)
			}
			if !found {
				return fmt.Errorf("ref: preimages of map(%x)", a8)
			}
		}
	}
	if Sq(I) != MinusOne || Sq(SqrtADMinusOne) != Sub(Neg(D), One) || Sq(Mul(InvSqrtAMinusD, One)) != Inv(Sub(MinusOne, D)) {
		return fmt.Errorf("ref: constants")
	}
	if !OnCurve(Base) || MulA(Base, L) != Identity || MulA(Tors8, big.NewInt(8)) != Identity || MulA(Tors8, big.NewInt(4)) == Identity {
		return fmt.Errorf("ref: base or torsion")
	}
	for i := range Tors {
		if !OnCurve(Tors[i]) || (i%2 == 0) != IsEven(Tors[i]) || (i%2 == 0) != IsEvenFast(Tors[i]) {
			return fmt.Errorf("ref: torsion %d", i)
		}
	}
	// crypto/ed25519: public key = clamp(H(seed)) * B.
	for i := 0; i < 8; i++ {
		seed := rnd(i)
		pk := ed25519.NewKeyFromSeed(seed[:]).Public().(ed25519.PublicKey)
		h := sha512.Sum512(seed[:])
		h[0] &= 248
		h[31] &= 127
		h[31] |= 64
		q := MulA(Base, LEToBig(h[:32]))
		e := q.Y.Bytes()
		if IsNeg(q.X) {
			e[31] |= 0x80
		}
		if !bytes.Equal(e[:], pk) {
			return fmt.Errorf("ref: disagrees with crypto/ed25519")
		}
	}
	// RFC 9496 appendix A.
	q := Identity
	for i, v := range rfcMultiples {
		e := Encode(q)
		if hex.EncodeToString(e[:]) != v {
			return fmt.Errorf("ref: RFC 9496 A.1 multiple %d: %x", i, e)
		}
		d, ok := Decode(e)
		if !ok || !Equal(d, q) {
			return fmt.Errorf("ref: RFC 9496 A.1 multiple %d does not decode", i)
		}
		q = AddA(q, Base)
	}
	for _, v := range rfcBad {
		b, _ := hex.DecodeString(v)
		var a [32]byte
		copy(a[:], b)
		if _, ok := Decode(a); ok {
			return fmt.Errorf("ref: RFC 9496 A.2 %s accepted", v)
		}
	}
	h := sha512.Sum512([]byte("Ristretto is traditionally a short shot of espresso coffee"))
	var h0, h1 [32]byte
	copy(h0[:], h[:32])
	copy(h1[:], h[32:])
	e := Encode(AddA(MapBytes(h0), MapBytes(h1)))
	if hex.EncodeToString(e[:]) != "3066f82a1a747d45120d1740f14358531a8f04bbffe6a819f86dfe50f44a0a46" {
		return fmt.Errorf("ref: RFC 9496 A.3: %x", e)
	}
	return nil
}

var rfcMultiples = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
	"6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919",
	"94741f5d5d52755ece4f23f044ee27d5d1ea1e2bd196b462166b16152a9d0259",
}

var rfcBad = []string{
	"00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"f3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"26948d35ca62e643e26a83177332e6b6afeb9d08e4268b650f1f5bbd8d81d371",
}
