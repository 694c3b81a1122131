package props

import (
	"bytes"
	"crypto/sha512"
	"math/big"

	rist "github.com/bwesterb/go-ristretto"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

func refScalarBytes(b [32]byte) *big.Int {
	b[31] &= 0x1f
	return modL(ref.LEToBig(b[:]))
}

// b32Scalar draws a 32-byte scalar encoding (not necessarily reduced).
func b32Scalar(t *pbt.T) ([32]byte, string) {
	b, c := gen.Bytes32(t)
	switch t.Intn(5) {
	case 0:
		b[31] &= 0x1f
	case 1:
		b[31] = b[31]&0x1f | byte(t.Intn(8))<<5
	case 2: // next to l, in any limb: l with one limb changed by a little
		b = ref.BigToLE32(ref.L)
		i := t.Intn(32)
		b[i] += byte(t.Range(-2, 2))
		if t.Bool() {
			j := t.Intn(32)
			b[j] += byte(t.Range(-2, 2))
		}
		c = "l-perturbed"
	}
	t.Note("bytes %x [%s]", b, c)
	return b, c
}

func init() {
	reg("C02", &pbt.Law{Name: "setbytes", Rule: "32-byte strings: edge classes of integers below 2^256, l with perturbed bytes, top three bits set at random; non-trivial: not reduced, or top bits set, or within 64 of a multiple of l, or an edge class", Quick: 2000000, Thorough: 40000000, Run: func(t *pbt.T) {
		b, c := b32Scalar(t)
		want := refScalarBytes(b)
		t.NonTrivialIf(c != "uniform" || b[31] >= 0x10)
		in := b
		s := garbageScalar(t)
		if s.SetBytes(&b) != s {
			t.Fatalf("SetBytes did not return its receiver")
		}
		if b != in {
			t.Fatalf("SetBytes changed its input")
		}
		sameScalar(t, "SetBytes", s, want)
		enc := ref.BigToLE32(want)
		if !bytes.Equal(s.Bytes(), enc[:]) {
			t.Fatalf("Bytes = %x, want %x", s.Bytes(), enc)
		}
		var buf [32]byte
		t.Fill(buf[:8])
		s.BytesInto(&buf)
		if buf != enc {
			t.Fatalf("BytesInto = %x, want %x", buf, enc)
		}
		if s.BigInt().Cmp(want) != 0 {
			t.Fatalf("BigInt = %x, want %x", s.BigInt(), want)
		}
		nz := int32(0)
		if want.Sign() != 0 {
			nz = 1
		}
		if s.IsNonZeroI() != nz {
			t.Fatalf("IsNonZeroI = %d, want %d", s.IsNonZeroI(), nz)
		}
		// decoding the canonical encoding gives the same scalar
		var s2 rist.Scalar
		s2.SetBytes(&enc)
		if s2 != *s {
			t.Fatalf("SetBytes(Bytes()) differs")
		}
	}})
	reg("C02", &pbt.Law{Name: "strict", Rule: "as setbytes; non-trivial: within the classes near multiples of l, or top bits set, or an edge class (both verdicts are counted)", Quick: 2000000, Thorough: 40000000, Run: func(t *pbt.T) {
		b, c := b32Scalar(t)
		t.NonTrivialIf(c != "uniform" || b[31] >= 0x10)
		x := ref.LEToBig(b[:])
		want := x.Cmp(ref.L) < 0
		s := garbageScalar(t)
		old := *s
		in := b
		got := s.SetBytesStrict(&b)
		if b != in {
			t.Fatalf("SetBytesStrict changed its input")
		}
		if want {
			t.Class("accepted")
		} else {
			t.Class("rejected")
		}
		if got != want {
			t.Fatalf("SetBytesStrict(%x) = %v, want %v", b, got, want)
		}
		if want {
			sameScalar(t, "SetBytesStrict", s, x)
		} else if *s != old {
			t.Fatalf("rejected SetBytesStrict changed the scalar")
		}
	}})
	reg("C02", &pbt.Law{Name: "wide", Rule: "64-byte strings: k*l+delta for edge k, near 2^k, extreme 21-bit limbs, near 2^512, halves, uniform; non-trivial: not uniform", Quick: 2000000, Thorough: 40000000, Run: func(t *pbt.T) {
		b, c := gen.Bytes64(t)
		t.Note("bytes %x [%s]", b, c)
		t.NonTrivialIf(c != "uniform")
		want := modL(ref.LEToBig(b[:]))
		in := b
		s := garbageScalar(t)
		if s.SetReduced(&b) != s {
			t.Fatalf("SetReduced did not return its receiver")
		}
		if b != in {
			t.Fatalf("SetReduced changed its input")
		}
		sameScalar(t, "SetReduced", s, want)
	}})
	reg("C02", &pbt.Law{Name: "integers", Rule: "big integers of both signs up to 1100 bits (edge classes, multiples of l plus small), and uint64; non-trivial: negative, or at least l, or within 600 of 0", Quick: 400000, Thorough: 8000000, Run: func(t *pbt.T) {
		x, c := gen.Big256(t)
		switch t.Intn(5) {
		case 0:
			b, _ := gen.Bytes64(t)
			x = ref.LEToBig(b[:])
			if t.Bool() {
				x.Lsh(x, uint(t.Intn(600)))
				x.Add(x, big.NewInt(int64(t.Range(-9, 9))))
			}
			c = "wide"
		case 1: // multiple of l
			x.Mul(x, ref.L)
			x.Add(x, big.NewInt(int64(t.Range(-9, 9))))
			c = "k*l+delta"
		}
		if t.Bool() {
			x.Neg(x)
		}
		t.Note("x = %s0x%x [%s]", map[bool]string{true: "-", false: ""}[x.Sign() < 0], new(big.Int).Abs(x), c)
		t.NonTrivialIf(x.Sign() < 0 || x.Cmp(ref.L) >= 0 || x.BitLen() < 10)
		keep := new(big.Int).Set(x)
		s := garbageScalar(t)
		if s.SetBigInt(x) != s {
			t.Fatalf("SetBigInt did not return its receiver")
		}
		if keep.Cmp(x) != 0 {
			t.Fatalf("SetBigInt changed its argument")
		}
		want := new(big.Int).Mod(x, ref.L)
		sameScalar(t, "SetBigInt", s, want)
		if s.BigInt().Cmp(want) != 0 {
			t.Fatalf("BigInt after SetBigInt")
		}
		u := new(big.Int).Abs(x).Uint64()
		if t.Intn(3) == 0 {
			u = t.Raw()
		}
		u2 := garbageScalar(t)
		u2.SetUint64(u)
		sameScalar(t, "SetUint64", u2, new(big.Int).SetUint64(u))
		u2.SetOne()
		sameScalar(t, "SetOne", u2, oneB)
		u2.SetZero()
		sameScalar(t, "SetZero", u2, new(big.Int))
		u2.Set(s)
		sameScalar(t, "Set", u2, want)
	}})
	reg("C02", &pbt.Law{Name: "derive", Rule: "data of lengths 0..39, around SHA-512 block boundaries, up to 16 KiB, with slack capacity; non-trivial: every case (the lengths are counted by class)", Quick: 150000, Thorough: 2000000, Run: func(t *pbt.T) {
		d, c := gen.Data(t)
		t.Note("data[%d] %x.. [%s]", len(d), d[:min(len(d), 24)], c)
		t.Class(c)
		t.NonTrivial()
		in := append([]byte{}, d...)
		h := sha512.Sum512(in)
		s := garbageScalar(t)
		if s.Derive(d) != s {
			t.Fatalf("Derive did not return its receiver")
		}
		sameScalar(t, "Derive", s, modL(ref.LEToBig(h[:])))
		s = garbageScalar(t)
		if s.DeriveShort(d) != s {
			t.Fatalf("DeriveShort did not return its receiver")
		}
		sameScalar(t, "DeriveShort", s, ref.LEToBig(h[:16]))
		if !bytes.Equal(d, in) {
			t.Fatalf("Derive changed its input")
		}
		if len(d) == 0 {
			s.Derive(nil)
			sameScalar(t, "Derive(nil)", s, modL(ref.LEToBig(h[:])))
		}
	}})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
