// Package crefgo holds the laws about the Go interface of the C reference.
package crefgo

import (
	"fmt"
	"math/big"

	"github.com/bwesterb/go-ristretto/cref"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// Receivers are not empty when they are set.
func junkFe() (f cref.Fe25519) {
	b := ref.Base.Y.Bytes()
	f.Unpack(&b)
	return
}

func junkGe() (g cref.GroupGe) {
	*g.X(), *g.Y(), *g.Z(), *g.T() = junkFe(), junkFe(), junkFe(), junkFe()
	return
}

func junkBytes() (b [32]byte) {
	for i := range b {
		b[i] = 0xa5
	}
	return
}

func fe(v ref.Fe) *cref.Fe25519 {
	b := v.Bytes()
	f := junkFe()
	f.Unpack(&b)
	return &f
}

func feOf(f *cref.Fe25519) ref.Fe {
	b := junkBytes()
	c := *f
	c.Pack(&b)
	return ref.FromBytesMod(b)
}

// ge builds a reference point for the even curve point a in a random
// representation.
func ge(t *pbt.T, a ref.Aff) *cref.GroupGe {
	a = ref.AddA(a, ref.Tors[2*t.Intn(4)])
	z := ref.One
	if t.Bool() {
		z = gen.Z(t)
	}
	var g cref.GroupGe
	*g.X() = *fe(ref.Mul(a.X, z))
	*g.Y() = *fe(ref.Mul(a.Y, z))
	*g.Z() = *fe(z)
	*g.T() = *fe(ref.Mul(ref.Mul(a.X, a.Y), z))
	return &g
}

// same checks that g represents want.
func same(t *pbt.T, what string, g *cref.GroupGe, want ref.Aff) {
	x, y, z, tt := feOf(g.X()), feOf(g.Y()), feOf(g.Z()), feOf(g.T())
	if z == ref.Zero {
		t.Fatalf("%s: Z = 0", what)
	}
	zi := ref.Inv(z)
	a := ref.Aff{X: ref.Mul(x, zi), Y: ref.Mul(y, zi)}
	if !ref.OnCurve(a) || !ref.IsEvenFast(a) {
		t.Fatalf("%s: not a valid point: (%s, %s)", what, a.X.Hex(), a.Y.Hex())
	}
	if ref.Mul(tt, z) != ref.Mul(x, y) {
		t.Fatalf("%s: T Z != X Y", what)
	}
	if !ref.Equal(a, want) {
		t.Fatalf("%s: got (%s, %s), want (%s, %s)", what, a.X.Hex(), a.Y.Hex(), want.X.Hex(), want.Y.Hex())
	}
	b := junkBytes()
	g.Pack(&b)
	if e := ref.Encode(want); b != e {
		t.Fatalf("%s: encoded %x, want %x", what, b, e)
	}
}

func scalar(x *big.Int) *cref.GroupScalar {
	b := ref.BigToLE32(x)
	var s cref.GroupScalar
	full := junkBytes()
	full[31] = 0x0f
	s.Unpack(&full)
	s.Unpack(&b)
	return &s
}

func init() {
	pbt.Reg("C18", &pbt.Law{Name: "go-field", Rule: "Fe25519.Unpack then Pack of edge-biased 32-byte strings is the value of the low 255 bits modulo p; non-trivial: value not below 2^255-19 or top bit set or special", Quick: 200000, Thorough: 20000000, Run: func(t *pbt.T) {
		b, c := gen.Bytes32(t)
		t.Class(c)
		t.Note("%x", b)
		in := b
		f := junkFe()
		f.Unpack(&in)
		if in != b {
			t.Fatalf("Unpack changed its argument")
		}
		want := ref.FromBytesMod(b)
		wb := want.Bytes()
		t.NonTrivialIf(wb != b)
		out := junkBytes()
		f.Pack(&out)
		if out != wb {
			t.Fatalf("Unpack/Pack of %x gives %x, want %x", b, out, wb)
		}
	}})
	pbt.Reg("C18", &pbt.Law{Name: "go-pack", Rule: "GroupGe.Pack of an even point in a random representation (four representatives, projective factor) is its RFC 9496 encoding, and unpacking that encoding returns 0 and the point; non-trivial: Z != 1 or a special point", Quick: 60000, Thorough: 4000000, Run: func(t *pbt.T) {
		a, c := gen.Even(t)
		t.NonTrivial()
		t.Class(c)
		g := ge(t, a)
		e := ref.Encode(a)
		t.Note("%x", e)
		b := junkBytes()
		g.Pack(&b)
		if b != e {
			t.Fatalf("Pack gives %x, want %x", b, e)
		}
		h := junkGe()
		if r := h.Unpack(&b); r != 0 {
			t.Fatalf("Unpack of the valid encoding %x returns %d", e, r)
		}
		same(t, "Unpack", &h, a)
	}})
	pbt.Reg("C18", &pbt.Law{Name: "go-unpack", Rule: "GroupGe.Unpack of canonical field elements (edge biased) accepts exactly the valid encodings of RFC 9496; non-trivial: non-negative element", Quick: 60000, Thorough: 4000000, Run: func(t *pbt.T) {
		v, c := gen.Fe(t)
		t.Class(c)
		t.NonTrivialIf(!ref.IsNeg(v))
		b := v.Bytes()
		t.Note("%x", b)
		want, ok := ref.Decode(b)
		g := junkGe()
		r := g.Unpack(&b)
		if (r == 0) != ok {
			t.Fatalf("Unpack of %x returns %d, valid: %v", b, r, ok)
		}
		if ok {
			same(t, "Unpack", &g, want)
		}
	}})
	pbt.Reg("C18", &pbt.Law{Name: "go-group", Rule: "Add, Double and Neg of pairs of points (edge biased, equal or opposite one time in four, random representations) against the affine model; non-trivial: all", Quick: 40000, Thorough: 3000000, Run: func(t *pbt.T) {
		a, c := gen.Even(t)
		b, _ := gen.Even(t)
		switch t.Intn(8) {
		case 6:
			b = a
		case 7:
			b = ref.NegA(a)
		}
		t.Class(c)
		t.NonTrivial()
		t.Note("a = %x, b = %x", ref.Encode(a), ref.Encode(b))
		x, y := ge(t, a), ge(t, b)
		r := junkGe()
		r.Add(x, y)
		same(t, "Add", &r, ref.AddA(a, b))
		r.Double(x)
		same(t, "Double", &r, ref.DoubleA(a))
		r.Neg(x)
		same(t, "Neg", &r, ref.NegA(a))
		r = *x
		r.Add(&r, y)
		same(t, "Add in place", &r, ref.AddA(a, b))
		r = *x
		r.Double(&r)
		same(t, "Double in place", &r, ref.DoubleA(a))
		r = *x
		r.Neg(&r)
		same(t, "Neg in place", &r, ref.NegA(a))
		same(t, "first operand afterwards", x, a)
		same(t, "second operand afterwards", y, b)
	}})
	pbt.Reg("C18", &pbt.Law{Name: "go-scalarmult", Rule: "ScalarMult of edge-biased points and scalars below l against the model; non-trivial: scalar > 1", Quick: 12000, Thorough: 1200000, Run: func(t *pbt.T) {
		a, _ := gen.Even(t)
		k, c := gen.ScalarBig(t)
		t.Class(c)
		t.NonTrivialIf(k.Cmp(big.NewInt(1)) > 0)
		t.Note("a = %x, k = %x", ref.Encode(a), k)
		r := junkGe()
		r.ScalarMult(ge(t, a), scalar(k))
		same(t, "ScalarMult", &r, ref.MulA(a, k))
	}})
	pbt.Reg("C18", &pbt.Law{Name: "go-scalar", Rule: "GroupScalar.Unpack then Pack of numbers below 2^253 is the number modulo l; non-trivial: at least l, or within 2^64 of 0 or l", Quick: 200000, Thorough: 20000000, Run: func(t *pbt.T) {
		x, c := gen.Big256(t)
		x.SetBit(x, 255, 0)
		x.SetBit(x, 254, 0)
		x.SetBit(x, 253, 0)
		if t.OneIn(3) {
			x, c = gen.ScalarBig(t)
		}
		t.Class(c)
		t.Note("%x", x)
		t.NonTrivialIf(x.Cmp(ref.L) >= 0 || c != "uniform")
		b := junkBytes()
		scalar(x).Pack(&b)
		if got, want := ref.LEToBig(b[:]), new(big.Int).Mod(x, ref.L); got.Cmp(want) != 0 {
			t.Fatalf("Unpack/Pack of %x gives %x, want %x", x, got, want)
		}
	}})
	pbt.Reg("C18", &pbt.Law{Name: "go-elligator", Rule: "Elligator of edge-biased and exceptional field elements is the point of the RFC 9496 MAP; non-trivial: all", Quick: 50000, Thorough: 4000000, Run: func(t *pbt.T) {
		b, c := gen.ElligatorBytes(t)
		t.Class(c)
		t.NonTrivial()
		t.Note("%x", b)
		f := junkFe()
		f.Unpack(&b)
		g := junkGe()
		g.Elligator(&f)
		same(t, fmt.Sprintf("Elligator of %x", b), &g, ref.MapBytes(b))
	}})
}
