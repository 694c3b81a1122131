// Package props holds the laws: each property is decided by one or more laws
// run on generated cases against the library under test.
package props

import (
	"encoding/hex"
	"math/big"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// --- conversions between the model and the library (exported API only) ---

func setFe(f *ed.FieldElement, v ref.Fe) *ed.FieldElement {
	b := v.Bytes()
	f.SetBytes(&b)
	return f
}

func libFe(v ref.Fe) *ed.FieldElement { return setFe(new(ed.FieldElement), v) }

// feOf returns the canonical value of f; it works on a copy so that the
// harness itself never touches the operand.
func feOf(f *ed.FieldElement) ref.Fe {
	c := *f
	b := c.Bytes()
	return ref.FromBytesMod(b)
}

func feHex(f *ed.FieldElement) string { c := *f; b := c.Bytes(); return hex.EncodeToString(b[:]) }

// canonical reports whether f encodes to a canonical byte string.
func feCanonical(f *ed.FieldElement) bool {
	c := *f
	b := c.Bytes()
	return ref.FromBytesMod(b).Bytes() == b
}

// libExt builds an extended point for a with projective factor z.
func libExt(a ref.Aff, z ref.Fe) *ed.ExtendedPoint {
	var p ed.ExtendedPoint
	setFe(&p.X, ref.Mul(a.X, z))
	setFe(&p.Y, ref.Mul(a.Y, z))
	setFe(&p.Z, z)
	setFe(&p.T, ref.Mul(ref.Mul(a.X, a.Y), z))
	return &p
}

// affOf reads an extended point, checking its validity.
func affOf(p *ed.ExtendedPoint) (ref.Aff, string) {
	x, y, z, t := feOf(&p.X), feOf(&p.Y), feOf(&p.Z), feOf(&p.T)
	if z == ref.Zero {
		return ref.Aff{}, "Z = 0"
	}
	if ref.Mul(x, y) != ref.Mul(z, t) {
		return ref.Aff{}, "X*Y != Z*T"
	}
	zi := ref.Inv(z)
	a := ref.Aff{X: ref.Mul(x, zi), Y: ref.Mul(y, zi)}
	if !ref.OnCurve(a) {
		return a, "not on the curve"
	}
	return a, ""
}

func ext(p *rist.Point) *ed.ExtendedPoint { return (*ed.ExtendedPoint)(p) }
func pt(p *ed.ExtendedPoint) *rist.Point  { return (*rist.Point)(p) }

// scalarOf builds the library scalar for 0 <= x < l without using the
// library's reduction.
func scalarOf(x *big.Int) *rist.Scalar {
	b := ref.BigToLE32(x)
	var s rist.Scalar
	for i := range s {
		s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return &s
}

// bigOf reads a scalar's limbs directly.
func bigOf(s *rist.Scalar) *big.Int {
	x := new(big.Int)
	for i := 7; i >= 0; i-- {
		x.Lsh(x, 32)
		x.Or(x, new(big.Int).SetUint64(uint64(s[i])))
	}
	return x
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func affStr(a ref.Aff) string { return "(" + a.X.Hex() + ", " + a.Y.Hex() + ")" }

// --- representations ---

// rep builds a library point for the even point a in a random internal
// representation: any of the four representatives, any projective factor, and
// possibly limbs that are not normalised (the result of a negation).
func rep(t *pbt.T, a ref.Aff) (*rist.Point, string) {
	c := ""
	if k := t.Intn(6); k >= 1 && k < 4 {
		a = ref.AddA(a, ref.Tors[2*k])
		c += "coset "
	}
	p, c2 := repExact(t, a)
	return pt(p), c + c2
}

// repExact builds an extended point for exactly the curve point a.
func repExact(t *pbt.T, a ref.Aff) (*ed.ExtendedPoint, string) {
	z := ref.One
	c := "Z=1"
	if t.Intn(3) != 0 {
		z = gen.FeNonZero(t)
		c = "scaled"
	}
	p := libExt(a, z)
	switch t.Intn(5) {
	case 1: // all coordinates through a double negation: unnormalised limbs
		for _, f := range []*ed.FieldElement{&p.X, &p.Y, &p.Z, &p.T} {
			var n ed.FieldElement
			n.Neg(f)
			f.Neg(&n)
		}
		c += " negneg"
	case 2: // -X,-Y,-Z,-T is the same point
		for _, f := range []*ed.FieldElement{&p.X, &p.Y, &p.Z, &p.T} {
			v := ref.Neg(feOf(f))
			setFe(f, v)
			var n ed.FieldElement
			n.Neg(f)
			*f = n
		}
		c += " neg"
	case 3: // X and T as produced by negating the opposite point
		setFe(&p.X, ref.Neg(feOf(&p.X)))
		setFe(&p.T, ref.Neg(feOf(&p.T)))
		var n ed.FieldElement
		n.Neg(&p.X)
		p.X = n
		var m ed.FieldElement
		m.Neg(&p.T)
		p.T = m
		c += " negXT"
	}
	return p, c
}

// even draws a group element in a random representation.
func even(t *pbt.T) (ref.Aff, *rist.Point, string) {
	a, c := gen.Even(t)
	p, c2 := rep(t, a)
	t.Note("point %s [%s; %s]", encHex(a), c, c2)
	return a, p, c
}

func encHex(a ref.Aff) string { b := ref.Encode(a); return hx(b[:]) }

// garbage fills p with arbitrary limbs (previous receiver contents).
func garbagePoint(t *pbt.T) *rist.Point {
	var p rist.Point
	e := ext(&p)
	switch t.Intn(4) {
	case 0: // zero value
	case 1:
		for _, f := range []*ed.FieldElement{&e.X, &e.Y, &e.Z, &e.T} {
			b, _ := gen.Bytes32(t)
			f.SetBytes(&b)
		}
	case 2: // left behind by a failed decode
		b := ref.MinusOne.Bytes()
		p.SetBytes(&b)
	default:
		a, _ := gen.Even(t)
		p = *pt(libExt(a, ref.One))
	}
	return &p
}

func garbageScalar(t *pbt.T) *rist.Scalar {
	var s rist.Scalar
	for i := range s {
		s[i] = uint32(t.Raw())
	}
	return &s
}

// samePoint checks that p is a valid representation of the group element want.
func samePoint(t *pbt.T, what string, p *rist.Point, want ref.Aff) {
	got, bad := affOf(ext(p))
	if bad != "" {
		t.Fatalf("%s: invalid point: %s", what, bad)
	}
	if !ref.Equal(got, want) {
		if !ref.IsEvenFast(got) {
			t.Fatalf("%s: result is not an even point", what)
		}
		t.Fatalf("%s = %s, want %s", what, encHex(got), encHex(want))
	}
}

// exactPoint checks that p is exactly the curve point want.
func exactPoint(t *pbt.T, what string, p *ed.ExtendedPoint, want ref.Aff) {
	got, bad := affOf(p)
	if bad != "" {
		t.Fatalf("%s: invalid point: %s", what, bad)
	}
	if got != want {
		t.Fatalf("%s = %s, want %s", what, affStr(got), affStr(want))
	}
}

func sameScalar(t *pbt.T, what string, s *rist.Scalar, want *big.Int) {
	if bigOf(s).Cmp(want) != 0 {
		t.Fatalf("%s = %x, want %x", what, bigOf(s), want)
	}
}

func modL(x *big.Int) *big.Int { return x.Mod(x, ref.L) }

func reg(prop string, l *pbt.Law) { pbt.Reg(prop, l) }
