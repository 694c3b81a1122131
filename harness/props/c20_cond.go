package props

import (
	"fmt"
	"math/big"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// extCoords returns the values of the four coordinates.
func extCoords(p *ed.ExtendedPoint) [4]ref.Fe {
	return [4]ref.Fe{feOf(&p.X), feOf(&p.Y), feOf(&p.Z), feOf(&p.T)}
}

func nielsCoords(p *ed.NielsPoint) [3]ref.Fe {
	return [3]ref.Fe{feOf(&p.YPlusX), feOf(&p.YMinusX), feOf(&p.XY2D)}
}

// closeFe returns v itself (possibly other limbs), a value that differs from v
// in one bit or by a multiple of a power of two, its negation, or any other.
func closeFe(t *pbt.T, v ref.Fe) (ref.Fe, string) {
	switch t.Intn(7) {
	case 0, 1:
		return v, "equal"
	case 2, 3:
		b := v.Bytes()
		k := t.Intn(255)
		b[k/8] ^= 1 << uint(k&7)
		return ref.FromBytesMod(b), "one bit"
	case 4:
		x := new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(255)))
		return ref.Add(v, ref.FromBig(x)), "power of two"
	case 5:
		return ref.Neg(v), "negation"
	}
	w, _ := gen.Fe(t)
	return w, "other"
}

func sumFe(t *pbt.T, v ref.Fe) *ed.FieldElement {
	if t.Intn(3) != 0 {
		return looseFe(t, v)
	}
	// a sum or a difference, left as the library leaves it
	w, _ := gen.Fe(t)
	f := new(ed.FieldElement)
	if t.Bool() {
		f.Add(libFe(ref.Sub(v, w)), libFe(w))
	} else {
		f.Sub(libFe(ref.Add(v, w)), libFe(w))
	}
	return f
}

func pred(t *pbt.T, what string, got int32, want bool) {
	w := int32(0)
	if want {
		w = 1
	}
	if got != w {
		t.Fatalf("%s = %d, want %d", what, got, w)
	}
}

func init() {
	rule := "; both flags; destination and source with edge-biased limbs, half of the pairs equal or differing in a single limb or bit; flag 1 must give the source in every coordinate, flag 0 must keep the destination in every coordinate, and the source is never changed; non-trivial: destination and source differ"
	reg("C20", &pbt.Law{Name: "cond-scalar", Rule: "Scalar.ConditionalSet on arbitrary 32-bit limbs" + rule, Quick: 400000, Thorough: 20000000, Run: func(t *pbt.T) {
		draw := func() rist.Scalar {
			b, _ := gen.Bytes32(t)
			var s rist.Scalar
			for i := range s {
				s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
			}
			return s
		}
		d, s := draw(), draw()
		switch t.Intn(4) {
		case 1:
			s = d
			s[t.Intn(8)] ^= 1 << uint(t.Intn(32))
		case 2:
			k := t.Intn(8)
			v := s[k]
			s = d
			s[k] = v
		}
		f := int32(t.Intn(2))
		t.NonTrivialIf(d != s)
		t.Class(fmt.Sprint("flag ", f))
		t.Note("d = %x, s = %x, flag %d", d, s, f)
		d0, s0 := d, s
		d.ConditionalSet(&s, f)
		want := d0
		if f == 1 {
			want = s0
		}
		if d != want || s != s0 {
			t.Fatalf("ConditionalSet(%x, %x, %d) gives %x (source %x)", d0, s0, f, d, s)
		}
	}})
	reg("C20", &pbt.Law{Name: "cond-field", Rule: "FieldElement.ConditionalSet in loose limb forms" + rule, Quick: 300000, Thorough: 15000000, Run: func(t *pbt.T) {
		v, _ := gen.Fe(t)
		w, c := closeFe(t, v)
		d, s := sumFe(t, v), sumFe(t, w)
		f := int32(t.Intn(2))
		t.NonTrivialIf(v != w)
		t.Class(c)
		t.Note("d = %s, s = %s, flag %d", v.Hex(), w.Hex(), f)
		d.ConditionalSet(s, f)
		want := v
		if f == 1 {
			want = w
		}
		if feOf(d) != want || feOf(s) != w {
			t.Fatalf("ConditionalSet(%s, %s, %d) gives %s (source %s)", v.Hex(), w.Hex(), f, feHex(d), feHex(s))
		}
	}})
	reg("C20", &pbt.Law{Name: "cond-point", Rule: "Point, ExtendedPoint and NielsPoint.ConditionalSet, including destinations that are no valid points, and entries of tables" + rule, Quick: 150000, Thorough: 8000000, Run: func(t *pbt.T) {
		f := int32(t.Intn(2))
		t.Class(fmt.Sprint("flag ", f))
		switch k := t.Intn(3); k {
		case 0, 1:
			var d *ed.ExtendedPoint
			if t.OneIn(4) {
				d = ext(garbagePoint(t))
			} else {
				a, _ := gen.Curve(t)
				d, _ = repExact(t, a)
			}
			var s *ed.ExtendedPoint
			if t.OneIn(4) { // differs in one coordinate only
				c := *d
				s = &c
				v, _ := gen.Fe(t)
				setFe([]*ed.FieldElement{&s.X, &s.Y, &s.Z, &s.T}[t.Intn(4)], v)
			} else {
				a, _ := gen.Curve(t)
				s, _ = repExact(t, a)
			}
			d0, s0 := extCoords(d), extCoords(s)
			t.Note("d = %v, s = %v, flag %d", d0, s0, f)
			t.NonTrivialIf(d0 != s0)
			if k == 0 {
				d.ConditionalSet(s, f)
			} else {
				pt(d).ConditionalSet(pt(s), f)
			}
			want := d0
			if f == 1 {
				want = s0
			}
			if got := extCoords(d); got != want {
				t.Fatalf("ConditionalSet(%v, %v, %d) gives %v", d0, s0, f, got)
			}
			if extCoords(s) != s0 {
				t.Fatalf("ConditionalSet changed its source")
			}
		case 2:
			draw := func() *ed.NielsPoint {
				if t.OneIn(3) {
					n := ed.BaseScalarMultTable[t.Intn(32)][t.Intn(8)]
					return &n
				}
				a, _ := gen.Curve(t)
				n := refNiels(a)
				if t.Bool() {
					var m ed.NielsPoint
					m.Neg(n)
					n = &m
				}
				return n
			}
			d, s := draw(), draw()
			if t.OneIn(4) {
				c := *d
				s = &c
				v, _ := gen.Fe(t)
				setFe([]*ed.FieldElement{&s.YPlusX, &s.YMinusX, &s.XY2D}[t.Intn(3)], v)
			}
			d0, s0 := nielsCoords(d), nielsCoords(s)
			t.Note("niels d = %v, s = %v, flag %d", d0, s0, f)
			t.NonTrivialIf(d0 != s0)
			d.ConditionalSet(s, f)
			want := d0
			if f == 1 {
				want = s0
			}
			if got := nielsCoords(d); got != want {
				t.Fatalf("NielsPoint.ConditionalSet(%v, %v, %d) gives %v", d0, s0, f, got)
			}
			if nielsCoords(s) != s0 {
				t.Fatalf("ConditionalSet changed its source")
			}
		}
	}})
	reg("C20", &pbt.Law{Name: "pred-scalar", Rule: "Scalar.EqualsI, Equals, IsNonZeroI on reduced scalars: equal, differing in one bit, by one, by a power of two, mirrored; zero and scalars with one non-zero limb; non-trivial: pair equal or close", Quick: 400000, Thorough: 20000000, Run: func(t *pbt.T) {
		a, _ := gen.ScalarBig(t)
		if t.OneIn(6) {
			a = new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(253)))
			modL(a)
		}
		if t.OneIn(12) {
			a.SetInt64(0)
		}
		b, _ := gen.ScalarBig(t)
		c := "other"
		switch t.Intn(6) {
		case 0, 1:
			b.Set(a)
			c = "equal"
		case 2:
			k := t.Intn(253)
			b.Set(a)
			b.SetBit(b, k, b.Bit(k)^1)
			modL(b)
			c = "one bit"
		case 3:
			b = modL(new(big.Int).Add(a, new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(253)))))
			c = "power of two"
		case 4:
			b = modL(new(big.Int).Neg(a))
			c = "negation"
		}
		t.Class(c)
		t.NonTrivialIf(c != "other")
		t.Note("%x %x", a, b)
		x, y := scalarOf(a), scalarOf(b)
		eq := a.Cmp(b) == 0
		pred(t, "a.EqualsI(b)", x.EqualsI(y), eq)
		pred(t, "b.EqualsI(a)", y.EqualsI(x), eq)
		pred(t, "a.EqualsI(a)", x.EqualsI(x), true)
		if x.Equals(y) != eq || y.Equals(x) != eq || !x.Equals(x) {
			t.Fatalf("Equals(%x, %x) is not %v", a, b, eq)
		}
		pred(t, "a.IsNonZeroI()", x.IsNonZeroI(), a.Sign() != 0)
		pred(t, "b.IsNonZeroI()", y.IsNonZeroI(), b.Sign() != 0)
	}})
	reg("C20", &pbt.Law{Name: "pred-field", Rule: "FieldElement.EqualsI, Equals, IsNonZeroI, IsOneI, IsNegativeI on elements in loose limb forms: equal values in different forms, one bit apart, negations, powers of two; zero, one, p-1 and neighbours; non-trivial: pair equal or close, or the value is 0 or +-1", Quick: 300000, Thorough: 15000000, Run: func(t *pbt.T) {
		v, _ := gen.Fe(t)
		switch t.Intn(8) {
		case 5:
			v = []ref.Fe{ref.Zero, ref.One, ref.MinusOne}[t.Intn(3)]
		case 6:
			v = ref.FromBig(new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(255))))
		case 7:
			v = ref.Add(ref.One, ref.FromBig(new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(255)))))
		}
		w, c := closeFe(t, v)
		t.Class(c)
		t.NonTrivialIf(c != "other" || v == ref.Zero || v == ref.One || v == ref.MinusOne)
		t.Note("%s %s", v.Hex(), w.Hex())
		x, y := sumFe(t, v), sumFe(t, w)
		eq := v == w
		pred(t, "a.EqualsI(b)", x.EqualsI(y), eq)
		pred(t, "b.EqualsI(a)", y.EqualsI(x), eq)
		pred(t, "a.EqualsI(a)", x.EqualsI(x), true)
		if x.Equals(y) != eq || y.Equals(x) != eq || !x.Equals(x) {
			t.Fatalf("Equals(%s, %s) is not %v", v.Hex(), w.Hex(), eq)
		}
		pred(t, "IsNonZeroI", x.IsNonZeroI(), v != ref.Zero)
		pred(t, "IsOneI", x.IsOneI(), v == ref.One)
		pred(t, "IsNegativeI", x.IsNegativeI(), ref.IsNeg(v))
		if feOf(x) != v || feOf(y) != w {
			t.Fatalf("a predicate changed its operand")
		}
	}})
	reg("C20", &pbt.Law{Name: "pred-point", Rule: "Point.EqualsI, Equals and ExtendedPoint.RistrettoEqualsI on pairs: the same element in other representations, negations, neighbours (plus base, plus a small multiple), the identity; reflexive and symmetric; non-trivial: equal or related pairs", Quick: 100000, Thorough: 5000000, Run: func(t *pbt.T) {
		a, p, _ := even(t)
		b, q, _ := even(t)
		c := "other"
		switch t.Intn(6) {
		case 0, 1:
			b = a
			q, _ = rep(t, b)
			c = "equal"
		case 2:
			b = ref.NegA(a)
			q, _ = rep(t, b)
			c = "negation"
		case 3:
			b = ref.AddA(a, gen.MulBase(big.NewInt(int64(t.Range(1, 9)))))
			q, _ = rep(t, b)
			c = "neighbour"
		}
		t.Class(c)
		t.NonTrivialIf(c != "other")
		eq := ref.Equal(a, b)
		t.Note("%s %s equal: %v", encHex(a), encHex(b), eq)
		pred(t, "a.EqualsI(b)", p.EqualsI(q), eq)
		pred(t, "b.EqualsI(a)", q.EqualsI(p), eq)
		pred(t, "a.EqualsI(a)", p.EqualsI(p), true)
		pred(t, "a.RistrettoEqualsI(b)", ext(p).RistrettoEqualsI(ext(q)), eq)
		if p.Equals(q) != eq || q.Equals(p) != eq || !p.Equals(p) {
			t.Fatalf("Equals is not %v", eq)
		}
	}})
}
