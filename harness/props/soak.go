package props

import (
	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
)

// A soak repeats one operation on the same operands very often: the result
// must never change, whatever the number of calls the process has made.

type soakOp struct {
	name string
	n    int
	draw func(t *pbt.T) func() (same bool, got, want string)
}

const (
	soakSlow = 70000   // operations of tens of microseconds
	soakFast = 1200000 // operations around a microsecond
)

// soak makes a soakOp of an operation that sets its receiver.
func soak[X comparable](name string, n int, value func(*X) string, draw func(t *pbt.T) func(r *X)) soakOp {
	return soakOp{name, n, func(t *pbt.T) func() (bool, string, string) {
		run := draw(t)
		var first *X
		return func() (bool, string, string) {
			var r X
			run(&r)
			if first == nil {
				c := r
				first = &c
				return true, "", ""
			}
			if r == *first {
				return true, "", ""
			}
			// other representations of the same value are fine
			g, w := value(&r), value(first)
			return g == w, g, w
		}
	}}
}

func boolVal(b *int) string { return string(rune('0' + *b)) }

func soakScalar(name string, n int, f func(r, a, b, c *rist.Scalar)) soakOp {
	return soak("Scalar."+name, n, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
		a, b, c := anyScalar(t), anyScalar(t), anyScalar(t)
		if a.IsNonZeroI() == 0 {
			a.SetOne()
		}
		return func(r *rist.Scalar) { f(r, a, b, c) }
	})
}

func soakPoint(name string, n int, f func(r, a, b *rist.Point, s *rist.Scalar)) soakOp {
	return soak("Point."+name, n, pointVal, func(t *pbt.T) func(*rist.Point) {
		a, b, s := anyPoint(t), anyPoint(t), anyScalar(t)
		return func(r *rist.Point) { f(r, a, b, s) }
	})
}

func soakExt(name string, n int, f func(r, a, b *ed.ExtendedPoint, s *[32]byte)) soakOp {
	return soak("ExtendedPoint."+name, n, extVal, func(t *pbt.T) func(*ed.ExtendedPoint) {
		a, b := extOf(t), extOf(t)
		var s [32]byte
		anyScalar(t).BytesInto(&s)
		return func(r *ed.ExtendedPoint) { f(r, a, b, &s) }
	})
}

func soakFe(name string, n int, f func(r, a, b *ed.FieldElement)) soakOp {
	return soak("FieldElement."+name, n, feVal, func(t *pbt.T) func(*ed.FieldElement) {
		v, _ := gen.Fe(t)
		w, _ := gen.Fe(t)
		a, b := looseFe(t, v), looseFe(t, w)
		return func(r *ed.FieldElement) { f(r, a, b) }
	})
}

func soakInt(name string, n int, draw func(t *pbt.T) func() int) soakOp {
	return soak(name, n, boolVal, func(t *pbt.T) func(*int) {
		f := draw(t)
		return func(r *int) { *r = f() }
	})
}

var soaks = map[string][]soakOp{
	"C01": {
		soakScalar("Add", soakFast, func(r, a, b, c *rist.Scalar) { r.Add(a, b) }),
		soakScalar("Sub", soakFast, func(r, a, b, c *rist.Scalar) { r.Sub(a, b) }),
		soakScalar("Neg", soakFast, func(r, a, b, c *rist.Scalar) { r.Neg(a) }),
		soakScalar("Mul", soakFast, func(r, a, b, c *rist.Scalar) { r.Mul(a, b) }),
		soakScalar("Square", soakFast, func(r, a, b, c *rist.Scalar) { r.Square(a) }),
		soakScalar("MulAdd", soakFast, func(r, a, b, c *rist.Scalar) { r.MulAdd(a, b, c) }),
		soakScalar("MulSub", soakFast, func(r, a, b, c *rist.Scalar) { r.MulSub(a, b, c) }),
		soakScalar("Inverse", soakSlow, func(r, a, b, c *rist.Scalar) { r.Inverse(a) }),
	},
	"C02": {
		soak("Scalar.SetBytes", soakFast, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
			b, _ := gen.Bytes32(t)
			return func(s *rist.Scalar) { s.SetBytes(&b) }
		}),
		soak("Scalar.SetReduced", soakFast, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
			b, _ := gen.Bytes64(t)
			return func(s *rist.Scalar) { s.SetReduced(&b) }
		}),
		soak("Scalar.SetBigInt", soakFast, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
			x, _ := gen.ScalarBig(t)
			return func(s *rist.Scalar) { s.SetBigInt(x) }
		}),
		soak("Scalar.Derive", soakFast, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
			d := anyData(t)
			return func(s *rist.Scalar) { s.Derive(d) }
		}),
		soak("Scalar.DeriveShort", soakFast, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
			d := anyData(t)
			return func(s *rist.Scalar) { s.DeriveShort(d) }
		}),
		soak("Scalar.BytesInto", soakFast, bytes32Val, func(t *pbt.T) func(*[32]byte) {
			x := anyScalar(t)
			return func(b *[32]byte) { x.BytesInto(b) }
		}),
		soak("Scalar.BigInt", soakFast, bytes32Val, func(t *pbt.T) func(*[32]byte) {
			x := anyScalar(t)
			return func(b *[32]byte) { x.BigInt().FillBytes(b[:]) }
		}),
	},
	"C03": {
		soak("Scalar text", soakFast, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
			x := anyScalar(t)
			return func(s *rist.Scalar) {
				b, err := x.MarshalText()
				if err == nil {
					err = s.UnmarshalText(b)
				}
				if err != nil {
					panic(err)
				}
			}
		}),
		soak("Scalar binary", soakFast, scalarVal, func(t *pbt.T) func(*rist.Scalar) {
			x := anyScalar(t)
			return func(s *rist.Scalar) {
				b, err := x.MarshalBinary()
				if err == nil {
					err = s.UnmarshalBinary(b)
				}
				if err != nil {
					panic(err)
				}
			}
		}),
	},
	"C04": {
		soak("Point.SetBytes", soakSlow*2, pointVal, func(t *pbt.T) func(*rist.Point) {
			b := *(*[32]byte)(anyPoint(t).Bytes())
			return func(p *rist.Point) {
				if !p.SetBytes(&b) {
					panic("a valid encoding was refused")
				}
			}
		}),
		soakInt("Point.SetBytes of other bytes", soakSlow*2, func(t *pbt.T) func() int {
			b, _ := gen.Bytes32(t)
			return func() int {
				var p rist.Point
				return b2i(p.SetBytes(&b))
			}
		}),
	},
	"C05": {
		soak("Point.BytesInto", soakSlow*2, bytes32Val, func(t *pbt.T) func(*[32]byte) {
			x := anyPoint(t)
			return func(b *[32]byte) { x.BytesInto(b) }
		}),
		soakInt("Point.Equals", soakFast, func(t *pbt.T) func() int {
			x, y := anyPoint(t), anyPoint(t)
			return func() int { return b2i(x.Equals(y)) + 2*b2i(x.Equals(x)) }
		}),
	},
	"C06": {
		soakPoint("Add", soakFast, func(r, a, b *rist.Point, s *rist.Scalar) { r.Add(a, b) }),
		soakPoint("Sub", soakFast, func(r, a, b *rist.Point, s *rist.Scalar) { r.Sub(a, b) }),
		soakPoint("Double", soakFast, func(r, a, b *rist.Point, s *rist.Scalar) { r.Double(a) }),
		soakPoint("Neg", soakFast, func(r, a, b *rist.Point, s *rist.Scalar) { r.Neg(a) }),
	},
	"C07": {
		soakPoint("ScalarMult", soakSlow, func(r, a, b *rist.Point, s *rist.Scalar) { r.ScalarMult(a, s) }),
		soakPoint("PublicScalarMult", soakSlow, func(r, a, b *rist.Point, s *rist.Scalar) { r.PublicScalarMult(a, s) }),
		soakPoint("ScalarMultBase", soakSlow, func(r, a, b *rist.Point, s *rist.Scalar) { r.ScalarMultBase(s) }),
		soakPoint("PublicScalarMultBase", soakSlow, func(r, a, b *rist.Point, s *rist.Scalar) { r.PublicScalarMultBase(s) }),
		soakPoint("ScalarMultTable", soakSlow, func(r, a, b *rist.Point, s *rist.Scalar) { r.ScalarMultTable(&fixedTable().tab, s) }),
		soakPoint("PublicScalarMultTable", soakSlow, func(r, a, b *rist.Point, s *rist.Scalar) { r.PublicScalarMultTable(&fixedTable().tab, s) }),
	},
	"C08": {
		soakExt("Add", soakFast, func(r, a, b *ed.ExtendedPoint, s *[32]byte) { r.Add(a, b) }),
		soakExt("Sub", soakFast, func(r, a, b *ed.ExtendedPoint, s *[32]byte) { r.Sub(a, b) }),
		soakExt("Double", soakFast, func(r, a, b *ed.ExtendedPoint, s *[32]byte) { r.Double(a) }),
		soakExt("Neg", soakFast, func(r, a, b *ed.ExtendedPoint, s *[32]byte) { r.Neg(a) }),
		soakExt("ScalarMult", soakSlow, func(r, a, b *ed.ExtendedPoint, s *[32]byte) { r.ScalarMult(a, s) }),
		soakExt("VarTimeScalarMult", soakSlow, func(r, a, b *ed.ExtendedPoint, s *[32]byte) { r.VarTimeScalarMult(a, s) }),
		soak("NielsPoint.SetExtended", soakSlow, nielsVal, func(t *pbt.T) func(*ed.NielsPoint) {
			q := extOf(t)
			return func(p *ed.NielsPoint) { p.SetExtended(q) }
		}),
	},
	"C09": {
		soak("Point.SetElligator", soakSlow*2, pointVal, func(t *pbt.T) func(*rist.Point) {
			b, _ := gen.ElligatorBytes(t)
			return func(p *rist.Point) { p.SetElligator(&b) }
		}),
		soak("Point.Derive", soakSlow*2, pointVal, func(t *pbt.T) func(*rist.Point) {
			d := anyData(t)
			return func(p *rist.Point) { p.Derive(d) }
		}),
		soak("Point.DeriveDalek", soakSlow*2, pointVal, func(t *pbt.T) func(*rist.Point) {
			d := anyData(t)
			return func(p *rist.Point) { p.DeriveDalek(d) }
		}),
	},
	"C10": {
		soak("Point.ToJacobiQuarticRistretto", soakSlow, jacobi4Val, func(t *pbt.T) func(*[4]ed.JacobiPoint) {
			q := ext(anyPoint(t))
			return func(js *[4]ed.JacobiPoint) { q.ToJacobiQuarticRistretto(js) }
		}),
	},
	"C11": {
		soak("Lizard", soakSlow, bytes16Val, func(t *pbt.T) func(*[16]byte) {
			d := *junk16(t)
			return func(b *[16]byte) {
				var x rist.Point
				x.SetLizard(&d)
				if err := x.LizardInto(b); err != nil {
					panic(err)
				}
			}
		}),
	},
	"C12": {
		soak("Point text", soakSlow, pointVal, func(t *pbt.T) func(*rist.Point) {
			x := anyPoint(t)
			return func(p *rist.Point) {
				b, err := x.MarshalText()
				if err == nil {
					err = p.UnmarshalText(b)
				}
				if err != nil {
					panic(err)
				}
			}
		}),
		soak("Point binary", soakSlow, pointVal, func(t *pbt.T) func(*rist.Point) {
			x := anyPoint(t)
			return func(p *rist.Point) {
				b, err := x.MarshalBinary()
				if err == nil {
					err = p.UnmarshalBinary(b)
				}
				if err != nil {
					panic(err)
				}
			}
		}),
	},
	"C13": {
		soakFe("Add", soakFast, func(r, a, b *ed.FieldElement) { r.Add(a, b) }),
		soakFe("Sub", soakFast, func(r, a, b *ed.FieldElement) { r.Sub(a, b) }),
		soakFe("Neg", soakFast, func(r, a, b *ed.FieldElement) { r.Neg(a) }),
		soakFe("Mul", soakFast, func(r, a, b *ed.FieldElement) { r.Mul(a, b) }),
		soakFe("Square", soakFast, func(r, a, b *ed.FieldElement) { r.Square(a) }),
		soakFe("DoubledSquare", soakFast, func(r, a, b *ed.FieldElement) { r.DoubledSquare(a) }),
		soak("FieldElement.BytesInto", soakFast, bytes32Val, func(t *pbt.T) func(*[32]byte) {
			v, _ := gen.Fe(t)
			x := looseFe(t, v)
			return func(b *[32]byte) { x.BytesInto(b) }
		}),
	},
	"C14": {
		soakFe("Inverse", soakSlow, func(r, a, b *ed.FieldElement) { r.Inverse(a) }),
		soakFe("Abs", soakFast, func(r, a, b *ed.FieldElement) { r.Abs(a) }),
		soakInt("FieldElement predicates", soakFast, func(t *pbt.T) func() int {
			v, _ := gen.Fe(t)
			w, _ := gen.Fe(t)
			a, b := looseFe(t, v), looseFe(t, w)
			return func() int {
				return int(a.IsNegativeI()) + 2*int(a.IsNonZeroI()) + 4*b2i(a.Equals(b)) + 8*int(a.EqualsI(a)) + 16*int(a.IsOneI())
			}
		}),
	},
	"C20": {
		soakPoint("ConditionalSet", soakFast, func(r, a, b *rist.Point, s *rist.Scalar) {
			r.Set(a)
			r.ConditionalSet(b, 0)
			r.ConditionalSet(a, 1)
		}),
		soakScalar("ConditionalSet", soakFast, func(r, a, b, c *rist.Scalar) {
			r.Set(a)
			r.ConditionalSet(b, 0)
			r.ConditionalSet(c, 1)
		}),
		soakFe("ConditionalSet", soakFast, func(r, a, b *ed.FieldElement) {
			r.Set(a)
			r.ConditionalSet(b, 0)
			r.ConditionalSet(b, 1)
		}),
		soakInt("Scalar.EqualsI", soakFast, func(t *pbt.T) func() int {
			x, y := anyScalar(t), anyScalar(t)
			return func() int { return int(x.EqualsI(y)) + 2*int(x.EqualsI(x)) + 4*int(x.IsNonZeroI()) }
		}),
		soakInt("Point.EqualsI", soakFast, func(t *pbt.T) func() int {
			x, y := anyPoint(t), anyPoint(t)
			return func() int { return int(x.EqualsI(y)) + 2*int(x.EqualsI(x)) }
		}),
	},
}

func init() {
	for prop, ops := range soaks {
		ops := ops
		reg(prop, &pbt.Law{Name: "soak", Rule: "exhaustive over the property's operations: each is repeated on the same generated operands 70000 (slow operations) to 1200000 (fast ones) times in one process; the result may never differ from the first, in value; non-trivial: all", Enum: len(ops), Quick: len(ops), Thorough: 20 * len(ops), Once: true, NoShrink: true,
			Only: func(c string) bool { return c == "default" },
			Run: func(t *pbt.T) {
				o := ops[t.Intn(len(ops))]
				t.Class(o.name)
				t.NonTrivial()
				run := o.draw(t)
				t.Note("%s, %d times", o.name, o.n)
				for i := 0; i <= o.n; i++ {
					if same, got, want := run(); !same {
						t.Fatalf("%s of the same operands gives %s in call %d, %s in the first", o.name, got, i+1, want)
					}
				}
			}})
	}
}
