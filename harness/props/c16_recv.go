package props

import (
	"fmt"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// recvOp is an operation that sets its receiver (or an output operand).  draw
// draws the operands and returns a function that performs it over a zero value
// or over junk, and gives the value set.
type recvOp struct {
	name string
	draw func(t *pbt.T) func(junk bool) string
}

func recv[X any](name string, junk func(t *pbt.T) *X, value func(*X) string, draw func(t *pbt.T) func(r *X) interface{}) recvOp {
	return recvOp{name, func(t *pbt.T) func(bool) string {
		run := draw(t)
		j := junk(t)
		return func(dirty bool) string {
			r := new(X)
			if dirty {
				r = j
			}
			if ret, ok := run(r).(*X); ok && ret != r {
				return "another variable than the receiver"
			}
			return value(r)
		}
	}}
}

func junkExt(t *pbt.T) *ed.ExtendedPoint { return ext(garbagePoint(t)) }

func junkNiels(t *pbt.T) *ed.NielsPoint { return niels(t) }

func junkProj(t *pbt.T) *ed.ProjectivePoint {
	return &ed.ProjectivePoint{X: *garbageFe(t), Y: *garbageFe(t), Z: *garbageFe(t)}
}

func junkTable(t *pbt.T) *ed.ScalarMultTable {
	var tab ed.ScalarMultTable
	n := niels(t)
	for i := range tab {
		for j := range tab[i] {
			tab[i][j] = *n
		}
	}
	return &tab
}

func junkJacobi4(t *pbt.T) *[4]ed.JacobiPoint {
	var q [4]ed.JacobiPoint
	for i := range q {
		q[i] = ed.JacobiPoint{S: *garbageFe(t), T: *garbageFe(t)}
	}
	return &q
}

func complVal(c *ed.CompletedPoint) string {
	z, u := feOf(&c.Z), feOf(&c.T)
	if z == ref.Zero || u == ref.Zero {
		return "invalid"
	}
	return ref.Mul(feOf(&c.X), ref.Inv(z)).Hex() + "," + ref.Mul(feOf(&c.Y), ref.Inv(u)).Hex()
}

func tableVal(tab *ed.ScalarMultTable) string {
	s := ""
	for i := range tab {
		for j := range tab[i] {
			s += nielsVal(&tab[i][j]) + ";"
		}
	}
	return s
}

func jacobi4Val(q *[4]ed.JacobiPoint) string {
	s := ""
	for i := range q {
		s += jacobiVal(&q[i]) + ";"
	}
	return s
}

func bytes32Val(b *[32]byte) string { return fmt.Sprintf("%x", b[:]) }
func bytes16Val(b *[16]byte) string { return fmt.Sprintf("%x", b[:]) }

func junk32(t *pbt.T) *[32]byte {
	var b [32]byte
	t.Fill(b[:])
	return &b
}

func junk16(t *pbt.T) *[16]byte {
	var b [16]byte
	t.Fill(b[:])
	return &b
}

func extOf(t *pbt.T) *ed.ExtendedPoint {
	a, _ := gen.Curve(t)
	p, _ := repExact(t, a)
	return p
}

func scalarOp(name string, draw func(t *pbt.T) func(*rist.Scalar) interface{}) recvOp {
	return recv("Scalar."+name, garbageScalar, scalarVal, draw)
}

func pointOp(name string, draw func(t *pbt.T) func(*rist.Point) interface{}) recvOp {
	return recv("Point."+name, garbagePoint, pointVal, draw)
}

func extendedOp(name string, draw func(t *pbt.T) func(*ed.ExtendedPoint) interface{}) recvOp {
	return recv("ExtendedPoint."+name, junkExt, extVal, draw)
}

func completedOp(name string, draw func(t *pbt.T) func(*ed.CompletedPoint) interface{}) recvOp {
	return recv("CompletedPoint."+name, garbageCompleted, complVal, draw)
}

func elementOp(name string, draw func(t *pbt.T) func(*ed.FieldElement) interface{}) recvOp {
	return recv("FieldElement."+name, garbageFe, feVal, draw)
}

func fix[X any](f func(*X) interface{}) func(*pbt.T) func(*X) interface{} {
	return func(*pbt.T) func(*X) interface{} { return f }
}

func anyData(t *pbt.T) []byte {
	b := make([]byte, t.Intn(200))
	t.Fill(b)
	return b
}

func anyScalar(t *pbt.T) *rist.Scalar {
	x, _ := gen.ScalarBig(t)
	return scalarOf(x)
}

func anyPoint(t *pbt.T) *rist.Point {
	_, p, _ := even(t)
	return p
}

var recvOps = []recvOp{
	scalarOp("SetZero", fix(func(s *rist.Scalar) interface{} { return s.SetZero() })),
	scalarOp("SetOne", fix(func(s *rist.Scalar) interface{} { return s.SetOne() })),
	scalarOp("SetUint64", func(t *pbt.T) func(*rist.Scalar) interface{} {
		x := t.Raw() >> uint(t.Intn(64))
		return func(s *rist.Scalar) interface{} { return s.SetUint64(x) }
	}),
	scalarOp("SetBigInt", func(t *pbt.T) func(*rist.Scalar) interface{} {
		x, _ := gen.ScalarBig(t)
		return func(s *rist.Scalar) interface{} { return s.SetBigInt(x) }
	}),
	scalarOp("SetBytes", func(t *pbt.T) func(*rist.Scalar) interface{} {
		x, _ := gen.ScalarBig(t)
		b := ref.BigToLE32(x)
		return func(s *rist.Scalar) interface{} { return s.SetBytes(&b) }
	}),
	scalarOp("SetReduced", func(t *pbt.T) func(*rist.Scalar) interface{} {
		b, _ := gen.Bytes64(t)
		return func(s *rist.Scalar) interface{} { return s.SetReduced(&b) }
	}),
	scalarOp("Derive", func(t *pbt.T) func(*rist.Scalar) interface{} {
		d := anyData(t)
		return func(s *rist.Scalar) interface{} { return s.Derive(d) }
	}),
	scalarOp("DeriveShort", func(t *pbt.T) func(*rist.Scalar) interface{} {
		d := anyData(t)
		return func(s *rist.Scalar) interface{} { return s.DeriveShort(d) }
	}),
	scalarOp("UnmarshalBinary", func(t *pbt.T) func(*rist.Scalar) interface{} {
		b, _ := anyScalar(t).MarshalBinary()
		return func(s *rist.Scalar) interface{} { return s.UnmarshalBinary(b) }
	}),
	scalarOp("UnmarshalText", func(t *pbt.T) func(*rist.Scalar) interface{} {
		b, _ := anyScalar(t).MarshalText()
		return func(s *rist.Scalar) interface{} { return s.UnmarshalText(b) }
	}),
	scalarOp("Inverse", func(t *pbt.T) func(*rist.Scalar) interface{} {
		x := anyScalar(t)
		if x.IsNonZeroI() == 0 {
			x.SetOne()
		}
		return func(s *rist.Scalar) interface{} { return s.Inverse(x) }
	}),
	recv("Scalar.BytesInto", junk32, bytes32Val, func(t *pbt.T) func(*[32]byte) interface{} {
		x := anyScalar(t)
		return func(b *[32]byte) interface{} { x.BytesInto(b); return nil }
	}),

	pointOp("SetZero", fix(func(p *rist.Point) interface{} { return p.SetZero() })),
	pointOp("SetBase", fix(func(p *rist.Point) interface{} { return p.SetBase() })),
	pointOp("SetBytes", func(t *pbt.T) func(*rist.Point) interface{} {
		b := *(*[32]byte)(anyPoint(t).Bytes())
		return func(p *rist.Point) interface{} { return p.SetBytes(&b) }
	}),
	pointOp("UnmarshalBinary", func(t *pbt.T) func(*rist.Point) interface{} {
		b, _ := anyPoint(t).MarshalBinary()
		return func(p *rist.Point) interface{} { return p.UnmarshalBinary(b) }
	}),
	pointOp("UnmarshalText", func(t *pbt.T) func(*rist.Point) interface{} {
		b, _ := anyPoint(t).MarshalText()
		return func(p *rist.Point) interface{} { return p.UnmarshalText(b) }
	}),
	pointOp("SetElligator", func(t *pbt.T) func(*rist.Point) interface{} {
		b, _ := gen.ElligatorBytes(t)
		return func(p *rist.Point) interface{} { return p.SetElligator(&b) }
	}),
	pointOp("SetLizard", func(t *pbt.T) func(*rist.Point) interface{} {
		b := *junk16(t)
		return func(p *rist.Point) interface{} { return p.SetLizard(&b) }
	}),
	pointOp("Derive", func(t *pbt.T) func(*rist.Point) interface{} {
		d := anyData(t)
		return func(p *rist.Point) interface{} { return p.Derive(d) }
	}),
	pointOp("DeriveDalek", func(t *pbt.T) func(*rist.Point) interface{} {
		d := anyData(t)
		return func(p *rist.Point) interface{} { return p.DeriveDalek(d) }
	}),
	pointOp("ScalarMultBase", func(t *pbt.T) func(*rist.Point) interface{} {
		s := anyScalar(t)
		return func(p *rist.Point) interface{} { return p.ScalarMultBase(s) }
	}),
	pointOp("PublicScalarMultBase", func(t *pbt.T) func(*rist.Point) interface{} {
		s := anyScalar(t)
		return func(p *rist.Point) interface{} { return p.PublicScalarMultBase(s) }
	}),
	pointOp("ScalarMult", func(t *pbt.T) func(*rist.Point) interface{} {
		q, s := anyPoint(t), anyScalar(t)
		return func(p *rist.Point) interface{} { return p.ScalarMult(q, s) }
	}),
	pointOp("PublicScalarMult", func(t *pbt.T) func(*rist.Point) interface{} {
		q, s := anyPoint(t), anyScalar(t)
		return func(p *rist.Point) interface{} { return p.PublicScalarMult(q, s) }
	}),
	pointOp("ScalarMultTable", func(t *pbt.T) func(*rist.Point) interface{} {
		s := anyScalar(t)
		return func(p *rist.Point) interface{} { return p.ScalarMultTable(&fixedTable().tab, s) }
	}),
	pointOp("PublicScalarMultTable", func(t *pbt.T) func(*rist.Point) interface{} {
		s := anyScalar(t)
		return func(p *rist.Point) interface{} { return p.PublicScalarMultTable(&fixedTable().tab, s) }
	}),
	recv("Point.BytesInto", junk32, bytes32Val, func(t *pbt.T) func(*[32]byte) interface{} {
		x := anyPoint(t)
		return func(b *[32]byte) interface{} { x.BytesInto(b); return nil }
	}),
	recv("Point.LizardInto", junk16, bytes16Val, func(t *pbt.T) func(*[16]byte) interface{} {
		var x rist.Point
		x.SetLizard(junk16(t))
		return func(b *[16]byte) interface{} { x.LizardInto(b); return nil }
	}),
	recv("ScalarMultTable.Compute", junkTable, tableVal, func(t *pbt.T) func(*ed.ScalarMultTable) interface{} {
		p := extOf(t)
		return func(tab *ed.ScalarMultTable) interface{} { tab.Compute(p); return nil }
	}),

	extendedOp("SetZero", fix(func(p *ed.ExtendedPoint) interface{} { return p.SetZero() })),
	extendedOp("SetBase", fix(func(p *ed.ExtendedPoint) interface{} { return p.SetBase() })),
	extendedOp("SetTorsion1", fix(func(p *ed.ExtendedPoint) interface{} { return p.SetTorsion1() })),
	extendedOp("SetTorsion2", fix(func(p *ed.ExtendedPoint) interface{} { return p.SetTorsion2() })),
	extendedOp("SetTorsion3", fix(func(p *ed.ExtendedPoint) interface{} { return p.SetTorsion3() })),
	extendedOp("SetRistretto", func(t *pbt.T) func(*ed.ExtendedPoint) interface{} {
		b := *(*[32]byte)(anyPoint(t).Bytes())
		return func(p *ed.ExtendedPoint) interface{} { return p.SetRistretto(&b) }
	}),
	extendedOp("SetCompleted", func(t *pbt.T) func(*ed.ExtendedPoint) interface{} {
		var c ed.CompletedPoint
		c.AddExtended(extOf(t), extOf(t))
		return func(p *ed.ExtendedPoint) interface{} { return p.SetCompleted(&c) }
	}),
	extendedOp("ScalarMult", func(t *pbt.T) func(*ed.ExtendedPoint) interface{} {
		q, x := extOf(t), anyScalar(t)
		var b [32]byte
		x.BytesInto(&b)
		return func(p *ed.ExtendedPoint) interface{} { return p.ScalarMult(q, &b) }
	}),
	extendedOp("VarTimeScalarMult", func(t *pbt.T) func(*ed.ExtendedPoint) interface{} {
		q, x := extOf(t), anyScalar(t)
		var b [32]byte
		x.BytesInto(&b)
		return func(p *ed.ExtendedPoint) interface{} { return p.VarTimeScalarMult(q, &b) }
	}),
	recv("ProjectivePoint.SetZero", junkProj, projVal, fix(func(p *ed.ProjectivePoint) interface{} { return p.SetZero() })),
	recv("ProjectivePoint.SetExtended", junkProj, projVal, func(t *pbt.T) func(*ed.ProjectivePoint) interface{} {
		q := extOf(t)
		return func(p *ed.ProjectivePoint) interface{} { return p.SetExtended(q) }
	}),
	recv("ProjectivePoint.SetCompleted", junkProj, projVal, func(t *pbt.T) func(*ed.ProjectivePoint) interface{} {
		var c ed.CompletedPoint
		c.AddExtended(extOf(t), extOf(t))
		return func(p *ed.ProjectivePoint) interface{} { return p.SetCompleted(&c) }
	}),
	completedOp("AddExtended", func(t *pbt.T) func(*ed.CompletedPoint) interface{} {
		q, r := extOf(t), extOf(t)
		return func(p *ed.CompletedPoint) interface{} { return p.AddExtended(q, r) }
	}),
	completedOp("SubExtended", func(t *pbt.T) func(*ed.CompletedPoint) interface{} {
		q, r := extOf(t), extOf(t)
		return func(p *ed.CompletedPoint) interface{} { return p.SubExtended(q, r) }
	}),
	completedOp("DoubleExtended", func(t *pbt.T) func(*ed.CompletedPoint) interface{} {
		q := extOf(t)
		return func(p *ed.CompletedPoint) interface{} { return p.DoubleExtended(q) }
	}),
	completedOp("DoubleProjective", func(t *pbt.T) func(*ed.CompletedPoint) interface{} {
		var q ed.ProjectivePoint
		q.SetExtended(extOf(t))
		return func(p *ed.CompletedPoint) interface{} { return p.DoubleProjective(&q) }
	}),
	completedOp("AddExtendedNiels", func(t *pbt.T) func(*ed.CompletedPoint) interface{} {
		q := extOf(t)
		n := niels(t)
		return func(p *ed.CompletedPoint) interface{} { return p.AddExtendedNiels(q, n) }
	}),
	completedOp("SubExtendedNiels", func(t *pbt.T) func(*ed.CompletedPoint) interface{} {
		q := extOf(t)
		n := niels(t)
		return func(p *ed.CompletedPoint) interface{} { return p.SubExtendedNiels(q, n) }
	}),
	completedOp("SetRistrettoElligator2", func(t *pbt.T) func(*ed.CompletedPoint) interface{} {
		v, _ := gen.Fe(t)
		f := looseFe(t, v)
		return func(p *ed.CompletedPoint) interface{} { return p.SetRistrettoElligator2(f) }
	}),
	recv("NielsPoint.SetZero", junkNiels, nielsVal, fix(func(p *ed.NielsPoint) interface{} { return p.SetZero() })),
	recv("NielsPoint.SetExtended", junkNiels, nielsVal, func(t *pbt.T) func(*ed.NielsPoint) interface{} {
		q := extOf(t)
		return func(p *ed.NielsPoint) interface{} { return p.SetExtended(q) }
	}),
	recv("ExtendedPoint.ToJacobiQuarticRistretto", junkJacobi4, jacobi4Val, func(t *pbt.T) func(*[4]ed.JacobiPoint) interface{} {
		q := ext(anyPoint(t))
		return func(js *[4]ed.JacobiPoint) interface{} { q.ToJacobiQuarticRistretto(js); return nil }
	}),
	recv("ExtendedPoint.RistrettoInto", junk32, bytes32Val, func(t *pbt.T) func(*[32]byte) interface{} {
		q := ext(anyPoint(t))
		return func(b *[32]byte) interface{} { q.RistrettoInto(b); return nil }
	}),

	elementOp("SetZero", fix(func(f *ed.FieldElement) interface{} { return f.SetZero() })),
	elementOp("SetOne", fix(func(f *ed.FieldElement) interface{} { return f.SetOne() })),
	elementOp("SetI", fix(func(f *ed.FieldElement) interface{} { return f.SetI() })),
	elementOp("SetBytes", func(t *pbt.T) func(*ed.FieldElement) interface{} {
		b, _ := gen.Bytes32(t)
		return func(f *ed.FieldElement) interface{} { return f.SetBytes(&b) }
	}),
	elementOp("SetBigInt", func(t *pbt.T) func(*ed.FieldElement) interface{} {
		v, _ := gen.Fe(t)
		return func(f *ed.FieldElement) interface{} { return f.SetBigInt(v.Big()) }
	}),
	recv("FieldElement.BytesInto", junk32, bytes32Val, func(t *pbt.T) func(*[32]byte) interface{} {
		v, _ := gen.Fe(t)
		x := looseFe(t, v)
		return func(b *[32]byte) interface{} { x.BytesInto(b); return nil }
	}),
}

func init() {
	reg("C16", &pbt.Law{Name: "receivers", Rule: "exhaustive over every setter, constructor and output buffer of the package: performed over a zero value and over junk (arbitrary field elements and limbs, invalid points, another table), the value set must be the same and the receiver returned; non-trivial: all", Enum: len(recvOps), Quick: 300 * len(recvOps), Thorough: 10000 * len(recvOps), Run: func(t *pbt.T) {
		o := recvOps[t.Intn(len(recvOps))]
		t.Class(o.name)
		t.NonTrivial()
		run := o.draw(t)
		want := run(false)
		got := run(true)
		t.Note("%s over junk: %s", o.name, got)
		if got != want {
			t.Fatalf("%s over junk sets %s, over a zero value %s", o.name, got, want)
		}
	}})
}
