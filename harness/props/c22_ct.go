package props

import (
	"fmt"
	"math/big"
	"strings"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// ctOp is an operation whose operands are secret.  prep draws operands (pub is
// the public part: lengths) and returns the call; the call returns the class
// of the result as far as it is public anyway (the outcome of a predicate,
// success or failure).
type ctOp struct {
	name string
	prep func(t *pbt.T, pub int) func() int
}

// secrets: mostly extreme against random values.

func ctBig(t *pbt.T) *big.Int {
	switch t.Intn(5) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Sub(ref.L, big.NewInt(1))
	case 2: // few bits
		x := new(big.Int)
		for i := 0; i < 1+t.Intn(3); i++ {
			x.SetBit(x, t.Intn(252), 1)
		}
		return x
	}
	x, _ := gen.ScalarBig(t)
	return x
}

func ctScalar(t *pbt.T) *rist.Scalar {
	x := ctBig(t)
	t.Note("scalar %x", x)
	return scalarOf(x)
}

func ctScalarNZ(t *pbt.T) *rist.Scalar {
	x := ctBig(t)
	if x.Sign() == 0 {
		x.SetInt64(1)
	}
	t.Note("scalar %x", x)
	return scalarOf(x)
}

func ctPoint(t *pbt.T) *rist.Point {
	if t.OneIn(6) {
		p, _ := rep(t, ref.Identity)
		t.Note("identity")
		return p
	}
	_, p, _ := even(t)
	return p
}

func ctFe(t *pbt.T) *ed.FieldElement {
	v, _ := gen.Fe(t)
	t.Note("field element %s", v.Hex())
	return sumFe(t, v)
}

func ctFeNZ(t *pbt.T) *ed.FieldElement {
	v := gen.FeNonZero(t)
	t.Note("field element %s", v.Hex())
	return sumFe(t, v)
}

func ct32(t *pbt.T) *[32]byte {
	b, _ := gen.Bytes32(t)
	t.Note("bytes %x", b)
	return &b
}

func ctData(t *pbt.T, n int) []byte {
	b := make([]byte, n)
	if t.Bool() {
		t.Fill(b)
	} else if t.Bool() {
		for i := range b {
			b[i] = 0xff
		}
	}
	t.Note("data %x", b)
	return b
}

func ctPair(t *pbt.T) (*rist.Scalar, *rist.Scalar) {
	a := ctScalar(t)
	switch t.Intn(3) {
	case 0:
		b := *a
		return a, &b
	case 1:
		b := *a
		b[t.Intn(8)] ^= 1 << uint(t.Intn(28))
		return a, &b
	}
	return a, ctScalar(t)
}

func ctFePair(t *pbt.T) (*ed.FieldElement, *ed.FieldElement) {
	v, _ := gen.Fe(t)
	w, c := closeFe(t, v)
	t.Note("%s, %s (%s)", v.Hex(), w.Hex(), c)
	return sumFe(t, v), sumFe(t, w)
}

func ctNiels(t *pbt.T) *ed.NielsPoint {
	var n ed.NielsPoint
	n.SetExtended(ext(ctPoint(t)))
	return &n
}

func sOp(name string, f func(s, a, b, c *rist.Scalar)) ctOp {
	return ctOp{"Scalar." + name, func(t *pbt.T, _ int) func() int {
		var s rist.Scalar
		x := ctBig(t)
		y, z := ctRelBig(t, x), ctBig(t)
		t.Note("scalars %x, %x, %x", x, y, z)
		a, b, c := scalarOf(x), scalarOf(y), scalarOf(z)
		return func() int { f(&s, a, b, c); return 0 }
	}}
}

func pOp(name string, f func(p, q, r *rist.Point)) ctOp {
	return ctOp{"Point." + name, func(t *pbt.T, _ int) func() int {
		var p rist.Point
		q, r := ctPointPair(t)
		return func() int { f(&p, q, r); return 0 }
	}}
}

func mOp(name string, f func(p, q *rist.Point, s *rist.Scalar)) ctOp {
	return ctOp{"Point." + name, func(t *pbt.T, _ int) func() int {
		var p rist.Point
		q, s := ctPoint(t), ctScalar(t)
		return func() int { f(&p, q, s); return 0 }
	}}
}

func dOp(name string, f func(data []byte)) ctOp {
	return ctOp{name, func(t *pbt.T, pub int) func() int {
		d := ctData(t, pub)
		return func() int { f(d); return 0 }
	}}
}

func fOp(name string, f func(r, a, b *ed.FieldElement)) ctOp {
	return ctOp{"FieldElement." + name, func(t *pbt.T, _ int) func() int {
		var r ed.FieldElement
		a, b := ctFe(t), ctFe(t)
		if t.OneIn(3) {
			v := feOf(a)
			switch t.Intn(3) {
			case 0:
				b = sumFe(t, v)
			case 1:
				b = sumFe(t, ref.Neg(v))
			case 2:
				b = sumFe(t, ref.Inv(v))
			}
			t.Note("and a related one")
		}
		if name == "Add" || name == "Sub" {
			// the sum of sums is outside the range of the limbs
			a, b = libFe(feOf(a)), libFe(feOf(b))
		}
		return func() int { f(&r, a, b); return 0 }
	}}
}

func fPred(name string, f func(a, b *ed.FieldElement) int) ctOp {
	return ctOp{"FieldElement." + name, func(t *pbt.T, _ int) func() int {
		a, b := ctFePair(t)
		return func() int { return f(a, b) }
	}}
}

func eOp(name string, f func(q, r *ed.ExtendedPoint, n *ed.NielsPoint)) ctOp {
	return ctOp{name, func(t *pbt.T, _ int) func() int {
		a, b := ctPointPair(t)
		q, r := ext(a), ext(b)
		var n ed.NielsPoint
		n.SetExtended(r)
		return func() int { f(q, r, &n); return 0 }
	}}
}

var ctSink interface{}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func errCode(err error) int {
	if err == nil {
		return 0
	}
	return 1 + len(err.Error())
}

var ctOps = []ctOp{
	sOp("Add", func(s, a, b, c *rist.Scalar) { s.Add(a, b) }),
	sOp("Sub", func(s, a, b, c *rist.Scalar) { s.Sub(a, b) }),
	sOp("Neg", func(s, a, b, c *rist.Scalar) { s.Neg(a) }),
	sOp("Mul", func(s, a, b, c *rist.Scalar) { s.Mul(a, b) }),
	sOp("Square", func(s, a, b, c *rist.Scalar) { s.Square(a) }),
	sOp("MulAdd", func(s, a, b, c *rist.Scalar) { s.MulAdd(a, b, c) }),
	sOp("MulSub", func(s, a, b, c *rist.Scalar) { s.MulSub(a, b, c) }),
	sOp("Set", func(s, a, b, c *rist.Scalar) { s.Set(a) }),
	sOp("BytesInto", func(s, a, b, c *rist.Scalar) { var x [32]byte; a.BytesInto(&x) }),
	sOp("Bytes", func(s, a, b, c *rist.Scalar) { a.Bytes() }),
	sOp("MarshalBinary", func(s, a, b, c *rist.Scalar) { a.MarshalBinary() }),
	{"Scalar.Inverse", func(t *pbt.T, _ int) func() int {
		var s rist.Scalar
		a := ctScalarNZ(t)
		return func() int { s.Inverse(a); return 0 }
	}},
	{"Scalar.SetBytes", func(t *pbt.T, _ int) func() int {
		var s rist.Scalar
		b := ct32(t)
		return func() int { s.SetBytes(b); return 0 }
	}},
	{"Scalar.SetReduced", func(t *pbt.T, _ int) func() int {
		var s rist.Scalar
		b, _ := gen.Bytes64(t)
		t.Note("bytes %x", b)
		return func() int { s.SetReduced(&b); return 0 }
	}},
	{"Scalar.UnmarshalBinary", func(t *pbt.T, _ int) func() int {
		var s rist.Scalar
		b := ref.BigToLE32(ctBig(t))
		t.Note("bytes %x", b)
		return func() int { return errCode(s.UnmarshalBinary(b[:])) }
	}},
	{"Scalar.SetUint64", func(t *pbt.T, _ int) func() int {
		var s rist.Scalar
		x := t.Raw() >> uint(t.Intn(64))
		t.Note("%d", x)
		return func() int { s.SetUint64(x); return 0 }
	}},
	{"Scalar.ConditionalSet", func(t *pbt.T, _ int) func() int {
		a, b := ctScalar(t), ctScalar(t)
		f := int32(t.Intn(2))
		t.Note("flag %d", f)
		return func() int { a.ConditionalSet(b, f); return 0 }
	}},
	{"Scalar.EqualsI", func(t *pbt.T, _ int) func() int {
		a, b := ctPair(t)
		t.Note("%x %x", *a, *b)
		return func() int { return int(a.EqualsI(b)) }
	}},
	{"Scalar.Equals", func(t *pbt.T, _ int) func() int {
		a, b := ctPair(t)
		t.Note("%x %x", *a, *b)
		return func() int { return b2i(a.Equals(b)) }
	}},
	{"Scalar.IsNonZeroI", func(t *pbt.T, _ int) func() int {
		a := ctScalar(t)
		return func() int { return int(a.IsNonZeroI()) }
	}},
	{"Scalar.SetBytesStrict", func(t *pbt.T, _ int) func() int { // of valid encodings
		var s rist.Scalar
		b := ref.BigToLE32(ctBig(t))
		t.Note("bytes %x", b)
		return func() int { return b2i(s.SetBytesStrict(&b)) }
	}},
	dOp("Scalar.Derive", func(d []byte) { new(rist.Scalar).Derive(d) }),
	dOp("Scalar.DeriveShort", func(d []byte) { new(rist.Scalar).DeriveShort(d) }),

	pOp("Add", func(p, q, r *rist.Point) { p.Add(q, r) }),
	pOp("Sub", func(p, q, r *rist.Point) { p.Sub(q, r) }),
	pOp("Double", func(p, q, r *rist.Point) { p.Double(q) }),
	pOp("Neg", func(p, q, r *rist.Point) { p.Neg(q) }),
	pOp("Set", func(p, q, r *rist.Point) { p.Set(q) }),
	pOp("BytesInto", func(p, q, r *rist.Point) { var b [32]byte; q.BytesInto(&b) }),
	pOp("Bytes", func(p, q, r *rist.Point) { q.Bytes() }),
	pOp("MarshalBinary", func(p, q, r *rist.Point) { q.MarshalBinary() }),
	{"Point.ConditionalSet", func(t *pbt.T, _ int) func() int {
		a, b := ctPoint(t), ctPoint(t)
		f := int32(t.Intn(2))
		t.Note("flag %d", f)
		return func() int { a.ConditionalSet(b, f); return 0 }
	}},
	{"Point.EqualsI", func(t *pbt.T, _ int) func() int {
		a, b := ctPointPair(t)
		return func() int { return int(a.EqualsI(b)) }
	}},
	{"Point.Equals", func(t *pbt.T, _ int) func() int {
		a, b := ctPointPair(t)
		return func() int { return b2i(a.Equals(b)) }
	}},
	mOp("ScalarMult", func(p, q *rist.Point, s *rist.Scalar) { p.ScalarMult(q, s) }),
	mOp("ScalarMultBase", func(p, q *rist.Point, s *rist.Scalar) { p.ScalarMultBase(s) }),
	{"Point.ScalarMultTable", func(t *pbt.T, _ int) func() int {
		var tab rist.ScalarMultTable
		tab.Compute(ctPoint(t))
		s := ctScalar(t)
		var p rist.Point
		return func() int { p.ScalarMultTable(&tab, s); return 0 }
	}},
	{"ScalarMultTable.Compute", func(t *pbt.T, _ int) func() int {
		var tab rist.ScalarMultTable
		p := ctPoint(t)
		return func() int { tab.Compute(p); return 0 }
	}},
	{"Point.SetElligator", func(t *pbt.T, _ int) func() int {
		var p rist.Point
		b, _ := gen.ElligatorBytes(t)
		t.Note("bytes %x", b)
		return func() int { p.SetElligator(&b); return 0 }
	}},
	{"Point.SetBytes", func(t *pbt.T, _ int) func() int { // of valid encodings
		var p rist.Point
		var b [32]byte
		ctPoint(t).BytesInto(&b)
		t.Note("bytes %x", b)
		return func() int { return b2i(p.SetBytes(&b)) }
	}},
	{"Point.UnmarshalBinary", func(t *pbt.T, _ int) func() int { // of valid encodings
		var p rist.Point
		b := ctPoint(t).Bytes()
		t.Note("bytes %x", b)
		return func() int { return errCode(p.UnmarshalBinary(b)) }
	}},
	dOp("Point.Derive", func(d []byte) { new(rist.Point).Derive(d) }),
	dOp("Point.DeriveDalek", func(d []byte) { new(rist.Point).DeriveDalek(d) }),
	{"Point.SetLizard", func(t *pbt.T, _ int) func() int {
		var p rist.Point
		var b [16]byte
		copy(b[:], ctData(t, 16))
		return func() int { p.SetLizard(&b); return 0 }
	}},
	{"Point.LizardInto", func(t *pbt.T, _ int) func() int {
		p := ctLizard(t)
		var out [16]byte
		return func() int { return errCode(p.LizardInto(&out)) }
	}},
	{"Point.Lizard", func(t *pbt.T, _ int) func() int {
		p := ctLizard(t)
		return func() int { return b2i(p.Lizard() != nil) }
	}},

	fOp("Add", func(r, a, b *ed.FieldElement) { r.Add(a, b) }),
	fOp("Sub", func(r, a, b *ed.FieldElement) { r.Sub(a, b) }),
	fOp("Neg", func(r, a, b *ed.FieldElement) { r.Neg(a) }),
	fOp("Mul", func(r, a, b *ed.FieldElement) { r.Mul(a, b) }),
	fOp("Square", func(r, a, b *ed.FieldElement) { r.Square(a) }),
	fOp("DoubledSquare", func(r, a, b *ed.FieldElement) { r.DoubledSquare(a) }),
	fOp("Set", func(r, a, b *ed.FieldElement) { r.Set(a) }),
	fOp("Abs", func(r, a, b *ed.FieldElement) { r.Abs(a) }),
	fOp("Exp22523", func(r, a, b *ed.FieldElement) { r.Exp22523(a) }),
	fOp("Inverse", func(r, a, b *ed.FieldElement) { r.Inverse(a) }),
	fOp("InvSqrt", func(r, a, b *ed.FieldElement) { r.InvSqrt(a) }),
	fOp("Sqrt", func(r, a, b *ed.FieldElement) { r.Sqrt(a) }),
	fOp("Bytes", func(r, a, b *ed.FieldElement) { a.Bytes() }),
	fOp("BytesInto", func(r, a, b *ed.FieldElement) { var x [32]byte; a.BytesInto(&x) }),
	{"FieldElement.SetBytes", func(t *pbt.T, _ int) func() int {
		var r ed.FieldElement
		b := ct32(t)
		return func() int { r.SetBytes(b); return 0 }
	}},
	{"FieldElement.ConditionalSet", func(t *pbt.T, _ int) func() int {
		a, b := ctFePair(t)
		f := int32(t.Intn(2))
		t.Note("flag %d", f)
		return func() int { a.ConditionalSet(b, f); return 0 }
	}},
	fPred("InvSqrtI", func(a, b *ed.FieldElement) int { return int(new(ed.FieldElement).InvSqrtI(a)) }),
	fPred("IsNegativeI", func(a, b *ed.FieldElement) int { return int(a.IsNegativeI()) }),
	fPred("IsNonZeroI", func(a, b *ed.FieldElement) int { return int(a.IsNonZeroI()) }),
	fPred("IsOneI", func(a, b *ed.FieldElement) int { return int(a.IsOneI()) }),
	fPred("EqualsI", func(a, b *ed.FieldElement) int { return int(a.EqualsI(b)) }),
	fPred("Equals", func(a, b *ed.FieldElement) int { return b2i(a.Equals(b)) }),

	{"ExtendedPoint.ScalarMult", func(t *pbt.T, _ int) func() int {
		q := ext(ctPoint(t))
		var p ed.ExtendedPoint
		b := ref.BigToLE32(ctBig(t))
		t.Note("scalar %x", b)
		return func() int { p.ScalarMult(q, &b); return 0 }
	}},
	{"ExtendedPoint.RistrettoElligator2Inverse", func(t *pbt.T, _ int) func() int {
		q := ext(ctPoint(t))
		var fes [8]ed.FieldElement
		return func() int { ctSink = q.RistrettoElligator2Inverse(&fes); return 0 }
	}},
	{"ExtendedPoint.ConditionalSet", func(t *pbt.T, _ int) func() int {
		a, b := ext(ctPoint(t)), ext(ctPoint(t))
		f := int32(t.Intn(2))
		t.Note("flag %d", f)
		return func() int { a.ConditionalSet(b, f); return 0 }
	}},
	{"NielsPoint.ConditionalSet", func(t *pbt.T, _ int) func() int {
		a, b := ctNiels(t), ctNiels(t)
		f := int32(t.Intn(2))
		t.Note("flag %d", f)
		return func() int { a.ConditionalSet(b, f); return 0 }
	}},
	eOp("NielsPoint.Set", func(q, r *ed.ExtendedPoint, n *ed.NielsPoint) { new(ed.NielsPoint).Set(n) }),
	eOp("NielsPoint.SetExtended", func(q, r *ed.ExtendedPoint, n *ed.NielsPoint) { new(ed.NielsPoint).SetExtended(q) }),
	eOp("NielsPoint.Neg", func(q, r *ed.ExtendedPoint, n *ed.NielsPoint) { new(ed.NielsPoint).Neg(n) }),
	eOp("CompletedPoint.AddExtendedNiels", func(q, r *ed.ExtendedPoint, n *ed.NielsPoint) {
		new(ed.ExtendedPoint).SetCompleted(new(ed.CompletedPoint).AddExtendedNiels(q, n))
	}),
	eOp("CompletedPoint.SubExtendedNiels", func(q, r *ed.ExtendedPoint, n *ed.NielsPoint) {
		new(ed.ExtendedPoint).SetCompleted(new(ed.CompletedPoint).SubExtendedNiels(q, n))
	}),
	eOp("CompletedPoint.DoubleProjective", func(q, r *ed.ExtendedPoint, n *ed.NielsPoint) {
		var pp ed.ProjectivePoint
		pp.SetExtended(q)
		new(ed.ExtendedPoint).SetCompleted(new(ed.CompletedPoint).DoubleProjective(&pp))
	}),
}

func ctLizard(t *pbt.T) *rist.Point {
	if t.OneIn(3) {
		return ctPoint(t)
	}
	var b [16]byte
	copy(b[:], ctData(t, 16))
	var q rist.Point
	q.SetLizard(&b)
	a, bad := affOf(ext(&q))
	if bad != "" {
		a = ref.Identity
	}
	p, _ := rep(t, a)
	return p
}

// ctRelBig is often a scalar for which sums and products with x are special.
func ctRelBig(t *pbt.T, x *big.Int) *big.Int {
	y := new(big.Int)
	switch t.Intn(8) {
	case 0:
		return y.Set(x)
	case 1:
		return y.Mod(y.Neg(x), ref.L)
	case 2:
		if x.Sign() != 0 {
			return y.ModInverse(x, ref.L)
		}
	case 3:
		return y.SetInt64(1)
	}
	return ctBig(t)
}

func ctPointPair(t *pbt.T) (*rist.Point, *rist.Point) {
	if t.OneIn(3) {
		return ctPoint(t), ctPoint(t)
	}
	a, p, _ := even(t)
	switch t.Intn(4) {
	case 0, 1:
		q, _ := rep(t, a)
		t.Note("and the same")
		return p, q
	case 2:
		q, _ := rep(t, ref.NegA(a))
		t.Note("and its opposite")
		return p, q
	}
	return p, ctPoint(t)
}

var pubLengths = []int{0, 1, 16, 32, 63, 64, 111, 112, 128, 200}

func init() {
	reg("C22", &pbt.Law{Name: "trace", Rule: "exhaustive over the operations on secrets (scalar, point, table, field, Niels, Elligator, Lizard); the library's sources are instrumented at build time to record every basic block entered, every array, slice and string index used, and how far comparisons that stop early get (bytes.Equal and the like, == on arrays, the length of big integers); each case runs the operation on 2-4 sets of operands (extreme and random scalars, points in random representations, field elements in loose limb forms, flags, equal or nearly equal pairs) of the same public shape (data length) and the sequence of events must be the same for all sets whose public outcome (predicate result, error) is the same; a difference counts only if it follows the operands when both are run again in turn (not the history: a table filled on first use); non-trivial: at least two sets with the same outcome and different operands", Enum: len(ctOps), Quick: 500 * len(ctOps), Thorough: 10000 * len(ctOps),
		Only: func(c string) bool { return strings.Contains(c, "instr") },
		Run: func(t *pbt.T) {
			op := ctOps[t.Intn(len(ctOps))]
			pub := pubLengths[t.Intn(len(pubLengths))]
			n := t.Range(2, 4)
			t.Note("%s, length %d", op.name, pub)
			t.Class(op.name)
			type seen struct {
				sum, count uint64
				i          int
			}
			first := map[int]seen{}
			tapes := make([][]uint64, n)
			for i := 0; i < n; i++ {
				t.Note("set %d", i)
				from := len(t.Tape())
				run := op.prep(t, pub)
				tapes[i] = append([]uint64(nil), t.Tape()[from:]...)
				var class int
				sum, count := traced(func() { class = run() })
				s, ok := first[class]
				if !ok {
					first[class] = seen{sum, count, i}
					continue
				}
				t.NonTrivialIf(fmt.Sprint(tapes[i]) != fmt.Sprint(tapes[s.i]))
				if s.sum != sum || s.count != count {
					again := func(i int) func() int {
						return op.prep(pbt.FromTape(tapes[i], false), pub)
					}
					if !pathsDiffer(again, s.i, i) {
						// what differed is the history (a table
						// filled on first use, a pooled buffer),
						// not the operands
						t.Class("difference does not follow the operands, ignored")
						continue
					}
					ra, rb := again(s.i), again(i)
					ea, eb := recorded(func() { ra() }), recorded(func() { rb() })
					t.Fatalf("%s takes different paths on operand sets %d and %d (outcome %d): %s", op.name, s.i, i, class, traceDiff(ea, eb))
				}
			}
		}})
}

// pathsDiffer repeats two runs in turn and tells whether the path follows the
// operands: each set has one path that it nearly always takes, and they are
// not the same.
func pathsDiffer(again func(i int) func() int, a, b int) bool {
	type path struct{ sum, count uint64 }
	n := map[int]map[path]int{a: {}, b: {}}
	for _, i := range []int{a, b, b, a, a, b, a, b, b, a, a, b, b, a} {
		run := again(i)
		var p path
		p.sum, p.count = traced(func() { run() })
		n[i][p]++
	}
	mode := func(m map[path]int) (best path, k int) {
		for p, c := range m {
			if c > k {
				best, k = p, c
			}
		}
		return
	}
	pa, ka := mode(n[a])
	pb, kb := mode(n[b])
	return ka >= 5 && kb >= 5 && pa != pb
}

func traceDiff(a, b []traceEvent) string {
	for i := 0; ; i++ {
		switch {
		case i >= len(a) && i >= len(b):
			return "the paths agree when run again"
		case i >= len(a):
			return fmt.Sprintf("only the second goes on to %s", siteName(b[i].site))
		case i >= len(b):
			return fmt.Sprintf("only the first goes on to %s", siteName(a[i].site))
		case a[i] != b[i]:
			return fmt.Sprintf("event %d is %s (%d) in the first, %s (%d) in the second (%d and %d events)", i, siteName(a[i].site), a[i].v, siteName(b[i].site), b[i].v, len(a), len(b))
		}
	}
}
