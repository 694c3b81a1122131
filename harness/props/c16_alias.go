package props

import (
	"bytes"
	"fmt"
	"math/big"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// Aliasing is tested the same way for every type: an operation takes a
// receiver and up to three operands.  A case chooses values for the operands
// and which of the four are the same variable.  The expected result is that
// of the operation on four distinct variables with the same values.

type aliasOp[X any] struct {
	name string
	n    int // operands
	run  func(r, a, b, c *X) interface{}
	skip func(vals []string) bool
}

func aliasCase[X any](t *pbt.T, kind string, ops []aliasOp[X], draw func() *X, garbage func() *X, value func(*X) string) {
	o := ops[t.Intn(len(ops))]
	t.Class(kind + "." + o.name)
	// which operands share a variable: part[i] is the variable of operand i
	part := [3]int{}
	nv := 0
	for i := 0; i < o.n; i++ {
		part[i] = t.Intn(nv + 1)
		if part[i] == nv {
			nv++
		}
	}
	recv := t.Intn(nv + 1) // nv: a variable of its own
	vars := make([]*X, nv)
	vals := make([]string, nv)
	for i := range vars {
		vars[i] = draw()
		vals[i] = value(vars[i])
	}
	// two variables with equal values, but distinct
	if nv >= 2 && t.OneIn(4) {
		c := *vars[0]
		vars[1] = &c
		vals[1] = vals[0]
	}
	desc := fmt.Sprintf("%s.%s receiver=v%d operands=%v", kind, o.name, recv, part[:o.n])
	t.Note("%s values %v", desc, vals)
	if o.skip != nil {
		var vs []string
		for i := 0; i < o.n; i++ {
			vs = append(vs, vals[part[i]])
		}
		if o.skip(vs) {
			return
		}
	}
	t.NonTrivialIf(recv < nv || nv < o.n)
	if recv < nv {
		t.Class("receiver aliased")
	}
	// expected
	var d [3]*X
	for i := 0; i < 3; i++ {
		d[i] = new(X)
		if i < o.n {
			*d[i] = *vars[part[i]]
		}
	}
	clean := new(X)
	o.run(clean, d[0], d[1], d[2])
	want := value(clean)
	// aliased, over garbage if the receiver is not an operand
	var r *X
	if recv < nv {
		r = vars[recv]
	} else {
		r = garbage()
	}
	var a [3]*X
	for i := 0; i < 3; i++ {
		a[i] = new(X)
		if i < o.n {
			a[i] = vars[part[i]]
		}
	}
	ret := o.run(r, a[0], a[1], a[2])
	if p, ok := ret.(*X); ok && p != r {
		t.Fatalf("%s did not return its receiver", desc)
	}
	if got := value(r); got != want {
		t.Fatalf("%s = %s, but with distinct variables %s", desc, got, want)
	}
	for i := range vars {
		if vars[i] != r && value(vars[i]) != vals[i] {
			t.Fatalf("%s changed operand v%d from %s to %s", desc, i, vals[i], value(vars[i]))
		}
	}
}

// --- values ---

func scalarVal(s *rist.Scalar) string { return bigOf(s).Text(16) }

func pointVal(p *rist.Point) string {
	a, bad := affOf(ext(p))
	if bad != "" {
		return "invalid: " + bad
	}
	return encHex(a)
}

func extVal(p *ed.ExtendedPoint) string {
	a, bad := affOf(p)
	if bad != "" {
		return "invalid: " + bad
	}
	return affStr(a)
}

func feVal(f *ed.FieldElement) string { return feOf(f).Hex() }

func nielsVal(n *ed.NielsPoint) string {
	return feHex(&n.YPlusX) + "," + feHex(&n.YMinusX) + "," + feHex(&n.XY2D)
}

func jacobiVal(j *ed.JacobiPoint) string { return feHex(&j.S) + "," + feHex(&j.T) }

func projVal(p *ed.ProjectivePoint) string {
	z := feOf(&p.Z)
	if z == ref.Zero {
		return "invalid"
	}
	zi := ref.Inv(z)
	return ref.Mul(feOf(&p.X), zi).Hex() + "," + ref.Mul(feOf(&p.Y), zi).Hex()
}

var scalarOps = []aliasOp[rist.Scalar]{
	{"Add", 2, func(r, a, b, c *rist.Scalar) interface{} { return r.Add(a, b) }, nil},
	{"Sub", 2, func(r, a, b, c *rist.Scalar) interface{} { return r.Sub(a, b) }, nil},
	{"Mul", 2, func(r, a, b, c *rist.Scalar) interface{} { return r.Mul(a, b) }, nil},
	{"Neg", 1, func(r, a, b, c *rist.Scalar) interface{} { return r.Neg(a) }, nil},
	{"Square", 1, func(r, a, b, c *rist.Scalar) interface{} { return r.Square(a) }, nil},
	{"MulAdd", 3, func(r, a, b, c *rist.Scalar) interface{} { return r.MulAdd(a, b, c) }, nil},
	{"MulSub", 3, func(r, a, b, c *rist.Scalar) interface{} { return r.MulSub(a, b, c) }, nil},
	{"Inverse", 1, func(r, a, b, c *rist.Scalar) interface{} { return r.Inverse(a) }, func(v []string) bool { return v[0] == "0" }},
	{"Set", 1, func(r, a, b, c *rist.Scalar) interface{} { return r.Set(a) }, nil},
	{"Sub-self", 1, func(r, a, b, c *rist.Scalar) interface{} { return r.Sub(a, a) }, nil},
	{"ConditionalSet1", 1, func(r, a, b, c *rist.Scalar) interface{} { r.ConditionalSet(a, 1); return nil }, nil},
}

var pointOps = []aliasOp[rist.Point]{
	{"Add", 2, func(r, a, b, c *rist.Point) interface{} { return r.Add(a, b) }, nil},
	{"Sub", 2, func(r, a, b, c *rist.Point) interface{} { return r.Sub(a, b) }, nil},
	{"Double", 1, func(r, a, b, c *rist.Point) interface{} { return r.Double(a) }, nil},
	{"Neg", 1, func(r, a, b, c *rist.Point) interface{} { return r.Neg(a) }, nil},
	{"Set", 1, func(r, a, b, c *rist.Point) interface{} { return r.Set(a) }, nil},
	{"ConditionalSet1", 1, func(r, a, b, c *rist.Point) interface{} { r.ConditionalSet(a, 1); return nil }, nil},
}

var extOps = []aliasOp[ed.ExtendedPoint]{
	{"Add", 2, func(r, a, b, c *ed.ExtendedPoint) interface{} { return r.Add(a, b) }, nil},
	{"Sub", 2, func(r, a, b, c *ed.ExtendedPoint) interface{} { return r.Sub(a, b) }, nil},
	{"Double", 1, func(r, a, b, c *ed.ExtendedPoint) interface{} { return r.Double(a) }, nil},
	{"Neg", 1, func(r, a, b, c *ed.ExtendedPoint) interface{} { return r.Neg(a) }, nil},
	{"Set", 1, func(r, a, b, c *ed.ExtendedPoint) interface{} { return r.Set(a) }, nil},
	{"ConditionalSet", 1, func(r, a, b, c *ed.ExtendedPoint) interface{} { return r.ConditionalSet(a, 1) }, nil},
	{"AddExtended", 2, func(r, a, b, c *ed.ExtendedPoint) interface{} {
		var cp ed.CompletedPoint
		cp.AddExtended(a, b)
		return r.SetCompleted(&cp)
	}, nil},
	{"DoubleProjective", 1, func(r, a, b, c *ed.ExtendedPoint) interface{} {
		var cp ed.CompletedPoint
		var pp ed.ProjectivePoint
		pp.SetExtended(a)
		cp.DoubleProjective(&pp)
		return r.SetCompleted(&cp)
	}, nil},
	{"AddNiels", 2, func(r, a, b, c *ed.ExtendedPoint) interface{} {
		var cp ed.CompletedPoint
		var n ed.NielsPoint
		n.SetExtended(b)
		cp.AddExtendedNiels(a, &n)
		return r.SetCompleted(&cp)
	}, nil},
	{"SubNiels", 2, func(r, a, b, c *ed.ExtendedPoint) interface{} {
		var cp ed.CompletedPoint
		var n ed.NielsPoint
		n.SetExtended(b)
		cp.SubExtendedNiels(a, &n)
		return r.SetCompleted(&cp)
	}, nil},
}

var isZeroHex = ref.Zero.Hex()

var feOps = []aliasOp[ed.FieldElement]{
	{"Add", 2, func(r, a, b, c *ed.FieldElement) interface{} { return r.Add(a, b) }, nil},
	{"Sub", 2, func(r, a, b, c *ed.FieldElement) interface{} { return r.Sub(a, b) }, nil},
	{"Mul", 2, func(r, a, b, c *ed.FieldElement) interface{} { return r.Mul(a, b) }, nil},
	{"Square", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.Square(a) }, nil},
	{"DoubledSquare", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.DoubledSquare(a) }, nil},
	{"Neg", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.Neg(a) }, nil},
	{"Set", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.Set(a) }, nil},
	{"Abs", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.Abs(a) }, nil},
	{"Inverse", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.Inverse(a) }, func(v []string) bool { return v[0] == isZeroHex }},
	{"Exp22523", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.Exp22523(a) }, nil},
	// of a square; the sign is the library's choice but the same each time
	{"Sqrt", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.Sqrt(a) }, nonSquare},
	{"InvSqrt", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.InvSqrt(a) }, func(v []string) bool { return v[0] == isZeroHex || nonSquare(v) }},
	{"InvSqrtI", 1, func(r, a, b, c *ed.FieldElement) interface{} { r.InvSqrtI(a); return nil }, func(v []string) bool { return v[0] == isZeroHex }},
	{"ConditionalSet1", 1, func(r, a, b, c *ed.FieldElement) interface{} { r.ConditionalSet(a, 1); return nil }, nil},
	{"SetBigInt", 1, func(r, a, b, c *ed.FieldElement) interface{} { return r.SetBigInt(a.BigInt()) }, nil},
}

func nonSquare(v []string) bool {
	x, _ := new(big.Int).SetString(v[0], 16)
	b := x.FillBytes(make([]byte, 32))
	var a [32]byte
	copy(a[:], b)
	return !ref.IsSquare(ref.FromBytesMod(a))
}

var nielsOps = []aliasOp[ed.NielsPoint]{
	{"Neg", 1, func(r, a, b, c *ed.NielsPoint) interface{} { return r.Neg(a) }, nil},
	{"Set", 1, func(r, a, b, c *ed.NielsPoint) interface{} { return r.Set(a) }, nil},
	{"ConditionalSet1", 1, func(r, a, b, c *ed.NielsPoint) interface{} { return r.ConditionalSet(a, 1) }, nil},
}

var jacobiOps = []aliasOp[ed.JacobiPoint]{
	{"Dual", 1, func(r, a, b, c *ed.JacobiPoint) interface{} { return r.Dual(a) }, nil},
}

// --- the library's own data ---

var baseSnapshot ed.ScalarMultTable

func init() { baseSnapshot = ed.BaseScalarMultTable }

// constantsIntact checks that nothing has written to the library's constants.
func constantsIntact(t *pbt.T) {
	if ed.BaseScalarMultTable != baseSnapshot {
		for i := range baseSnapshot {
			for j := range baseSnapshot[i] {
				if nielsVal(&baseSnapshot[i][j]) != nielsVal(&ed.BaseScalarMultTable[i][j]) {
					t.Fatalf("BaseScalarMultTable[%d][%d] was changed", i, j)
				}
			}
		}
	}
	var f ed.FieldElement
	sameFe(t, "SetZero", f.SetZero(), ref.Zero)
	sameFe(t, "SetOne", f.SetOne(), ref.One)
	sameFe(t, "SetI", f.SetI(), ref.I)
	var e ed.ExtendedPoint
	exactPoint(t, "ExtendedPoint.SetZero", e.SetZero(), ref.Identity)
	samePoint(t, "ExtendedPoint.SetBase", pt(e.SetBase()), ref.Base)
	exactPoint(t, "SetTorsion1", e.SetTorsion1(), ref.Tors[4])
	var s rist.Scalar
	sameScalar(t, "SetZero", s.SetZero(), new(big.Int))
	sameScalar(t, "SetOne", s.SetOne(), oneB)
	// a fixed computation that touches every other constant
	k := knownAnswer()
	if knownAnswer0 == "" {
		knownAnswer0 = k
	}
	if k != knownAnswer0 {
		t.Fatalf("a fixed computation gives another result than at the start: %s, was %s", k, knownAnswer0)
	}
}

var knownAnswer0 string

// knownAnswer computes something fixed with map, inverse, encode, decode.
func knownAnswer() string {
	var out bytes.Buffer
	var p, q rist.Point
	b := ref.FromU64(77).Bytes()
	p.SetElligator(&b)
	fmt.Fprintf(&out, "%x", p.Bytes())
	for _, e := range []*ed.ExtendedPoint{ext(&p), new(ed.ExtendedPoint).SetZero()} {
		var fes [8]ed.FieldElement
		m := e.RistrettoElligator2Inverse(&fes)
		fmt.Fprintf(&out, " %02x", m)
		for i := range fes {
			if m>>uint(i)&1 == 1 {
				fmt.Fprintf(&out, " %s", feHex(&fes[i]))
			}
		}
	}
	var c [32]byte
	copy(c[:], p.Bytes())
	fmt.Fprintf(&out, " %v", q.SetBytes(&c))
	q.Add(&q, &p)
	fmt.Fprintf(&out, " %x", q.Bytes())
	var s rist.Scalar
	s.SetUint64(3)
	s.Inverse(&s)
	fmt.Fprintf(&out, " %s", scalarVal(&s))
	return out.String()
}

func init() {
	reg("C16", &pbt.Law{Name: "alias", Rule: "an operation on scalars, points, extended points, field elements, Niels points or Jacobi points, operand values of edge classes, and a partition of receiver and operands into variables (all partitions equally likely); result, return value and untouched operands compared with the same operation on distinct fresh variables, a receiver that is no operand being filled with junk first; non-trivial: some variables coincide", Quick: 300000, Thorough: 8000000, Run: func(t *pbt.T) {
		if knownAnswer0 == "" {
			knownAnswer0 = knownAnswer() // before anything can have gone wrong
		}
		switch t.Weighted(4, 2, 3, 4, 2, 1) {
		case 0:
			aliasCase(t, "Scalar", scalarOps, func() *rist.Scalar {
				x, _ := gen.ScalarBig(t)
				return scalarOf(x)
			}, func() *rist.Scalar { return garbageScalar(t) }, scalarVal)
		case 1:
			aliasCase(t, "Point", pointOps, func() *rist.Point {
				_, p, _ := even(t)
				return p
			}, func() *rist.Point { return garbagePoint(t) }, pointVal)
		case 2:
			aliasCase(t, "ExtendedPoint", extOps, func() *ed.ExtendedPoint {
				a, _ := gen.Curve(t)
				p, _ := repExact(t, a)
				return p
			}, func() *ed.ExtendedPoint { return ext(garbagePoint(t)) }, extVal)
		case 3:
			aliasCase(t, "FieldElement", feOps, func() *ed.FieldElement {
				v, _ := gen.Fe(t)
				return looseFe(t, v)
			}, func() *ed.FieldElement { return garbageFe(t) }, feVal)
		case 4:
			aliasCase(t, "NielsPoint", nielsOps, func() *ed.NielsPoint {
				return niels(t)
			}, func() *ed.NielsPoint { return niels(t) }, nielsVal)
		case 5:
			aliasCase(t, "JacobiPoint", jacobiOps, func() *ed.JacobiPoint {
				v, _ := gen.Fe(t)
				w, _ := gen.Fe(t)
				return &ed.JacobiPoint{S: *looseFe(t, v), T: *looseFe(t, w)}
			}, func() *ed.JacobiPoint { return new(ed.JacobiPoint) }, jacobiVal)
		}
	}})
	reg("C16", &pbt.Law{Name: "alias-mult", Rule: "scalar multiplications (direct, public) with the point as receiver, tables computed from a point that is then the receiver, point setters over an operand's buffer; compared with distinct variables; tables must not depend on the point after Compute, and the scalar, table and point operands must be unchanged; non-trivial: all", Quick: 12000, Thorough: 300000, Run: func(t *pbt.T) {
		a, p, _ := even(t)
		x, _ := multScalar(t, ref.L)
		s := scalarOf(x)
		want := ref.MulA(a, x)
		t.NonTrivial()
		keep := *p
		switch t.Intn(4) {
		case 0:
			if p.ScalarMult(p, s) != p {
				t.Fatalf("ScalarMult did not return its receiver")
			}
			samePoint(t, "p.ScalarMult(p, s)", p, want)
			r := garbagePoint(t)
			q := keep
			r.ScalarMult(&q, s)
			samePoint(t, "r.ScalarMult(q, s)", r, want)
			samePoint(t, "operand of ScalarMult", &q, a)
		case 1:
			if p.PublicScalarMult(p, s) != p {
				t.Fatalf("PublicScalarMult did not return its receiver")
			}
			samePoint(t, "p.PublicScalarMult(p, s)", p, want)
			r := garbagePoint(t)
			q := keep
			r.PublicScalarMult(&q, s)
			samePoint(t, "r.PublicScalarMult(q, s)", r, want)
			samePoint(t, "operand of PublicScalarMult", &q, a)
		case 2, 3:
			var tab rist.ScalarMultTable
			tab.Compute(p)
			samePoint(t, "operand of Compute", p, a)
			snap := tab
			p.ScalarMultTable(&tab, s)
			samePoint(t, "p.ScalarMultTable", p, want)
			p.PublicScalarMultTable(&tab, s)
			samePoint(t, "p.PublicScalarMultTable", p, want)
			for i := range tab {
				for j := range tab[i] {
					if tab[i][j] != snap[i][j] && nielsVal(&tab[i][j]) != nielsVal(&snap[i][j]) {
						t.Fatalf("table entry [%d][%d] was changed by a multiplication", i, j)
					}
				}
			}
		}
		sameScalar(t, "scalar operand", s, x)
	}})
	reg("C16", &pbt.Law{Name: "buffers", Rule: "returned slices, integers and strings are modified by the caller, and buffers read by setters compared, between repeated calls: results must not be shared with later calls, inputs not changed, Set must copy deeply; non-trivial: all", Quick: 40000, Thorough: 1000000, Run: func(t *pbt.T) {
		t.NonTrivial()
		scribble := func(b []byte) {
			for i := range b {
				b[i] ^= 0xa5
			}
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x5a
			}
		}
		fresh := func(what string, f func() []byte) {
			x := f()
			y := f()
			if !bytes.Equal(x, y) {
				t.Fatalf("%s differs between two calls: %x, %x", what, x, y)
			}
			keep := append([]byte{}, x...)
			scribble(x)
			if !bytes.Equal(y, keep) {
				t.Fatalf("%s: two results share memory", what)
			}
			if z := f(); !bytes.Equal(z, keep) {
				t.Fatalf("%s gives %x after the caller changed an earlier result %x", what, z, keep)
			}
		}
		a, p, _ := even(t)
		x, _ := gen.ScalarBig(t)
		s := scalarOf(x)
		v, f, _ := drawFe(t, "f")
		k := t.Intn(15)
		t.Class("buffers: " + []string{"Point.Bytes", "Point.MarshalBinary", "Point.MarshalText", "Scalar.Bytes", "Scalar.MarshalText", "BigInt", "Lizard", "Set", "point decoding", "scalar decoding", "curve multiplication", "derived data", "maps", "field decoding", "table multiplication"}[k])
		switch k {
		case 0:
			fresh("Point.Bytes", p.Bytes)
			fresh("Ristretto", ext(p).Ristretto)
		case 1:
			fresh("Point.MarshalBinary", func() []byte { b, _ := p.MarshalBinary(); return b })
		case 2:
			fresh("Point.MarshalText", func() []byte { b, _ := p.MarshalText(); return b })
		case 3:
			fresh("Scalar.Bytes", s.Bytes)
			fresh("Scalar.MarshalBinary", func() []byte { b, _ := s.MarshalBinary(); return b })
		case 4:
			fresh("Scalar.MarshalText", func() []byte { b, _ := s.MarshalText(); return b })
		case 5:
			b1 := s.BigInt()
			b1.Add(b1, oneB)
			sc := b1.Bits()
			for i := range sc {
				sc[i] = ^sc[i]
			}
			if s.BigInt().Cmp(x) != 0 {
				t.Fatalf("Scalar.BigInt shares memory with later calls")
			}
			sameScalar(t, "scalar", s, x)
			b2 := f.BigInt()
			sc = b2.Bits()
			for i := range sc {
				sc[i] = ^sc[i]
			}
			if f.BigInt().Cmp(v.Big()) != 0 {
				t.Fatalf("FieldElement.BigInt shares memory with later calls")
			}
		case 6:
			m, _ := payload(t)
			p.SetLizard(&m)
			fresh("Lizard", p.Lizard)
			a = ref.MapBytes(lizardBuf(m))
		case 7: // deep copies
			var q rist.Point
			q.Set(p)
			p.SetBase()
			samePoint(t, "copy after the original changed", &q, a)
			var u rist.Scalar
			u.Set(s)
			s.SetOne()
			sameScalar(t, "copy after the original changed", &u, x)
			p.Set(&q)
			s.Set(&u)
		case 8: // inputs of setters
			var q rist.Point
			b := ref.Encode(a)
			in := b
			if !q.SetBytes(&b) {
				t.Fatalf("SetBytes rejects %x", in)
			}
			if b != in {
				t.Fatalf("SetBytes changed its input")
			}
			b = [32]byte{}
			samePoint(t, "decoded point after the buffer was changed", &q, a)
			txt, _ := p.MarshalText()
			c := append([]byte{}, txt...)
			if err := q.UnmarshalText(txt); err != nil || !bytes.Equal(c, txt) {
				t.Fatalf("UnmarshalText: %v, input changed: %v", err, !bytes.Equal(c, txt))
			}
			bin := append([]byte{}, in[:]...)
			if err := q.UnmarshalBinary(bin); err != nil || !bytes.Equal(bin, in[:]) {
				t.Fatalf("UnmarshalBinary: %v, input changed: %v", err, !bytes.Equal(bin, in[:]))
			}
		case 9:
			y := new(big.Int).Neg(x)
			var u rist.Scalar
			u.SetBigInt(y)
			if y.Cmp(new(big.Int).Neg(x)) != 0 {
				t.Fatalf("SetBigInt changed its argument")
			}
			b, _ := gen.Bytes32(t)
			in := b
			u.SetBytes(&b)
			u.SetBytesStrict(&b)
			if b != in {
				t.Fatalf("SetBytes changed its input")
			}
			w, _ := gen.Bytes64(t)
			in64 := w
			u.SetReduced(&w)
			if w != in64 {
				t.Fatalf("SetReduced changed its input")
			}
			bin := append([]byte{}, in[:]...)
			u.UnmarshalBinary(bin)
			if !bytes.Equal(bin, in[:]) {
				t.Fatalf("UnmarshalBinary changed its input")
			}
		case 10: // curve level multiplication
			e := ed.ExtendedPoint(*p)
			b := ref.BigToLE32(x)
			in := b
			var r ed.ExtendedPoint
			r.ScalarMult(&e, &b)
			if b != in {
				t.Fatalf("ScalarMult changed its scalar")
			}
			r.VarTimeScalarMult(&e, &b)
			if b != in {
				t.Fatalf("VarTimeScalarMult changed its scalar")
			}
		case 11: // derived data
			d, _ := gen.Data(t)
			c := append([]byte{}, d...)
			var q rist.Point
			q.Derive(d)
			q.DeriveDalek(d)
			var u rist.Scalar
			u.Derive(d)
			u.DeriveShort(d)
			if !bytes.Equal(c, d) {
				t.Fatalf("deriving changed the data")
			}
		case 12: // maps: of canonical and other bytes
			b, _ := gen.ElligatorBytes(t)
			if t.Bool() {
				b, _ = gen.Bytes32(t)
			}
			in := b
			var q rist.Point
			q.SetElligator(&b)
			if b != in {
				t.Fatalf("SetElligator changed its input from %x to %x", in, b)
			}
			m, _ := payload(t)
			mi := m
			q.SetLizard(&m)
			if m != mi {
				t.Fatalf("SetLizard changed its input from %x to %x", mi, m)
			}
			ff, ffv := *f, v
			var e ed.ExtendedPoint
			var cp ed.CompletedPoint
			cp.SetRistrettoElligator2(&ff)
			sameFe(t, "operand of SetRistrettoElligator2", &ff, ffv)
			// decoding something that may be no encoding
			b = in
			q.SetBytes(&b)
			if b != in {
				t.Fatalf("Point.SetBytes changed its input from %x to %x", in, b)
			}
			e.SetRistretto(&b)
			if b != in {
				t.Fatalf("SetRistretto changed its input from %x to %x", in, b)
			}
			txt := []byte(b64.EncodeToString(in[:]))
			tin := append([]byte{}, txt...)
			q.UnmarshalText(txt)
			if !bytes.Equal(txt, tin) {
				t.Fatalf("Point.UnmarshalText changed its input from %s to %s", tin, txt)
			}
			hx := []byte(fmt.Sprintf("%X", in[:]))
			hin := append([]byte{}, hx...)
			q.UnmarshalText(hx)
			if !bytes.Equal(hx, hin) {
				t.Fatalf("Point.UnmarshalText changed its input from %s to %s", hin, hx)
			}
			bin := append([]byte{}, in[:]...)
			q.UnmarshalBinary(bin)
			if !bytes.Equal(bin, in[:]) {
				t.Fatalf("Point.UnmarshalBinary changed its input")
			}
			var u rist.Scalar
			u.UnmarshalText(txt)
			if !bytes.Equal(txt, tin) {
				t.Fatalf("Scalar.UnmarshalText changed its input from %s to %s", tin, txt)
			}
		case 13: // field elements
			b, _ := gen.Bytes32(t)
			in := b
			var g ed.FieldElement
			g.SetBytes(&b)
			if b != in {
				t.Fatalf("FieldElement.SetBytes changed its input from %x to %x", in, b)
			}
			y, _ := gen.Big256(t)
			if t.Bool() {
				y.Neg(y)
			}
			if t.Bool() {
				y.Mul(y, y)
			}
			z := new(big.Int).Set(y)
			g.SetBigInt(z)
			if z.Cmp(y) != 0 {
				t.Fatalf("FieldElement.SetBigInt changed its argument from %x to %x", y, z)
			}
			var u rist.Scalar
			u.SetBigInt(z)
			if z.Cmp(y) != 0 {
				t.Fatalf("Scalar.SetBigInt changed its argument from %x to %x", y, z)
			}
			fresh("FieldElement.Bytes", func() []byte { c := f.Bytes(); return c[:] })
			// an encoding written to a caller's buffer replaces all of it
			buf := in
			f.BytesInto(&buf)
			if buf != v.Bytes() {
				t.Fatalf("FieldElement.BytesInto(%x) gives %x, want %x", in, buf, v.Bytes())
			}
			buf = in
			p.BytesInto(&buf)
			if buf != ref.Encode(a) {
				t.Fatalf("Point.BytesInto(%x) gives %x, want %x", in, buf, ref.Encode(a))
			}
			buf = in
			ext(p).RistrettoInto(&buf)
			if buf != ref.Encode(a) {
				t.Fatalf("RistrettoInto(%x) gives %x, want %x", in, buf, ref.Encode(a))
			}
			buf = in
			s.BytesInto(&buf)
			if buf != ref.BigToLE32(x) {
				t.Fatalf("Scalar.BytesInto(%x) gives %x, want %x", in, buf, ref.BigToLE32(x))
			}
		case 14:
			b := ref.BigToLE32(x)
			in := b
			var r ed.ExtendedPoint
			ed.BaseScalarMultTable.ScalarMult(&r, &b)
			if b != in {
				t.Fatalf("ScalarMultTable.ScalarMult changed its scalar")
			}
			ed.BaseScalarMultTable.VarTimeScalarMult(&r, &b)
			if b != in {
				t.Fatalf("ScalarMultTable.VarTimeScalarMult changed its scalar")
			}
			samePoint(t, "x*B", pt(&r), gen.MulBase(x))
		}
		// observers leave the value alone
		samePoint(t, "point", p, a)
		if k != 9 {
			sameScalar(t, "scalar", s, x)
		}
		sameFe(t, "field element", f, v)
	}})
	reg("C16", &pbt.Law{Name: "observers", Rule: "every observer (encodings, comparisons, predicates, inverses, conversions, String) on operands in loose form: the operand's value must be unchanged, and the library's constants and base table intact after a random batch of operations with results written through pointers into constants' getters; non-trivial: all", Quick: 20000, Thorough: 500000, Run: func(t *pbt.T) {
		t.NonTrivial()
		a, p, _ := even(t)
		b, q, _ := even(t)
		v, f, _ := drawFe(t, "f")
		w, g, _ := drawFe(t, "g")
		x, _ := gen.ScalarBig(t)
		s := scalarOf(x)
		u := scalarOf(x)
		n := t.Range(1, 6)
		for i := 0; i < n; i++ {
			op := t.Intn(14)
			t.Note("op %d", op)
			switch op {
			case 0:
				p.Bytes()
				p.Equals(q)
				q.EqualsI(p)
			case 1:
				p.MarshalText()
				p.MarshalBinary()
				_ = p.String()
			case 2:
				p.Lizard()
			case 3:
				var fes [8]ed.FieldElement
				ext(p).RistrettoElligator2Inverse(&fes)
			case 4:
				f.Equals(g)
				g.EqualsI(f)
				f.IsNegativeI()
				f.IsNonZeroI()
				f.IsOneI()
			case 5:
				f.Bytes()
				f.BigInt()
				_ = f.String()
			case 6:
				s.Equals(u)
				s.EqualsI(u)
				s.IsNonZeroI()
				s.Bytes()
				s.BigInt()
				_ = s.String()
			case 7: // scribble over copies of the constants
				var z ed.FieldElement
				z.SetOne()
				z.Mul(&z, f)
				z.SetI()
				z.Add(&z, f)
				z.SetZero()
				z.Sub(&z, f)
			case 8:
				var e ed.ExtendedPoint
				e.SetBase()
				e.Add(&e, ext(p))
				e.SetZero()
				e.Add(&e, ext(p))
				e.SetTorsion1()
				e.Double(&e)
				e.SetTorsion2()
				e.Neg(&e)
				e.SetTorsion3()
				e.Sub(&e, ext(p))
			case 9:
				var r rist.Point
				r.ScalarMultBase(s)
				r.PublicScalarMultBase(s)
			case 10:
				var nn ed.NielsPoint
				nn.SetZero()
				nn.Neg(&nn)
				nn.SetExtended(ext(p))
				nn.ConditionalSet(&ed.BaseScalarMultTable[0][0], 0)
				var m ed.NielsPoint
				m.Neg(&ed.BaseScalarMultTable[t.Intn(32)][t.Intn(8)])
			case 11:
				r := *p
				r.ConditionalSet(q, int32(t.Intn(2)))
				h := *f
				h.ConditionalSet(g, int32(t.Intn(2)))
				k := *s
				k.ConditionalSet(u, int32(t.Intn(2)))
			case 12:
				var qs [4]ed.JacobiPoint
				ext(p).ToJacobiQuarticRistretto(&qs)
				for i := range qs {
					qs[i].Dual(&qs[i])
				}
			case 13:
				var z rist.Point
				bad := ref.MinusOne.Bytes()
				z.SetBytes(&bad)
				z.SetZero()
				z.SetBase()
				z.Double(&z)
			}
		}
		samePoint(t, "p", p, a)
		samePoint(t, "q", q, b)
		sameFe(t, "f", f, v)
		sameFe(t, "g", g, w)
		sameScalar(t, "s", s, x)
		sameScalar(t, "u", u, x)
		constantsIntact(t)
	}})
}

// niels draws a Niels point: of a curve point, or of arbitrary coordinates.
func niels(t *pbt.T) *ed.NielsPoint {
	var n ed.NielsPoint
	if t.Bool() {
		a, _ := gen.Curve(t)
		e := libExt(a, ref.One)
		n.SetExtended(e)
		return &n
	}
	for _, f := range []*ed.FieldElement{&n.YPlusX, &n.YMinusX, &n.XY2D} {
		v, _ := gen.Fe(t)
		*f = *looseFe(t, v)
	}
	return &n
}
