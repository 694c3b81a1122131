package props

import (
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

func garbageFe(t *pbt.T) *ed.FieldElement {
	var f ed.FieldElement
	switch t.Intn(3) {
	case 1:
		b, _ := gen.Bytes32(t)
		f.SetBytes(&b)
	case 2:
		b, _ := gen.Bytes32(t)
		var g ed.FieldElement
		g.SetBytes(&b)
		f.Neg(&g)
	}
	return &f
}

// drawFe draws an element in a loose form.
func drawFe(t *pbt.T, name string) (ref.Fe, *ed.FieldElement, string) {
	v, c := gen.Fe(t)
	f := looseFe(t, v)
	t.Note("%s = %s [%s]", name, v.Hex(), c)
	return v, f, c
}

func sameFe(t *pbt.T, what string, f *ed.FieldElement, want ref.Fe) {
	c := *f
	b := c.Bytes()
	if b != want.Bytes() {
		t.Fatalf("%s = %x, want %s", what, b, want.Hex())
	}
}

var p25519 = ref.P

func init() {
	type binop struct {
		name string
		run  func(r, a, b *ed.FieldElement) *ed.FieldElement
		ref  func(a, b ref.Fe) ref.Fe
	}
	two := ref.FromU64(2)
	ops := []binop{
		{"Add", func(r, a, b *ed.FieldElement) *ed.FieldElement { return r.Add(a, b) }, ref.Add},
		{"Sub", func(r, a, b *ed.FieldElement) *ed.FieldElement { return r.Sub(a, b) }, ref.Sub},
		{"Mul", func(r, a, b *ed.FieldElement) *ed.FieldElement { return r.Mul(a, b) }, ref.Mul},
		{"Square", func(r, a, b *ed.FieldElement) *ed.FieldElement { return r.Square(a) }, func(a, b ref.Fe) ref.Fe { return ref.Sq(a) }},
		{"DoubledSquare", func(r, a, b *ed.FieldElement) *ed.FieldElement { return r.DoubledSquare(a) }, func(a, b ref.Fe) ref.Fe { return ref.Mul(two, ref.Sq(a)) }},
		{"Neg", func(r, a, b *ed.FieldElement) *ed.FieldElement { return r.Neg(a) }, func(a, b ref.Fe) ref.Fe { return ref.Neg(a) }},
		{"Set", func(r, a, b *ed.FieldElement) *ed.FieldElement { return r.Set(a) }, func(a, b ref.Fe) ref.Fe { return a }},
	}
	reg("C13", &pbt.Law{Name: "ring", Rule: "pairs of elements of edge classes (near 0, p, 2^k, limb patterns of radix 2^51 and 2^25.5, constants) in loose limb forms (negated, doubly negated, non-canonical bytes, product); or b solved so that the sum, difference or product is an edge value; one operation each, compared byte for byte with the model; non-trivial: not both uniform", Quick: 1500000, Thorough: 40000000, Run: func(t *pbt.T) {
		o := ops[t.Weighted(2, 2, 6, 3, 3, 2, 1)]
		va, a, ca := drawFe(t, "a")
		var vb ref.Fe
		cb := ""
		if t.Intn(3) == 0 && va != ref.Zero {
			target, _ := gen.Fe0(t)
			switch o.name {
			case "Add":
				vb = ref.Sub(target, va)
			case "Sub":
				vb = ref.Sub(va, target)
			default:
				vb = ref.Mul(target, ref.Inv(va))
			}
			cb = "solved"
			t.Note("b = %s [solved for %s]", vb.Hex(), target.Hex())
		}
		b := a
		if cb == "" {
			if t.OneIn(8) {
				vb, cb = va, "same"
			} else {
				vb, cb = gen.Fe(t)
			}
			t.Note("b = %s [%s]", vb.Hex(), cb)
		}
		b = looseFe(t, vb)
		t.NonTrivialIf(ca != "uniform" || cb != "uniform")
		t.Class(o.name)
		if cb == "solved" {
			t.Class("solved")
		}
		t.Note("op %s", o.name)
		r := garbageFe(t)
		if o.run(r, a, b) != r {
			t.Fatalf("%s did not return its receiver", o.name)
		}
		sameFe(t, o.name, r, o.ref(va, vb))
	}})
	reg("C13", &pbt.Law{Name: "programs", Rule: "programs of 2-40 field operations over four registers, results in whatever limb form the operations leave them feeding later ones (negations and products more likely than normalising operations); every result compared with the model; non-trivial: at least 4 steps", Quick: 150000, Thorough: 4000000, Run: func(t *pbt.T) {
		var r [4]ed.FieldElement
		var m [4]ref.Fe
		for i := range r {
			v, f, _ := drawFe(t, "r"+string(rune('0'+i)))
			r[i], m[i] = *f, v
		}
		n := t.Range(2, 40)
		t.NonTrivialIf(n >= 4)
		for k := 0; k < n; k++ {
			d, i, j := t.Intn(4), t.Intn(4), t.Intn(4)
			switch t.Weighted(12, 2) {
			case 0:
				o := ops[t.Weighted(3, 3, 5, 3, 3, 5, 1)]
				t.Note("r%d = %s r%d r%d", d, o.name, i, j)
				o.run(&r[d], &r[i], &r[j])
				m[d] = o.ref(m[i], m[j])
			case 1:
				switch t.Intn(4) {
				case 0:
					r[d].SetZero()
					m[d] = ref.Zero
				case 1:
					r[d].SetOne()
					m[d] = ref.One
				case 2:
					r[d].SetI()
					m[d] = ref.I
				case 3:
					b, _ := gen.Bytes32(t)
					r[d].SetBytes(&b)
					m[d] = ref.FromBytesMod(b)
				}
				t.Note("r%d = const %s", d, m[d].Hex())
			}
			sameFe(t, "register", &r[d], m[d])
		}
		for i := range r {
			sameFe(t, "register at the end", &r[i], m[i])
		}
	}})
	reg("C13", &pbt.Law{Name: "conversions", Rule: "32-byte strings of all classes incl. p..2^255-1 with and without the top bit; integers of up to 600 bits of either sign near multiples of p; SetBytes, SetBigInt, Bytes, BytesInto, BigInt and String must all denote the value mod p; non-trivial: value not already in [0, p) uniform", Quick: 300000, Thorough: 8000000, Run: func(t *pbt.T) {
		if t.Bool() {
			b, c := gen.Bytes32(t)
			in := b
			t.Note("bytes %x [%s]", b, c)
			t.NonTrivialIf(c != "uniform")
			v := ref.FromBytesMod(b)
			f := garbageFe(t)
			if f.SetBytes(&b) != f {
				t.Fatalf("SetBytes did not return its receiver")
			}
			if b != in {
				t.Fatalf("SetBytes changed its input")
			}
			sameFe(t, "SetBytes", f, v)
			var out [32]byte
			t.Fill(out[:8])
			if f.BytesInto(&out) != f || out != v.Bytes() {
				t.Fatalf("BytesInto = %x, want %s", out, v.Hex())
			}
			l := looseFe(t, v)
			if l.BytesInto(&out); out != v.Bytes() {
				t.Fatalf("BytesInto of a loose form = %x, want %s", out, v.Hex())
			}
			if l.BigInt().Cmp(v.Big()) != 0 {
				t.Fatalf("BigInt = %x, want %s", l.BigInt(), v.Hex())
			}
			if t.OneIn(8) && l.String() != v.Big().String() {
				t.Fatalf("String = %s, want %s", l.String(), v.Big())
			}
			return
		}
		x, c := gen.Big256(t)
		switch t.Intn(5) {
		case 0:
			k, _ := gen.Big256(t)
			x.Add(x.Rsh(x, uint(t.Intn(256))), k.Mul(k, p25519))
			c += "+kp"
		case 1:
			x.Lsh(x, uint(t.Intn(340)))
			c += "<<"
		}
		if t.Intn(3) == 0 {
			x.Neg(x)
			c += "neg"
		}
		t.Note("int %x [%s]", x, c)
		t.NonTrivialIf(c != "uniform")
		keep := new(big.Int).Set(x)
		f := garbageFe(t)
		if f.SetBigInt(x) != f {
			t.Fatalf("SetBigInt did not return its receiver")
		}
		if x.Cmp(keep) != 0 {
			t.Fatalf("SetBigInt changed its argument")
		}
		want := new(big.Int).Mod(keep, p25519)
		sameFe(t, "SetBigInt", f, ref.FromBig(want))
		if f.BigInt().Cmp(want) != 0 {
			t.Fatalf("BigInt = %x, want %x", f.BigInt(), want)
		}
	}})

	e22523 := new(big.Int).Sub(new(big.Int).Lsh(oneB, 252), big.NewInt(3))
	reg("C14", &pbt.Law{Name: "roots", Rule: "elements of edge classes in loose forms, squares, i times squares and constants: Inverse, Sqrt (of squares), InvSqrt (of non-zero squares), InvSqrtI (of non-zero elements), Exp22523 against the model; non-trivial: not uniform", Quick: 250000, Thorough: 6000000, Run: func(t *pbt.T) {
		v, c := gen.Fe(t)
		k := t.Intn(4)
		switch k {
		case 1:
			v = ref.Sq(v)
		case 2:
			v = ref.Mul(ref.I, ref.Sq(v))
		}
		a := looseFe(t, v)
		t.Note("a = %s [%s, form %d]", v.Hex(), c, k)
		t.NonTrivialIf(c != "uniform")
		square := ref.IsSquare(v)
		if square {
			t.Class("square")
		} else {
			t.Class("non-square")
		}
		r := garbageFe(t)
		switch t.Intn(5) {
		case 0:
			if v == ref.Zero {
				return
			}
			t.Class("Inverse")
			if r.Inverse(a) != r {
				t.Fatalf("Inverse did not return its receiver")
			}
			sameFe(t, "Inverse", r, ref.Inv(v))
		case 1:
			if !square {
				v = ref.Mul(v, ref.I)
				a = looseFe(t, v)
			}
			t.Class("Sqrt")
			want, ok := ref.Sqrt(v)
			if !ok {
				t.Fatalf("HARNESS: no root")
			}
			if r.Sqrt(a) != r {
				t.Fatalf("Sqrt did not return its receiver")
			}
			sameFe(t, "Sqrt", r, want)
		case 2:
			if v == ref.Zero {
				return
			}
			if !square {
				v = ref.Mul(v, ref.I)
				a = looseFe(t, v)
			}
			t.Class("InvSqrt")
			if r.InvSqrt(a) != r {
				t.Fatalf("InvSqrt did not return its receiver")
			}
			if got := ref.Mul(ref.Sq(feOf(r)), v); got != ref.One || !feCanonical(r) {
				t.Fatalf("InvSqrt(a)^2 * a = %s", got.Hex())
			}
		case 3:
			if v == ref.Zero {
				return
			}
			t.Class("InvSqrtI")
			ret := r.InvSqrtI(a)
			w := int32(0)
			if square {
				w = 1
			}
			if ret != w {
				t.Fatalf("InvSqrtI reports %d, a square: %v", ret, square)
			}
			got := ref.Mul(ref.Sq(feOf(r)), v)
			if !square {
				got = ref.Mul(ref.I, got)
			}
			if got != ref.One {
				t.Fatalf("InvSqrtI(a)^2 * [i] a = %s", got.Hex())
			}
		case 4:
			t.Class("Exp22523")
			if r.Exp22523(a) != r {
				t.Fatalf("Exp22523 did not return its receiver")
			}
			sameFe(t, "Exp22523", r, ref.Pow(v, e22523))
		}
	}})
	reg("C14", &pbt.Law{Name: "predicates", Rule: "pairs of elements, equal, opposite or off by one/by a bit or unrelated, in independently chosen loose forms (all forms of 0, 1, p-1, (p+-1)/2 frequent): Abs, IsNegativeI, IsNonZeroI, IsOneI, EqualsI, Equals; non-trivial: related pair or special value", Quick: 800000, Thorough: 20000000, Run: func(t *pbt.T) {
		v, c := gen.Fe(t)
		if t.OneIn(3) {
			v = []ref.Fe{ref.Zero, ref.One, ref.MinusOne, ref.FromU64(2), ref.Neg(ref.FromU64(2)), ref.Inv(two), ref.Neg(ref.Inv(two)), ref.FromU64(18), ref.FromU64(19)}[t.Intn(9)]
			c = "special"
		}
		w := v
		kind := t.Intn(6)
		switch kind {
		case 1:
			w = ref.Neg(v)
		case 2:
			w = ref.Add(v, ref.One)
		case 3:
			b := v.Bytes()
			b[t.Intn(32)] ^= 1 << uint(t.Intn(8))
			w = ref.FromBytesMod(b)
		case 4:
			w, _ = gen.Fe(t)
		}
		a, b := looseFe(t, v), looseFe(t, w)
		t.Note("a = %s [%s], b = %s [%d]", v.Hex(), c, w.Hex(), kind)
		t.NonTrivialIf(kind < 4 || c == "special")
		i := func(b bool) int32 {
			if b {
				return 1
			}
			return 0
		}
		chk := func(what string, got int32, want bool) {
			if got != i(want) {
				t.Fatalf("%s = %d, want %v", what, got, want)
			}
		}
		chk("EqualsI", a.EqualsI(b), v == w)
		chk("Equals", i(a.Equals(b)), v == w)
		chk("EqualsI (swapped)", b.EqualsI(a), v == w)
		chk("IsNegativeI", a.IsNegativeI(), ref.IsNeg(v))
		chk("IsNonZeroI", a.IsNonZeroI(), v != ref.Zero)
		chk("IsOneI", a.IsOneI(), v == ref.One)
		r := garbageFe(t)
		if r.Abs(a) != r {
			t.Fatalf("Abs did not return its receiver")
		}
		sameFe(t, "Abs", r, ref.Abs(v))
	}})
	reg("C14", &pbt.Law{Name: "chains", Rule: "chains of 2-8 inverses, roots, absolute values, products and negations over one value, so that roots get operands in the form other operations leave them; non-trivial: all", Quick: 40000, Thorough: 1000000, Run: func(t *pbt.T) {
		v, f, _ := drawFe(t, "start")
		if v == ref.Zero {
			v = ref.One
			f = libFe(v)
		}
		t.NonTrivial()
		n := t.Range(2, 8)
		for k := 0; k < n; k++ {
			g := garbageFe(t)
			switch op := t.Intn(7); op {
			case 0:
				g.Inverse(f)
				v = ref.Inv(v)
			case 1:
				ret := g.InvSqrtI(f)
				y := feOf(g)
				z := ref.Mul(ref.Sq(y), v)
				if ret == 0 {
					z = ref.Mul(z, ref.I)
				}
				if z != ref.One || (ret == 1) != ref.IsSquare(v) {
					t.Fatalf("step %d: InvSqrtI(%s) = %d, %s", k, v.Hex(), ret, y.Hex())
				}
				v = y
			case 2:
				g.Square(f)
				v = ref.Sq(v)
				var h ed.FieldElement
				h.Sqrt(g)
				v, _ = ref.Sqrt(v)
				*g = h
			case 3:
				g.Abs(f)
				v = ref.Abs(v)
			case 4:
				g.Neg(f)
				v = ref.Neg(v)
			case 5:
				w, h, _ := drawFe(t, "factor")
				if w == ref.Zero {
					w = ref.One
					h = libFe(w)
				}
				g.Mul(f, h)
				v = ref.Mul(v, w)
			case 6:
				g.Exp22523(f)
				v = ref.Pow(v, e22523)
			}
			f = g
			sameFe(t, "value", f, v)
		}
	}})
}
