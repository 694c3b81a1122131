package crefc

import (
	"fmt"
	"math/big"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

func same(t *pbt.T, what string, g *cge, want ref.Aff) {
	x, y, z, tt := geCoords(g)
	if z == ref.Zero {
		t.Fatalf("%s: Z = 0", what)
	}
	zi := ref.Inv(z)
	a := ref.Aff{X: ref.Mul(x, zi), Y: ref.Mul(y, zi)}
	if !ref.OnCurve(a) || !ref.IsEvenFast(a) {
		t.Fatalf("%s: not a valid point: (%s, %s)", what, a.X.Hex(), a.Y.Hex())
	}
	if ref.Mul(tt, z) != ref.Mul(x, y) {
		t.Fatalf("%s: T Z != X Y", what)
	}
	if !ref.Equal(a, want) {
		t.Fatalf("%s: got (%s, %s), want (%s, %s)", what, a.X.Hex(), a.Y.Hex(), want.X.Hex(), want.Y.Hex())
	}
	if b, e := gePack(g), ref.Encode(want); b != e {
		t.Fatalf("%s: encoded %x, want %x", what, b, e)
	}
}

func even(t *pbt.T) (ref.Aff, *cge, string) {
	a, c := gen.Even(t)
	return a, rep(t, a), c
}

func rep(t *pbt.T, a ref.Aff) *cge {
	a = ref.AddA(a, ref.Tors[2*t.Intn(4)])
	z := ref.One
	if t.Bool() {
		z = gen.Z(t)
	}
	return mkge(a, z)
}

// operand returns a field element for v as the C code would produce it: freshly
// unpacked, or a product, or a negation.
func operand(t *pbt.T, v ref.Fe) *cfe {
	switch t.Intn(4) {
	case 1: // a product
		w := gen.FeNonZero(t)
		var r cfe
		feBin(2, &r, mkfe(ref.Mul(v, ref.Inv(w))), mkfe(w))
		return &r
	case 2: // a negation
		var r cfe
		feUn(0, &r, mkfe(ref.Neg(v)))
		return &r
	}
	return mkfe(v)
}

// wide is operand, or one unreduced sum or difference (allowed as operand of a
// multiplication, packing and predicates).
func wide(t *pbt.T, v ref.Fe) *cfe {
	w, _ := gen.Fe(t)
	var r cfe
	switch t.Intn(3) {
	case 1:
		feBin(0, &r, operand(t, ref.Sub(v, w)), operand(t, w))
		return &r
	case 2:
		feBin(1, &r, operand(t, ref.Add(v, w)), operand(t, w))
		return &r
	}
	return operand(t, v)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var p58 = func() *big.Int { // (p-5)/8
	p := new(big.Int).Lsh(big.NewInt(1), 255)
	p.Sub(p, big.NewInt(24))
	return p.Rsh(p, 3)
}()

func wantFe(t *pbt.T, what string, r *cfe, want ref.Fe) {
	if got := feOf(r); got != want {
		t.Fatalf("%s: got %s, want %s", what, got.Hex(), want.Hex())
	}
}

func wantSc(t *pbt.T, what string, r *csc, want *big.Int) {
	w := new(big.Int).Mod(want, ref.L)
	if got := scOf(r); got.Cmp(w) != 0 {
		t.Fatalf("%s: got %x, want %x", what, got, w)
	}
}

func init() {
	reg := func(l *pbt.Law) { pbt.Reg("C18", l) }
	reg(&pbt.Law{Name: "c-constants", Rule: "exhaustive: the constants and the base point; non-trivial: all", Enum: 14, Quick: 14, Thorough: 14, Run: func(t *pbt.T) {
		i := t.Intn(14)
		t.NonTrivial()
		t.Note("constant %d", i)
		mi := ref.Neg(ref.I)
		if i < 8 {
			wantFe(t, fmt.Sprint("field constant ", i), feConst(i), []ref.Fe{ref.Zero, ref.One, ref.Add(ref.One, ref.One), ref.I, mi, ref.MinusOne, ref.Zero, ref.One}[i])
			return
		}
		if i < 12 {
			wantSc(t, fmt.Sprint("scalar constant ", i-8), scConst(i-8), big.NewInt(int64(i&1)))
			return
		}
		same(t, "group constant", geConst(i-12), []ref.Aff{ref.Identity, ref.Base}[i-12])
	}})
	names := []string{"neg", "double", "triple", "square", "square_double", "invert", "pow2523", "invsqrt", "sqrt"}
	reg(&pbt.Law{Name: "c-field", Rule: "field operations add, sub, mul, neg, double, triple, square, square_double, invert, pow2523, roots on edge-biased elements in fresh, product and negated limb forms (and unreduced sums where the contract allows); results against the model; operands unchanged; sqrt and invsqrt only on squares; non-trivial: all", Quick: 150000, Thorough: 12000000, Run: func(t *pbt.T) {
		v, c := gen.Fe(t)
		w, _ := gen.Fe(t)
		t.Class(c)
		t.NonTrivial()
		t.Note("%s %s", v.Hex(), w.Hex())
		var r cfe
		x, y := operand(t, v), operand(t, w)
		x0, y0 := *x, *y
		for i, f := range []func(a, b ref.Fe) ref.Fe{ref.Add, ref.Sub} {
			feBin(i, &r, x, y)
			wantFe(t, []string{"add", "sub"}[i], &r, f(v, w))
		}
		feUn(0, &r, x)
		wantFe(t, "neg", &r, ref.Neg(v))
		feUn(1, &r, x)
		wantFe(t, "double", &r, ref.Add(v, v))
		feUn(2, &r, x)
		wantFe(t, "triple", &r, ref.Add(v, ref.Add(v, v)))
		if *x != x0 || *y != y0 {
			t.Fatalf("an operation changed its operand")
		}
		x, y = wide(t, v), wide(t, w)
		x0, y0 = *x, *y
		feBin(2, &r, x, y)
		wantFe(t, "mul", &r, ref.Mul(v, w))
		feUn(3, &r, x)
		wantFe(t, "square", &r, ref.Sq(v))
		feUn(4, &r, x)
		wantFe(t, "square_double", &r, ref.Add(ref.Sq(v), ref.Sq(v)))
		op := t.Intn(3)
		if op < 2 { // not of sums
			r = *operand(t, v)
			feBin(op, &r, &r, operand(t, w))
		} else {
			r = *x
			feBin(op, &r, &r, y)
		}
		wantFe(t, []string{"add", "sub", "mul"}[op]+" in place", &r, []ref.Fe{ref.Add(v, w), ref.Sub(v, w), ref.Mul(v, w)}[op])
		r = *x
		feUn(3, &r, &r)
		wantFe(t, "square in place", &r, ref.Sq(v))
		switch op := 5 + t.Intn(6); op {
		case 5:
			feUn(5, &r, x)
			if v != ref.Zero {
				wantFe(t, "invert", &r, ref.Inv(v))
			}
		case 6:
			feUn(6, &r, x)
			wantFe(t, "pow2523", &r, ref.Pow(v, p58))
		case 7, 8:
			v2 := ref.Sq(v)
			feUn(op, &r, mkfe(v2))
			got := feOf(&r)
			if op == 8 && ref.Sq(got) != v2 || op == 7 && v != ref.Zero && ref.Mul(ref.Sq(got), v2) != ref.One {
				t.Fatalf("%s of %s: %s", names[op], v2.Hex(), got.Hex())
			}
		case 9, 10:
			if v == ref.Zero {
				return
			}
			sq := ref.IsSquare(v)
			var b int
			iv := v
			if !sq {
				iv = ref.Mul(v, ref.I)
			}
			if op == 9 {
				b = feInvSqrtI(&r, x)
				if got := feOf(&r); ref.Mul(ref.Sq(got), iv) != ref.One || b != b2i(sq) {
					t.Fatalf("invsqrti of %s: %s, %d", v.Hex(), got.Hex(), b)
				}
			} else {
				b = feSqrtI(&r, x)
				if got := feOf(&r); ref.Sq(got) != iv || b != b2i(sq) {
					t.Fatalf("sqrti of %s: %s, %d", v.Hex(), got.Hex(), b)
				}
			}
		}
		if *x != x0 || *y != y0 {
			t.Fatalf("an operation changed its operand")
		}
	}})
	reg(&pbt.Law{Name: "c-field-predicates", Rule: "iszero, isone, isnegative, getparity, iseq (half the pairs equal or differing in one bit) and cmov with both flags; non-trivial: values equal or close", Quick: 150000, Thorough: 12000000, Run: func(t *pbt.T) {
		v, _ := gen.Fe(t)
		w, _ := gen.Fe(t)
		switch t.Intn(4) {
		case 1:
			w = v
			t.NonTrivial()
		case 2:
			b := v.Bytes()
			k := t.Intn(255)
			b[k/8] ^= 1 << uint(k&7)
			w = ref.FromBytesMod(b)
			t.NonTrivial()
		}
		t.Note("%s %s", v.Hex(), w.Hex())
		x, y := operand(t, v), operand(t, w)
		want := []bool{v == ref.Zero, v == ref.One, ref.IsNeg(v), ref.IsNeg(v), v == w, v == w}
		for i, e := range want {
			if got := fePred(i, x, y); got != b2i(e) {
				t.Fatalf("predicate %d: %d, want %d", i, got, b2i(e))
			}
		}
		f := t.Intn(2)
		z := *y
		feCmov(&z, x, f)
		if f == 1 && z != *x || f == 0 && z != *y {
			t.Fatalf("cmov with %d", f)
		}
	}})
	reg(&pbt.Law{Name: "c-scalar", Rule: "scalar add, sub, mul, negate, square, invert and predicates on edge-biased scalars below l; non-trivial: all", Quick: 60000, Thorough: 4000000, Run: func(t *pbt.T) {
		a, c := gen.ScalarBig(t)
		b, _ := gen.ScalarBig(t)
		switch t.Intn(6) {
		case 4:
			b.Set(a)
		case 5:
			b.Mod(new(big.Int).Neg(a), ref.L)
		}
		t.Class(c)
		t.NonTrivial()
		t.Note("%x %x", a, b)
		x, y := mksc(a), mksc(b)
		var r csc
		scBin(0, &r, x, y)
		wantSc(t, "add", &r, new(big.Int).Add(a, b))
		scBin(1, &r, x, y)
		wantSc(t, "sub", &r, new(big.Int).Sub(a, b))
		scBin(2, &r, x, y)
		wantSc(t, "mul", &r, new(big.Int).Mul(a, b))
		scBin(3, &r, x, y)
		wantSc(t, "negate", &r, new(big.Int).Neg(a))
		scBin(4, &r, x, y)
		wantSc(t, "square", &r, new(big.Int).Mul(a, a))
		op := t.Intn(5)
		r = *x
		scBin(op, &r, &r, y)
		wantSc(t, fmt.Sprintf("operation %d in place", op), &r, []*big.Int{new(big.Int).Add(a, b), new(big.Int).Sub(a, b),
			new(big.Int).Mul(a, b), new(big.Int).Neg(a), new(big.Int).Mul(a, a)}[op])
		if a.Sign() != 0 && t.OneIn(8) {
			scBin(5, &r, x, y)
			wantSc(t, "invert", &r, new(big.Int).ModInverse(a, ref.L))
		}
		one := big.NewInt(1)
		for i, e := range []bool{a.Sign() == 0, a.Cmp(one) == 0, a.Cmp(b) == 0} {
			if got := scPred(i, x, y); got != b2i(e) {
				t.Fatalf("scalar predicate %d: %d", i, got)
			}
		}
		wantSc(t, "operand afterwards", x, a)
		wantSc(t, "operand afterwards", y, b)
	}})
	reg(&pbt.Law{Name: "c-scalar-wide", Rule: "scalar_from64bytes of edge-biased 512-bit numbers is the number modulo l; non-trivial: not below 2^256", Quick: 150000, Thorough: 12000000, Run: func(t *pbt.T) {
		b, c := gen.Bytes64(t)
		t.Class(c)
		x := ref.LEToBig(b[:])
		t.NonTrivialIf(x.BitLen() > 256)
		t.Note("%x", b)
		wantSc(t, "from64bytes", scFrom64(&b), x)
	}})
	reg(&pbt.Law{Name: "c-recode", Rule: "window3, window5, slide, tstbit, bitlen of edge-biased scalars below l: digits in range and their weighted sum is the scalar; non-trivial: all", Quick: 60000, Thorough: 4000000, Run: func(t *pbt.T) {
		a, c := gen.ScalarBig(t)
		t.Class(c)
		t.NonTrivial()
		t.Note("%x", a)
		x := mksc(a)
		sum := func(d []int, bits uint) *big.Int {
			s := new(big.Int)
			for i := len(d) - 1; i >= 0; i-- {
				s.Lsh(s, bits)
				s.Add(s, big.NewInt(int64(d[i])))
			}
			return s
		}
		for _, w := range []struct{ op, n, bits, lo, hi int }{{3, 85, 3, -4, 4}, {5, 51, 5, -16, 16}} {
			d := scWindow(w.op, w.n, x)
			for i, v := range d {
				if v < w.lo || v > w.hi {
					t.Fatalf("window%d: digit %d is %d", w.op, i, v)
				}
			}
			if s := sum(d, uint(w.bits)); s.Cmp(a) != 0 {
				t.Fatalf("window%d: digits of %x sum to %x", w.op, a, s)
			}
		}
		w := t.Range(3, 6)
		d := scWindow(100+w, 256, x)
		if s := sum(d, 1); s.Cmp(a) != 0 {
			t.Fatalf("slide %d: digits of %x sum to %x", w, a, s)
		}
		for i, v := range d {
			if m := 1<<uint(w-1) - 1; v != 0 && (v > m || v < -m || v&1 == 0) {
				t.Fatalf("slide %d of %x: digit %d is %d", w, a, i, v)
			}
		}
		if n := scBitLen(x); n != a.BitLen() {
			t.Fatalf("bitlen of %x is %d", a, n)
		}
		k := t.Intn(256)
		if n := scBit(x, k); n != int(a.Bit(k)) {
			t.Fatalf("tstbit %d of %x is %d", k, a, n)
		}
	}})
	reg(&pbt.Law{Name: "c-group", Rule: "group add, double, negate, equals, isneutral and their _publicinputs twins, on pairs of points (edge biased; a third of them equal, opposite or differing by torsion) in random representations; non-trivial: all", Quick: 30000, Thorough: 2000000, Run: func(t *pbt.T) {
		a, x, c := even(t)
		b, y, _ := even(t)
		switch t.Intn(6) {
		case 4:
			b = a
			y = rep(t, a)
		case 5:
			b = ref.NegA(a)
			y = rep(t, b)
		}
		t.Class(c)
		t.NonTrivial()
		t.Note("a = %x, b = %x", ref.Encode(a), ref.Encode(b))
		want := []ref.Aff{ref.AddA(a, b), ref.DoubleA(a), ref.NegA(a)}
		k := t.Intn(2)
		for i, w := range want {
			var r cge
			geBin(2*i+k, &r, x, y)
			same(t, []string{"add", "double", "negate"}[i], &r, w)
			// in place, as the reference itself calls them
			r = *x
			geBin(2*i+k, &r, &r, y)
			same(t, []string{"add", "double", "negate"}[i]+" in place", &r, w)
		}
		eq := ref.Equal(a, b)
		id := ref.Equal(a, ref.Identity)
		for i, w := range []bool{eq, eq, id, id} {
			if got := gePred(i, x, y); got != b2i(w) {
				t.Fatalf("group predicate %d: %d, want %v", i, got, w)
			}
		}
		same(t, "operand afterwards", x, a)
		same(t, "operand afterwards", y, b)
	}})
	reg(&pbt.Law{Name: "c-mult", Rule: "scalar multiplication, base multiplication and their _publicinputs twins on edge-biased scalars below l (and digit patterns); non-trivial: scalar > 1", Quick: 16000, Thorough: 1500000, Run: func(t *pbt.T) {
		k, c := gen.ScalarBig(t)
		t.Class(c)
		t.NonTrivialIf(k.BitLen() > 1)
		op := t.Weighted(2, 1, 4, 2)
		var r cge
		s := mksc(k)
		if op < 2 {
			a, x, _ := even(t)
			t.Note("a = %x, k = %x", ref.Encode(a), k)
			geMult(op, &r, x, s)
			same(t, "scalarmult", &r, ref.MulA(a, k))
			same(t, "operand afterwards", x, a)
		} else {
			t.Note("k = %x", k)
			geMult(op, &r, nil, s)
			same(t, "scalarmult_base", &r, gen.MulBase(k))
		}
		wantSc(t, "scalar afterwards", s, k)
	}})
	reg(&pbt.Law{Name: "c-base-table", Rule: "exhaustive over the table of base multiples: for each of the 85 windows and each digit value 1..4 and -1..-4, base multiplication by (digit) 8^window plus a random other part; non-trivial: all", Enum: 85 * 8, Quick: 85 * 8, Thorough: 85 * 8 * 20, Run: func(t *pbt.T) {
		i := t.Intn(85 * 8)
		t.NonTrivial()
		w, d := i/8, i%8
		k := big.NewInt(int64([]int{1, 2, 3, 4, -1, -2, -3, -4}[d]))
		k.Lsh(k, uint(3*w))
		if t.Bool() {
			o, _ := gen.ScalarBig(t)
			o.Rsh(o, uint(t.Intn(252)))
			k.Add(k, o)
		}
		k.Mod(k, ref.L)
		t.Note("window %d digit %d, k = %x", w, d, k)
		var r cge
		geMult(2, &r, nil, mksc(k))
		same(t, "scalarmult_base", &r, gen.MulBase(k))
	}})
	reg(&pbt.Law{Name: "c-multi", Rule: "multi-scalar multiplication of 0 to 6 points; non-trivial: at least two points", Quick: 2500, Thorough: 250000, Run: func(t *pbt.T) {
		n := t.Intn(7)
		t.NonTrivialIf(n > 1)
		xs, ss := make([]cge, n), make([]csc, n)
		sum := ref.Identity
		for i := range xs {
			a, x, _ := even(t)
			k, _ := gen.ScalarBig(t)
			t.Note("%x * %x", k, ref.Encode(a))
			xs[i], ss[i] = *x, *mksc(k)
			sum = ref.AddA(sum, ref.MulA(a, k))
		}
		var r cge
		geMulti(t.Intn(2), &r, xs, ss)
		same(t, "multiscalarmult", &r, sum)
	}})
	reg(&pbt.Law{Name: "c-jacobi", Rule: "group_ge_from_jacobi_quartic: the point of the quartic over an even point maps to a point of the same class; built by inverting the map in the model; non-trivial: all", Quick: 20000, Thorough: 1000000, Run: func(t *pbt.T) {
		a, _ := gen.Even(t)
		// y = (1-s^2)/(1+s^2), x = 2s/(t sqrt(ad-1)) with the sign of t free
		if a.X == ref.Zero || a.Y == ref.Zero {
			return
		}
		t.NonTrivial()
		t.Note("%x", ref.Encode(a))
		q := ref.Mul(ref.Sub(ref.One, a.Y), ref.Inv(ref.Add(ref.One, a.Y)))
		s, ok := ref.Sqrt(q)
		if !ok {
			t.Fatalf("HARNESS: an even point without s")
		}
		if t.Bool() {
			s = ref.Neg(s)
		}
		// x = 2 s magic / t with magic = 1/sqrt(-d-1)
		_, magic := ref.SqrtRatio(ref.One, ref.Neg(ref.Add(ref.D, ref.One)))
		tt := ref.Mul(ref.Mul(ref.Add(s, s), magic), ref.Inv(a.X))
		var r cge
		geJacobi(&r, operand(t, s), operand(t, tt))
		x, y, z, _ := geCoords(&r)
		zi := ref.Inv(z)
		got := ref.Aff{X: ref.Mul(x, zi), Y: ref.Mul(y, zi)}
		if got != a && got != ref.NegA(a) {
			t.Fatalf("got (%s, %s), want ±(%s, %s)", got.X.Hex(), got.Y.Hex(), a.X.Hex(), a.Y.Hex())
		}
		if neg := ref.NegA(got); got.X != a.X && neg.X != a.X {
			t.Fatalf("x")
		}
	}})
}
