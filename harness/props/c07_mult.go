package props

import (
	"math/big"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// multScalar draws a scalar biased to window/NAF digit patterns.
func multScalar(t *pbt.T, limit *big.Int) (*big.Int, string) {
	x := new(big.Int)
	c := ""
	switch t.Weighted(3, 5, 5, 4, 8) {
	case 0:
		x.SetInt64(int64(t.Intn(70)))
		c = "small"
	case 1: // signed digits of one window size
		w := []uint{4, 5}[t.Intn(2)]
		half := 1 << (w - 1)
		fav := t.Range(-half, half)
		for i := 0; i*int(w) < 253; i++ {
			d := fav
			if t.Intn(4) == 0 {
				d = t.Range(-half, half)
			}
			x.Add(x, new(big.Int).Lsh(big.NewInt(int64(d)), uint(i)*w))
		}
		c = "signed-digits"
	case 2: // few signed digits anywhere
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			d := t.Range(-31, 31)
			x.Add(x, new(big.Int).Lsh(big.NewInt(int64(d)), uint(t.Intn(252))))
		}
		c = "few-digits"
	case 3: // top of the range
		x.Sub(limit, big.NewInt(int64(1+t.Intn(70))))
		c = "top"
	default:
		x, c = gen.ScalarBig(t)
	}
	x.Mod(x, limit)
	t.Note("scalar %x [%s]", x, c)
	t.Class("scalar-" + c)
	return x, c
}

var two253 = new(big.Int).Lsh(oneB, 253)

func init() {
	reg("C07", &pbt.Law{Name: "direct", Rule: "scalars with extreme signed-window (4 and 5 bit) and NAF digits, few digits, top of the range, edge classes; points of all classes in all representations; direct constant-time and public multiplication (into another variable and in place), and base multiplication (both), against double-and-add in the model; non-trivial: scalar or point not uniform", Quick: 40000, Thorough: 1000000, Run: func(t *pbt.T) {
		a, p, c := even(t)
		x, cs := multScalar(t, ref.L)
		t.NonTrivialIf(cs != "uniform" || c == "identity" || c == "small-multiple")
		s := scalarOf(x)
		want := ref.MulA(a, x)
		r := garbagePoint(t)
		if r.ScalarMult(p, s) != r {
			t.Fatalf("ScalarMult did not return its receiver")
		}
		samePoint(t, "ScalarMult", r, want)
		r = garbagePoint(t)
		if r.PublicScalarMult(p, s) != r {
			t.Fatalf("PublicScalarMult did not return its receiver")
		}
		samePoint(t, "PublicScalarMult", r, want)
		*r = *p // in place
		samePoint(t, "PublicScalarMult in place", r.PublicScalarMult(r, s), want)
		*r = *p
		samePoint(t, "ScalarMult in place", r.ScalarMult(r, s), want)
		wb := gen.MulBase(x)
		r = garbagePoint(t)
		r.ScalarMultBase(s)
		samePoint(t, "ScalarMultBase", r, wb)
		r = garbagePoint(t)
		r.PublicScalarMultBase(s)
		samePoint(t, "PublicScalarMultBase", r, wb)
	}})
	reg("C07", &pbt.Law{Name: "base", Rule: "base multiplication only (cheap, so many more scalars), both variants, against the model's comb; non-trivial: scalar not uniform", Quick: 150000, Thorough: 4000000, Run: func(t *pbt.T) {
		x, cs := multScalar(t, ref.L)
		t.NonTrivialIf(cs != "uniform")
		s := scalarOf(x)
		wb := gen.MulBase(x)
		var r, q rist.Point
		r.ScalarMultBase(s)
		samePoint(t, "ScalarMultBase", &r, wb)
		q.PublicScalarMultBase(s)
		samePoint(t, "PublicScalarMultBase", &q, wb)
	}})
	reg("C07", &pbt.Law{Name: "digits", Rule: "exhaustive: every single signed digit d*16^i (i<63, |d|<=8) and d*32^i (i<=50, |d|<=16) and d*2^i for odd |d|<=15 as scalar (mod l), for the base table, a computed table, direct and public multiplication; non-trivial: all", Enum: 63*17 + 51*33 + 253*16, Quick: 63*17 + 51*33 + 253*16, Thorough: 5 * (63*17 + 51*33 + 253*16), Run: func(t *pbt.T) {
		k := t.Intn(63*17 + 51*33 + 253*16)
		x := new(big.Int)
		switch {
		case k < 63*17:
			x.Lsh(big.NewInt(int64(k%17-8)), uint(4*(k/17)))
		case k < 63*17+51*33:
			k -= 63 * 17
			x.Lsh(big.NewInt(int64(k%33-16)), uint(5*(k/33)))
		default:
			k -= 63*17 + 51*33
			x.Lsh(big.NewInt(int64(2*(k%16)-15)), uint(k/16))
		}
		x.Mod(x, ref.L)
		t.NonTrivial()
		t.Note("scalar %x", x)
		s := scalarOf(x)
		wb := gen.MulBase(x)
		var r rist.Point
		samePoint(t, "ScalarMultBase", r.ScalarMultBase(s), wb)
		samePoint(t, "PublicScalarMultBase", r.PublicScalarMultBase(s), wb)
		ft := fixedTable()
		w := ref.MulA(ft.a, x)
		samePoint(t, "ScalarMultTable", r.ScalarMultTable(&ft.tab, s), w)
		samePoint(t, "PublicScalarMultTable", r.PublicScalarMultTable(&ft.tab, s), w)
		samePoint(t, "ScalarMult", r.ScalarMult(&ft.p, s), w)
		samePoint(t, "PublicScalarMult", r.PublicScalarMult(&ft.p, s), w)
	}})
	reg("C07", &pbt.Law{Name: "tables", Rule: "histories of 1-3 Compute calls on one table variable (previous contents garbage or another point's table), each followed by 1-6 multiplications with both variants, with copies of the table; non-trivial: recomputed table or identity/special point or non-uniform scalar", Quick: 5000, Thorough: 150000, Run: func(t *pbt.T) {
		var tab rist.ScalarMultTable
		n := t.Range(1, 3)
		t.NonTrivialIf(n > 1)
		if t.Bool() {
			t.Relate()
		}
		for i := 0; i < n; i++ {
			a, p, c := even(t)
			keep := *p
			tab.Compute(p)
			if keep != *p {
				a2, bad := affOf(ext(p))
				if bad != "" || !ref.Equal(a2, a) {
					t.Fatalf("Compute changed its argument")
				}
			}
			// the table must not depend on p any more
			if t.Bool() {
				p.SetBase()
			}
			use := &tab
			if t.Bool() {
				cp := tab
				use = &cp
			}
			for j, m := 0, t.Range(1, 6); j < m; j++ {
				x, cs := multScalar(t, ref.L)
				t.NonTrivialIf(cs != "uniform" || c == "identity")
				s := scalarOf(x)
				want := ref.MulA(a, x)
				r := garbagePoint(t)
				if t.Bool() {
					r.ScalarMultTable(use, s)
					samePoint(t, "ScalarMultTable", r, want)
				} else {
					r.PublicScalarMultTable(use, s)
					samePoint(t, "PublicScalarMultTable", r, want)
				}
			}
		}
	}})

	// --- C08: exact curve arithmetic ---
	reg("C08", &pbt.Law{Name: "addition", Rule: "pairs of curve points from all eight cosets (torsion points, odd points, edge points) in random projective and limb representations; special partners with probability 1/2; every route: extended, completed->extended, completed->projective, Niels add/sub; non-trivial: torsion, odd, or special partner", Quick: 150000, Thorough: 3000000, Run: func(t *pbt.T) {
		a, ca := gen.Curve(t)
		b, cb := gen.Curve(t)
		name := "unrelated"
		switch t.Intn(10) {
		case 0:
			b, name = a, "same"
		case 1:
			b, name = ref.NegA(a), "opposite"
		case 2:
			b, name = ref.AddA(a, ref.Tors[t.Intn(8)]), "torsion-shift"
		case 3:
			b, name = ref.AddA(ref.NegA(a), ref.Tors[t.Intn(8)]), "neg-torsion-shift"
		case 4:
			b, name = ref.Identity, "identity"
		}
		p, c1 := repExact(t, a)
		q, c2 := repExact(t, b)
		t.Note("p %s [%s %s] q %s [%s %s] (%s)", affStr(a), ca, c1, affStr(b), cb, c2, name)
		t.Class(name)
		t.NonTrivialIf(name != "unrelated" || ca == "torsion" || cb == "torsion" || len(ca) > 3 && ca[:3] == "odd")
		var r ed.ExtendedPoint
		var cp ed.CompletedPoint
		var pp ed.ProjectivePoint
		var np, nn ed.NielsPoint
		viaCompleted := func(what string, want ref.Aff) {
			exactPoint(t, what, r.SetCompleted(&cp), want)
			pp.SetCompleted(&cp)
			exactProj(t, what+" (projective)", &pp, want)
		}
		sum, diff := ref.AddA(a, b), ref.SubA(a, b)
		switch t.Intn(4) {
		case 0:
			t.Class("extended")
			exactPoint(t, "Add", r.Add(p, q), sum)
			exactPoint(t, "Sub", r.Sub(p, q), diff)
			exactPoint(t, "Neg", r.Neg(p), ref.NegA(a))
			exactPoint(t, "Set", r.Set(p), a)
		case 1:
			t.Class("completed")
			cp.AddExtended(p, q)
			viaCompleted("AddExtended", sum)
			cp.SubExtended(p, q)
			viaCompleted("SubExtended", diff)
		case 2:
			t.Class("niels")
			np.SetExtended(q)
			cp.AddExtendedNiels(p, &np)
			viaCompleted("AddExtendedNiels", sum)
			cp.SubExtendedNiels(p, &np)
			viaCompleted("SubExtendedNiels", diff)
			nn.Neg(&np)
			cp.AddExtendedNiels(p, &nn)
			viaCompleted("AddExtendedNiels(Neg)", diff)
			nn.Set(&np)
			cp.AddExtendedNiels(p, &nn)
			viaCompleted("AddExtendedNiels(Set)", sum)
			nn.SetZero()
			cp.AddExtendedNiels(p, &nn)
			viaCompleted("AddExtendedNiels(0)", a)
		case 3:
			t.Class("doubling")
			exactPoint(t, "Double", r.Double(p), ref.DoubleA(a))
			cp.DoubleExtended(p)
			viaCompleted("DoubleExtended", ref.DoubleA(a))
			pp.SetExtended(p)
			exactProj(t, "SetExtended", &pp, a)
			cp.DoubleProjective(&pp)
			viaCompleted("DoubleProjective", ref.DoubleA(a))
			// repeated doubling staying in projective form
			w := ref.DoubleA(a)
			for i, n := 0, t.Range(1, 4); i < n; i++ {
				pp.SetCompleted(&cp)
				cp.DoubleProjective(&pp)
				w = ref.DoubleA(w)
			}
			viaCompleted("repeated DoubleProjective", w)
		}
	}})
	reg("C08", &pbt.Law{Name: "multiplication", Rule: "curve points from all cosets; scalars below 2^253 (not reduced); ScalarMult and VarTimeScalarMult, and base table variants, exact result; non-trivial: odd/torsion point or non-uniform scalar", Quick: 30000, Thorough: 800000, Run: func(t *pbt.T) {
		a, ca := gen.Curve(t)
		p, _ := repExact(t, a)
		lim := two253
		if t.Bool() {
			lim = ref.L
		}
		x, cs := multScalar(t, lim)
		t.Note("p %s [%s]", affStr(a), ca)
		t.NonTrivialIf(cs != "uniform" || ca == "torsion" || len(ca) > 3 && ca[:3] == "odd")
		b := ref.BigToLE32(x)
		in := b
		want := ref.MulA(a, x)
		r := ext(garbagePoint(t))
		exactPoint(t, "ScalarMult", r.ScalarMult(p, &b), want)
		r = ext(garbagePoint(t))
		exactPoint(t, "VarTimeScalarMult", r.VarTimeScalarMult(p, &b), want)
		*r = *p // in place
		exactPoint(t, "VarTimeScalarMult in place", r.VarTimeScalarMult(r, &b), want)
		*r = *p
		exactPoint(t, "ScalarMult in place", r.ScalarMult(r, &b), want)
		wb := gen.MulBase(x)
		r = ext(garbagePoint(t))
		ed.BaseScalarMultTable.ScalarMult(r, &b)
		samePoint(t, "BaseScalarMultTable.ScalarMult", pt(r), wb)
		r = ext(garbagePoint(t))
		ed.BaseScalarMultTable.VarTimeScalarMult(r, &b)
		samePoint(t, "BaseScalarMultTable.VarTimeScalarMult", pt(r), wb)
		if b != in {
			t.Fatalf("scalar buffer changed")
		}
	}})
	reg("C08", &pbt.Law{Name: "tables", Rule: "histories of 1-3 Compute calls on one table for points of all cosets, often related to the one before (same, opposite, double, differing by torsion), each multiplied by scalars below 2^253, both variants, exact; non-trivial: odd or torsion point, recomputed table or non-uniform scalar", Quick: 4000, Thorough: 120000, Run: func(t *pbt.T) {
		var tab ed.ScalarMultTable
		n := t.Range(1, 3)
		t.NonTrivialIf(n > 1)
		if t.Bool() {
			t.Relate()
		}
		for k := 0; k < n; k++ {
			a, ca := gen.Curve(t)
			p, _ := repExact(t, a)
			t.Note("p %s [%s]", affStr(a), ca)
			tab.Compute(p)
			exactPoint(t, "operand of Compute", p, a)
			for i, m := 0, t.Range(1, 3); i < m; i++ {
				x, cs := multScalar(t, two253)
				t.NonTrivialIf(cs != "uniform" || ca == "torsion" || len(ca) > 3 && ca[:3] == "odd")
				b := ref.BigToLE32(x)
				want := ref.MulA(a, x)
				r := ext(garbagePoint(t))
				tab.ScalarMult(r, &b)
				exactPoint(t, "ScalarMultTable.ScalarMult", r, want)
				r = ext(garbagePoint(t))
				tab.VarTimeScalarMult(r, &b)
				exactPoint(t, "ScalarMultTable.VarTimeScalarMult", r, want)
			}
		}
	}})
	reg("C08", &pbt.Law{Name: "constants", Rule: "the named points over arbitrary previous contents: zero, base, the three 4-torsion points, projective zero; non-trivial: all", Quick: 2000, Thorough: 20000, Run: func(t *pbt.T) {
		t.NonTrivial()
		e := ext(garbagePoint(t))
		exactPoint(t, "SetZero", e.SetZero(), ref.Identity)
		e = ext(garbagePoint(t))
		samePoint(t, "SetBase", pt(e.SetBase()), ref.Base)
		e = ext(garbagePoint(t))
		exactPoint(t, "SetTorsion1", e.SetTorsion1(), ref.Aff{X: ref.Zero, Y: ref.MinusOne})
		e = ext(garbagePoint(t))
		exactPoint(t, "SetTorsion2", e.SetTorsion2(), ref.Aff{X: ref.I, Y: ref.Zero})
		e = ext(garbagePoint(t))
		exactPoint(t, "SetTorsion3", e.SetTorsion3(), ref.Aff{X: ref.Neg(ref.I), Y: ref.Zero})
		var pp ed.ProjectivePoint
		a, _ := gen.Curve(t)
		p, _ := repExact(t, a)
		pp.SetExtended(p)
		pp.SetZero()
		exactProj(t, "ProjectivePoint.SetZero", &pp, ref.Identity)
	}})
}

func exactProj(t *pbt.T, what string, p *ed.ProjectivePoint, want ref.Aff) {
	z := feOf(&p.Z)
	if z == ref.Zero {
		t.Fatalf("%s: Z = 0", what)
	}
	zi := ref.Inv(z)
	got := ref.Aff{X: ref.Mul(feOf(&p.X), zi), Y: ref.Mul(feOf(&p.Y), zi)}
	if got != want {
		t.Fatalf("%s = %s, want %s", what, affStr(got), affStr(want))
	}
}

type fixedTab struct {
	a   ref.Aff
	p   rist.Point
	tab rist.ScalarMultTable
}

var fixed *fixedTab

// fixedTable is a table for one ordinary point, computed once per process.
func fixedTable() *fixedTab {
	if fixed == nil {
		f := &fixedTab{a: ref.Map(ref.FromU64(12345))}
		f.p = *pt(libExt(f.a, ref.One))
		f.tab.Compute(&f.p)
		fixed = f
	}
	return fixed
}
