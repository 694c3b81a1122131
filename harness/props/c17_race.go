package props

import (
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
	"vh/runner"
)

// sharedData is what all goroutines read.
type sharedData struct {
	p    [3]rist.Point
	s    [3]rist.Scalar
	f    [3]ed.FieldElement
	n    [2]ed.NielsPoint
	c    ed.CompletedPoint
	pr   ed.ProjectivePoint
	j    ed.JacobiPoint
	tab  rist.ScalarMultTable
	buf  [2][32]byte // an Elligator string and a valid encoding
	wide [64]byte
	liz  [16]byte
	data []byte
	text []byte
}

type concOp struct {
	name string
	run  func(d *sharedData, i, j int) string
}

func pstr(p *rist.Point) string { return hx(p.Bytes()) }

var concOps = []concOp{
	{"Add", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).Add(&d.p[i], &d.p[j])) }},
	{"Sub", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).Sub(&d.p[i], &d.p[j])) }},
	{"Double", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).Double(&d.p[i])) }},
	{"Neg", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).Neg(&d.p[i])) }},
	{"Set", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).Set(&d.p[i])) }},
	{"Bytes", func(d *sharedData, i, j int) string { return pstr(&d.p[i]) }},
	{"BytesInto", func(d *sharedData, i, j int) string { var b [32]byte; d.p[i].BytesInto(&b); return hx(b[:]) }},
	{"MarshalText", func(d *sharedData, i, j int) string { b, _ := d.p[i].MarshalText(); return string(b) }},
	{"MarshalBinary", func(d *sharedData, i, j int) string { b, _ := d.p[i].MarshalBinary(); return hx(b) }},
	{"String", func(d *sharedData, i, j int) string { return d.p[i].String() + d.s[j].String() }},
	{"Equals", func(d *sharedData, i, j int) string {
		return fmt.Sprint(d.p[i].Equals(&d.p[j]), d.p[j].EqualsI(&d.p[i]))
	}},
	{"ConditionalSet", func(d *sharedData, i, j int) string {
		var r rist.Point
		r.SetZero()
		r.ConditionalSet(&d.p[i], int32(j&1))
		return pstr(&r)
	}},
	{"ScalarMult", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).ScalarMult(&d.p[i], &d.s[j])) }},
	{"PublicScalarMult", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).PublicScalarMult(&d.p[i], &d.s[j])) }},
	{"ScalarMultBase", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).ScalarMultBase(&d.s[j])) }},
	{"PublicScalarMultBase", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).PublicScalarMultBase(&d.s[j])) }},
	{"ScalarMultTable", func(d *sharedData, i, j int) string {
		return pstr(new(rist.Point).ScalarMultTable(&d.tab, &d.s[j]))
	}},
	{"PublicScalarMultTable", func(d *sharedData, i, j int) string {
		return pstr(new(rist.Point).PublicScalarMultTable(&d.tab, &d.s[j]))
	}},
	{"Compute", func(d *sharedData, i, j int) string {
		var t rist.ScalarMultTable
		t.Compute(&d.p[i])
		return pstr(new(rist.Point).ScalarMultTable(&t, &d.s[j]))
	}},
	{"SetElligator", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).SetElligator(&d.buf[0])) }},
	{"SetBytes", func(d *sharedData, i, j int) string {
		var r rist.Point
		ok := r.SetBytes(&d.buf[1])
		return fmt.Sprint(ok) + pstr(&r)
	}},
	{"SetBytesInvalid", func(d *sharedData, i, j int) string {
		var r rist.Point
		b := ref.MinusOne.Bytes()
		return fmt.Sprint(r.SetBytes(&b))
	}},
	{"Unmarshal", func(d *sharedData, i, j int) string {
		var r, q rist.Point
		e1 := r.UnmarshalText(d.text)
		e2 := q.UnmarshalBinary(d.buf[1][:])
		return fmt.Sprint(e1, e2) + pstr(&r) + pstr(&q)
	}},
	{"Derive", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).Derive(d.data)) }},
	{"DeriveDalek", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).DeriveDalek(d.data)) }},
	{"SetLizard", func(d *sharedData, i, j int) string { return pstr(new(rist.Point).SetLizard(&d.liz)) }},
	{"Lizard", func(d *sharedData, i, j int) string { return hx(d.p[i].Lizard()) }},
	{"Rand", func(d *sharedData, i, j int) string {
		var p rist.Point
		var s rist.Scalar
		p.Rand()
		s.Rand()
		return ""
	}},
	{"ElligatorInverse", func(d *sharedData, i, j int) string {
		var fes [8]ed.FieldElement
		m := ext(&d.p[i]).RistrettoElligator2Inverse(&fes)
		out := fmt.Sprint(m)
		for k := range fes {
			if m>>uint(k)&1 == 1 {
				out += feHex(&fes[k])
			}
		}
		return out
	}},
	{"Jacobi", func(d *sharedData, i, j int) string {
		var qs [4]ed.JacobiPoint
		ext(&d.p[i]).ToJacobiQuarticRistretto(&qs)
		var dual ed.JacobiPoint
		dual.Dual(&d.j)
		var cp ed.CompletedPoint
		cp.SetJacobiQuartic(&d.j)
		var e ed.ExtendedPoint
		e.SetCompleted(&cp)
		return feHex(&qs[0].S) + feHex(&dual.S) + hx(e.Ristretto())
	}},
	{"Elligator2", func(d *sharedData, i, j int) string {
		var cp ed.CompletedPoint
		cp.SetRistrettoElligator2(&d.f[i])
		var e ed.ExtendedPoint
		e.SetCompleted(&cp)
		return hx(e.Ristretto())
	}},
	{"Completed", func(d *sharedData, i, j int) string {
		var e, g ed.ExtendedPoint
		e.SetCompleted(&d.c)
		var pr ed.ProjectivePoint
		pr.SetCompleted(&d.c)
		var cp ed.CompletedPoint
		cp.DoubleProjective(&d.pr)
		g.SetCompleted(&cp)
		return extVal(&e) + projVal(&pr) + extVal(&g)
	}},
	{"Niels", func(d *sharedData, i, j int) string {
		var cp ed.CompletedPoint
		var e, g ed.ExtendedPoint
		cp.AddExtendedNiels(ext(&d.p[i]), &d.n[j&1])
		e.SetCompleted(&cp)
		cp.SubExtendedNiels(ext(&d.p[i]), &d.n[j&1])
		g.SetCompleted(&cp)
		var m ed.NielsPoint
		m.Neg(&d.n[0])
		m.ConditionalSet(&d.n[1], int32(j&1))
		return extVal(&e) + extVal(&g) + nielsVal(&m)
	}},
	{"EdwardsMult", func(d *sharedData, i, j int) string {
		var e, g ed.ExtendedPoint
		e.ScalarMult(ext(&d.p[i]), &d.buf[0])
		g.VarTimeScalarMult(ext(&d.p[i]), &d.buf[0])
		return hx(e.Ristretto()) + hx(g.Ristretto())
	}},
	{"ScalarArith", func(d *sharedData, i, j int) string {
		var a, b, c, e, f rist.Scalar
		a.Add(&d.s[i], &d.s[j])
		b.Sub(&d.s[i], &d.s[j])
		c.Mul(&d.s[i], &d.s[j])
		e.MulAdd(&d.s[i], &d.s[j], &d.s[0])
		f.MulSub(&d.s[i], &d.s[j], &d.s[0])
		return scalarVal(&a) + scalarVal(&b) + scalarVal(&c) + scalarVal(&e) + scalarVal(&f)
	}},
	{"ScalarUnary", func(d *sharedData, i, j int) string {
		var a, b, c rist.Scalar
		a.Neg(&d.s[i])
		b.Square(&d.s[i])
		c.Set(&d.s[i])
		c.ConditionalSet(&d.s[j], 1)
		return scalarVal(&a) + scalarVal(&b) + scalarVal(&c)
	}},
	{"ScalarInverse", func(d *sharedData, i, j int) string { return scalarVal(new(rist.Scalar).Inverse(&d.s[i])) }},
	{"ScalarSet", func(d *sharedData, i, j int) string {
		var a, b, c, e rist.Scalar
		a.SetBytes(&d.buf[0])
		b.SetReduced(&d.wide)
		c.Derive(d.data)
		e.DeriveShort(d.data)
		return scalarVal(&a) + scalarVal(&b) + scalarVal(&c) + scalarVal(&e) + fmt.Sprint(e.SetBytesStrict(&d.buf[0]))
	}},
	{"ScalarObserve", func(d *sharedData, i, j int) string {
		t, _ := d.s[i].MarshalText()
		return fmt.Sprint(d.s[i].Equals(&d.s[j]), d.s[i].EqualsI(&d.s[j]), d.s[i].IsNonZeroI(), d.s[i].BigInt()) + hx(d.s[i].Bytes()) + string(t)
	}},
	{"FieldArith", func(d *sharedData, i, j int) string {
		var a, b, c, e, f, g ed.FieldElement
		a.Add(&d.f[i], &d.f[j])
		b.Sub(&d.f[i], &d.f[j])
		c.Mul(&d.f[i], &d.f[j])
		e.Square(&d.f[i])
		f.DoubledSquare(&d.f[i])
		g.Neg(&d.f[i])
		return feHex(&a) + feHex(&b) + feHex(&c) + feHex(&e) + feHex(&f) + feHex(&g)
	}},
	{"FieldRoots", func(d *sharedData, i, j int) string {
		var a, b, c, e ed.FieldElement
		a.Inverse(&d.f[i])
		r := b.InvSqrtI(&d.f[i])
		c.Abs(&d.f[i])
		e.Exp22523(&d.f[i])
		return fmt.Sprint(r) + feHex(&a) + feHex(&b) + feHex(&c) + feHex(&e)
	}},
	{"FieldObserve", func(d *sharedData, i, j int) string {
		b := d.f[i].Bytes()
		return fmt.Sprint(d.f[i].Equals(&d.f[j]), d.f[i].EqualsI(&d.f[j]), d.f[i].IsNegativeI(), d.f[i].IsNonZeroI(), d.f[i].IsOneI(), d.f[i].BigInt(), d.f[i].String()) + hx(b[:])
	}},
	{"Constants", func(d *sharedData, i, j int) string {
		var e ed.ExtendedPoint
		var f ed.FieldElement
		var p rist.Point
		f.SetI()
		f.Mul(&f, &d.f[i])
		e.SetBase()
		e.Add(&e, ext(&d.p[i]))
		p.SetBase()
		e.SetTorsion2()
		p.SetZero()
		var m ed.NielsPoint
		m.Set(&ed.BaseScalarMultTable[i][j])
		return feHex(&f) + nielsVal(&m)
	}},
}

func makeShared(t *pbt.T) *sharedData {
	d := &sharedData{}
	for i := range d.p {
		_, p, _ := even(t)
		d.p[i] = *p
	}
	for i := range d.s {
		x, _ := gen.ScalarBig(t)
		if x.Sign() == 0 {
			x.SetInt64(5)
		}
		d.s[i] = *scalarOf(x)
	}
	for i := range d.f {
		v := gen.FeNonZero(t)
		d.f[i] = *looseFe(t, v)
	}
	for i := range d.n {
		a, _ := gen.Curve(t)
		d.n[i] = *refNiels(a)
	}
	a, _ := gen.Curve(t)
	setFe(&d.c.X, a.X)
	setFe(&d.c.Z, ref.One)
	setFe(&d.c.Y, a.Y)
	setFe(&d.c.T, ref.One)
	setFe(&d.pr.X, a.X)
	setFe(&d.pr.Y, a.Y)
	setFe(&d.pr.Z, ref.One)
	// (0, 1) is on the quartic
	setFe(&d.j.T, ref.One)
	d.buf[0], _ = gen.ElligatorBytes(t)
	d.buf[0][31] &= 0x0f
	e, _ := gen.Even(t)
	d.buf[1] = ref.Encode(e)
	t.Fill(d.wide[:])
	t.Fill(d.liz[:])
	d.data = []byte("shared data")
	d.text = []byte(b64.EncodeToString(d.buf[1][:]))
	return d
}

// refNiels builds a Niels point from the model.
func refNiels(a ref.Aff) *ed.NielsPoint {
	var n ed.NielsPoint
	setFe(&n.YPlusX, ref.Add(a.Y, a.X))
	setFe(&n.YMinusX, ref.Sub(a.Y, a.X))
	setFe(&n.XY2D, ref.Mul(ref.TwoD, ref.Mul(a.X, a.Y)))
	return &n
}

type concStep struct{ op, i, j int }

func runSteps(d *sharedData, steps []concStep) (out []string) {
	defer func() {
		if e := recover(); e != nil {
			out = append(out, fmt.Sprint("panic: ", e))
		}
	}()
	for _, s := range steps {
		out = append(out, concOps[s.op].run(d, s.i, s.j))
	}
	return
}

// together runs each list of steps in its own goroutine, all starting at once.
func together(d *sharedData, progs [][]concStep) [][]string {
	out := make([][]string, len(progs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range progs {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			out[g] = runSteps(d, progs[g])
		}(g)
	}
	close(start)
	wg.Wait()
	return out
}

// schedule says when goroutines take turns, in a build made for that.
type schedule struct {
	seed         uint64
	rate, places uint64
	at, pause    []uint64
}

// drawSchedule draws a schedule for code that, run alone, passes places this often.
func drawSchedule(t *pbt.T, passed map[uint64]int) schedule {
	s := schedule{seed: t.Raw()}
	var all, rare, shared []uint64
	statements := uint64(0)
	for p, n := range passed {
		all = append(all, p)
		statements += uint64(n)
		if n <= 12 {
			rare = append(rare, p)
		}
		if p>>30 != 0 { // near a variable of the package
			shared = append(shared, p)
		}
	}
	if len(all) == 0 {
		statements = 10000
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	sort.Slice(shared, func(i, j int) bool { return shared[i] < shared[j] })
	sort.Slice(rare, func(i, j int) bool { return rare[i] < rare[j] })
	k := t.Intn(6)
	if k >= 3 && len(all) == 0 {
		k -= 3
	}
	switch k {
	case 0: // at random
		s.rate = []uint64{4, 20, 100, 500, 2500}[t.Intn(5)]
		t.Class("schedule: random")
	case 1: // at some places
		s.places = []uint64{2, 5, 10, 25, 60}[t.Intn(5)]
		t.Class("schedule: places")
	case 2: // a few times
		for k := t.Range(1, 5); k > 0; k-- {
			s.at = append(s.at, 1+t.Raw()%statements)
		}
		sort.Slice(s.at, func(i, j int) bool { return s.at[i] < s.at[j] })
		t.Class("schedule: few")
	default: // long, at one or a few places
		for k := []int{1, 1, 2, 4, 8}[t.Intn(5)]; k > 0; k-- {
			if len(shared) > 0 && t.Bool() {
				s.pause = append(s.pause, shared[t.Intn(len(shared))])
			} else if len(rare) > 0 && !t.OneIn(4) {
				s.pause = append(s.pause, rare[t.Intn(len(rare))])
			} else {
				s.pause = append(s.pause, all[t.Intn(len(all))])
			}
		}
		t.Class("schedule: pause")
	}
	for i := range s.pause {
		s.pause[i] &^= 1 << 30
	}
	t.Note("schedule %+v", s)
	return s
}

func init() {
	reg("C17", &pbt.Law{Name: "interleavings", Rule: "2-3 goroutines, each 1-3 operations mostly of one or two kinds on shared operands, in a build where goroutines take turns before statements of the library as a generated schedule says (at random with varying rate, always at some places, long at a few places that are passed, most of them near variables of the package, or a few times in all), on one processor; results must equal those of each goroutine run alone, before (three of four cases, so that nothing is left to initialise) or afterwards; non-trivial: two goroutines use the same operation", Quick: 16000, Thorough: 2000000,
		Only: func(c string) bool { return strings.HasPrefix(c, "sched") }, Once: true, Run: func(t *pbt.T) {
			d := makeShared(t)
			progs := make([][]concStep, t.Range(2, 3))
			focus := [2]int{t.Intn(len(concOps)), t.Intn(len(concOps))}
			if concOps[focus[0]].name == "Compute" && !t.OneIn(4) {
				// slow
				focus[0] = t.Intn(len(concOps))
			}
			same := map[int]int{}
			for k := range progs {
				last := concStep{focus[0], t.Intn(3), t.Intn(3)}
				for n := t.Range(1, 3); n > 0; n-- {
					st := concStep{focus[0], t.Intn(3), t.Intn(3)}
					if t.Bool() {
						// the same operands again
						st = last
					}
					last = st
					switch t.Intn(6) {
					case 4:
						st.op = focus[1]
					case 5:
						st.op = t.Intn(len(concOps))
					}
					same[st.op] |= 1 << uint(k)
					progs[k] = append(progs[k], st)
					t.Note("goroutine %d: %s %d %d", k, concOps[st.op].name, st.i, st.j)
					t.Class(concOps[st.op].name)
				}
			}
			for op := range same {
				if usesTable(op) {
					d.tab.Compute(&d.p[0])
					break
				}
			}
			for _, m := range same {
				if m&(m-1) != 0 {
					t.NonTrivial()
				}
			}
			alone := func() (out [][]string) {
				for _, p := range progs {
					out = append(out, runSteps(d, p))
				}
				return
			}
			var want [][]string
			before := !t.OneIn(4)
			var passed map[uint64]int
			if before {
				passed = schedRecord(func() { want = alone() })
			}
			schedStart(drawSchedule(t, passed))
			got := together(d, progs)
			schedStop()
			if !before {
				want = alone()
			}
			for k := range progs {
				if len(got[k]) != len(want[k]) {
					t.Fatalf("goroutine %d: %v, alone %v", k, got[k], want[k])
				}
				for s := range want[k] {
					if got[k][s] != want[k][s] {
						t.Fatalf("goroutine %d, %s: %s, alone %s", k, concOps[progs[k][s].op].name, got[k][s], want[k][s])
					}
				}
			}
		}})
	reg("C17", &pbt.Law{Name: "shared", Only: func(c string) bool { return strings.HasPrefix(c, "race") }, Rule: "2-4 goroutines started together, each 1-6 operations (of all 40 operation kinds) with its own receivers on shared points, scalars, field elements, Niels points, tables, buffers and the base table, in loose representations; built with the race detector, which reports any unsynchronised conflicting access whatever the schedule; results must equal those of each goroutine run alone afterwards; non-trivial: two goroutines use the same operand kind", Quick: 1600, Thorough: 40000, NoShrink: true, Run: func(t *pbt.T) {
		d := makeShared(t)
		d.tab.Compute(&d.p[0])
		g := t.Range(2, 4)
		progs := make([][]concStep, g)
		focus := t.Intn(len(concOps))
		same := map[int]int{}
		for k := range progs {
			n := t.Range(1, 6)
			for s := 0; s < n; s++ {
				st := concStep{t.Intn(len(concOps)), t.Intn(3), t.Intn(3)}
				if t.OneIn(3) {
					st.op = focus
				}
				same[st.op] |= 1 << uint(k)
				progs[k] = append(progs[k], st)
				t.Note("goroutine %d: %s %d %d", k, concOps[st.op].name, st.i, st.j)
				t.Class(concOps[st.op].name)
			}
		}
		for _, m := range same {
			if m&(m-1) != 0 {
				t.NonTrivial()
			}
		}
		got := together(d, progs)
		for k := range progs {
			want := runSteps(d, progs[k])
			if len(got[k]) != len(want) {
				t.Fatalf("goroutine %d: %v, alone %v", k, got[k], want)
			}
			for s := range want {
				if got[k][s] != want[s] {
					t.Fatalf("goroutine %d, %s: %s, alone %s", k, concOps[progs[k][s].op].name, got[k][s], want[s])
				}
			}
		}
	}})
	reg("C17", &pbt.Law{Name: "first-use", Rule: "exhaustive over operation kinds: in a fresh process, the first use of the operation happens in four goroutines at once (so that lazily initialised state would be caught), under the race detector or with generated turns, and the four results must agree with each other, with a fifth made alone and with those of a process that had used everything before; non-trivial: all", Enum: len(concOps), Quick: 3 * len(concOps), Thorough: 30 * len(concOps), NoShrink: true, Only: func(c string) bool { return !strings.HasPrefix(c, "cref") }, Run: func(t *pbt.T) {
		op := t.Intn(len(concOps))
		x := t.Raw()
		t.NonTrivial()
		t.Note("first use of %s", concOps[op].name)
		cmd := exec.Command(os.Args[0], "-dict", runner.Dict, "-child", "firstuse", strconv.Itoa(op), strconv.FormatUint(x, 10))
		out, err := cmd.CombinedOutput()
		if err == nil && strings.Contains(string(out), "FIRSTUSE OK") {
			d, st, _ := firstUse(op, x)
			if want := fmt.Sprint(runSteps(d, st)); !strings.Contains(string(out), want) {
				t.Fatalf("first use of %s: %s, elsewhere %s", concOps[op].name, cut(string(out), 1500), cut(want, 1500))
			}
			return
		}
		s := string(out)
		if strings.Contains(s, "DATA RACE") {
			t.Fatalf("data race in the first use of %s:\n%s", concOps[op].name, cut(s, 2500))
		}
		if strings.Contains(s, "FIRSTUSE DIFFERS") {
			t.Fatalf("first use of %s: %s", concOps[op].name, cut(s, 2500))
		}
		t.Fatalf("HARNESS: child for %s: %v %s", concOps[op].name, err, cut(s, 1000))
	}})
	children["firstuse"] = func(args []string) {
		op, _ := strconv.Atoi(args[0])
		x, _ := strconv.ParseUint(args[1], 10, 64)
		d, st, sch := firstUse(op, x)
		schedStart(sch)
		got := together(d, [][]concStep{st, st, st, st})
		schedStop()
		want := runSteps(d, st)
		for k := range got {
			if fmt.Sprint(got[k]) != fmt.Sprint(want) {
				fmt.Printf("FIRSTUSE DIFFERS goroutine %d: %v, alone %v\n", k, got[k], want)
				os.Exit(1)
			}
		}
		fmt.Println("FIRSTUSE OK", want)
	}
	runner.Child = func(mode string, args []string) {
		f := children[mode]
		if f == nil {
			fmt.Fprintln(os.Stderr, "unknown child mode", mode)
			os.Exit(2)
		}
		f(args)
	}
}

func usesTable(op int) bool {
	n := concOps[op].name
	return n == "ScalarMultTable" || n == "PublicScalarMultTable"
}

func firstUse(op int, x uint64) (*sharedData, []concStep, schedule) {
	t := pbt.Seeded(x, "firstuse", op)
	d := makeShared(t)
	if usesTable(op) {
		d.tab.Compute(&d.p[0])
	}
	return d, []concStep{{op, 1, 2}, {op, 0, 1}}, drawSchedule(t, nil)
}

var children = map[string]func(args []string){}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
