package props

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
	"vh/runner"
)

// A program is executed by this process and, from the same choices, by a
// co-process per other backend; what they can observe must be identical.

type trace struct{ lines []string }

func (tr *trace) out(format string, args ...interface{}) {
	tr.lines = append(tr.lines, fmt.Sprintf(format, args...))
}

var programs = map[string]func(t *pbt.T, tr *trace){
	"points": pointProgram,
	"field":  fieldProgram,
	"decode": decodeProgram,
	"tests":  predicateProgram,
	"curve":  curveProgram,
	"scalar": scalarProgram,
}

func pointProgram(t *pbt.T, tr *trace) {
	var p [3]rist.Point
	var s [2]rist.Scalar
	var tab rist.ScalarMultTable
	haveTab := false
	for i := range p {
		_, q, _ := even(t)
		p[i] = *q
	}
	for i := range s {
		x, _ := gen.ScalarBig(t)
		s[i] = *scalarOf(x)
	}
	n := t.Range(1, 12)
	for k := 0; k < n; k++ {
		d, i, j, u := t.Intn(3), t.Intn(3), t.Intn(3), t.Intn(2)
		op := t.Weighted(4, 4, 3, 3, 2, 2, 2, 2, 1, 1, 2, 2, 2, 2, 2, 2)
		switch op {
		case 0:
			p[d].Add(&p[i], &p[j])
		case 1:
			p[d].Sub(&p[i], &p[j])
		case 2:
			p[d].Double(&p[i])
		case 3:
			p[d].Neg(&p[i])
		case 4:
			p[d].ScalarMult(&p[i], &s[u])
		case 5:
			p[d].PublicScalarMult(&p[i], &s[u])
		case 6:
			p[d].ScalarMultBase(&s[u])
		case 7:
			p[d].PublicScalarMultBase(&s[u])
		case 8:
			tab.Compute(&p[i])
			haveTab = true
			p[d].ScalarMultTable(&tab, &s[u])
		case 9:
			if haveTab {
				p[d].PublicScalarMultTable(&tab, &s[u])
			}
		case 10:
			b, _ := gen.ElligatorBytes(t)
			p[d].SetElligator(&b)
		case 11:
			dt, _ := gen.Data(t)
			if t.Bool() {
				p[d].Derive(dt)
			} else {
				p[d].DeriveDalek(dt)
			}
		case 12:
			m, _ := payload(t)
			p[d].SetLizard(&m)
			tr.out("lizard %x", p[d].Lizard())
		case 13:
			tr.out("equal %v %v %d lizard %x", p[i].Equals(&p[j]), p[j].Equals(&p[i]), p[i].EqualsI(&p[j]), p[i].Lizard())
		case 14:
			p[d].ConditionalSet(&p[i], int32(t.Intn(2)))
		case 15:
			var fes [8]ed.FieldElement
			m := ext(&p[i]).RistrettoElligator2Inverse(&fes)
			var l []string
			for q := range fes {
				if m>>uint(q)&1 == 1 {
					l = append(l, feHex(&fes[q]))
				}
			}
			sort.Strings(l)
			tr.out("inverse %s", strings.Join(l, " "))
		}
		t.Note("op %d: p%d <- p%d p%d s%d", op, d, i, j, u)
		tr.out("%d: %x", k, p[d].Bytes())
	}
	for i := range p {
		b, _ := p[i].MarshalText()
		tr.out("text %s", b)
	}
}

func fieldProgram(t *pbt.T, tr *trace) {
	var r [3]ed.FieldElement
	for i := range r {
		if t.Bool() {
			b, _ := gen.Bytes32(t)
			r[i].SetBytes(&b)
			t.Note("r%d = bytes %x", i, b)
		} else {
			v, f, _ := drawFe(t, "r")
			_ = v
			r[i] = *f
		}
	}
	n := t.Range(1, 20)
	for k := 0; k < n; k++ {
		d, i, j := t.Intn(3), t.Intn(3), t.Intn(3)
		op := t.Weighted(4, 4, 4, 6, 4, 4, 1, 1, 1, 1, 1, 1, 2)
		switch op {
		case 0:
			r[d].Add(&r[i], &r[j])
		case 1:
			r[d].Sub(&r[i], &r[j])
		case 2:
			r[d].Neg(&r[i])
		case 3:
			r[d].Mul(&r[i], &r[j])
		case 4:
			r[d].Square(&r[i])
		case 5:
			r[d].DoubledSquare(&r[i])
		case 6:
			c := r[i]
			r[d].Inverse(&c)
		case 7:
			c := r[i]
			c.Square(&c)
			r[d].Sqrt(&c)
		case 8:
			c := r[i]
			tr.out("invsqrti %d", r[d].InvSqrtI(&c))
		case 9:
			c := r[i]
			r[d].Exp22523(&c)
		case 10:
			c := r[i]
			r[d].Abs(&c)
		case 11:
			r[d].SetBigInt(r[i].BigInt())
		case 12:
			tr.out("pred %d %d %d %d %v", r[i].IsNegativeI(), r[i].IsNonZeroI(), r[i].IsOneI(), r[i].EqualsI(&r[j]), r[i].Equals(&r[j]))
		}
		t.Note("op %d: r%d <- r%d r%d", op, d, i, j)
		tr.out("%d: %s", k, feHex(&r[d]))
	}
}

func decodeProgram(t *pbt.T, tr *trace) {
	b, _ := pointBytes(t)
	var p rist.Point
	ok := p.SetBytes(&b)
	tr.out("ok %v", ok)
	var q rist.Point
	if err := q.UnmarshalBinary(b[:]); err != nil {
		tr.out("err %v", err)
	}
	if ok {
		tr.out("bytes %x", p.Bytes())
		var r rist.Point
		r.Double(&p)
		tr.out("double %x", r.Bytes())
	}
}

// predicateProgram compares elements that are equal or nearly so, in
// independently chosen limb forms.
func predicateProgram(t *pbt.T, tr *trace) {
	for k, n := 0, t.Range(1, 16); k < n; k++ {
		v, _ := gen.Fe(t)
		w := v
		switch t.Intn(6) {
		case 0:
			w = ref.Neg(v)
		case 1:
			w = ref.Add(v, ref.One)
		case 2:
			w, _ = gen.Fe(t)
		case 3:
			v = ref.One
		case 4:
			v = ref.Zero
		}
		a, b := looseFe(t, v), looseFe(t, w)
		t.Note("%s and %s", v.Hex(), w.Hex())
		tr.out("%d: %d %v %d %d %d %d %d", k, a.EqualsI(b), b.Equals(a), a.IsOneI(), b.IsOneI(), a.IsNonZeroI(), b.IsNonZeroI(), a.IsNegativeI())
		var r ed.FieldElement
		tr.out("%s %s", feHex(r.Abs(a)), feHex(r.Sub(a, b)))
		c := *a
		c.ConditionalSet(b, int32(t.Intn(2)))
		tr.out("%s %v", feHex(&c), c.BigInt())
	}
}

func curveProgram(t *pbt.T, tr *trace) {
	var p [3]ed.ExtendedPoint
	var cp ed.CompletedPoint
	var pp ed.ProjectivePoint
	var np ed.NielsPoint
	for i := range p {
		p[i] = *extOf(t)
	}
	for k, n := 0, t.Range(1, 12); k < n; k++ {
		d, i, j := t.Intn(3), t.Intn(3), t.Intn(3)
		op := t.Weighted(4, 4, 3, 3, 2, 2, 2, 2, 2, 1, 1)
		x, _ := multScalar(t, two253)
		b := ref.BigToLE32(x)
		switch op {
		case 0:
			p[d].Add(&p[i], &p[j])
		case 1:
			p[d].Sub(&p[i], &p[j])
		case 2:
			p[d].Double(&p[i])
		case 3:
			p[d].Neg(&p[i])
		case 4:
			np.SetExtended(&p[i])
			cp.AddExtendedNiels(&p[j], &np)
			p[d].SetCompleted(&cp)
			tr.out("%s", nielsVal(&np))
		case 5:
			np.SetExtended(&p[i])
			np.Neg(&np)
			cp.SubExtendedNiels(&p[j], &np)
			p[d].SetCompleted(&cp)
		case 6:
			pp.SetExtended(&p[i])
			for m := t.Intn(4); m >= 0; m-- {
				cp.DoubleProjective(&pp)
				pp.SetCompleted(&cp)
			}
			p[d].SetCompleted(&cp)
		case 7:
			q := p[i]
			p[d].ScalarMult(&q, &b)
		case 8:
			q := p[i]
			p[d].VarTimeScalarMult(&q, &b)
		case 9:
			var qs [4]ed.JacobiPoint
			q := ext(anyPoint(t))
			q.ToJacobiQuarticRistretto(&qs)
			tr.out("%s", jacobi4Val(&qs))
			cp.SetJacobiQuartic(&qs[t.Intn(4)])
			p[d].SetCompleted(&cp)
		case 10:
			[]func(*ed.ExtendedPoint) *ed.ExtendedPoint{(*ed.ExtendedPoint).SetTorsion1, (*ed.ExtendedPoint).SetTorsion2, (*ed.ExtendedPoint).SetTorsion3, (*ed.ExtendedPoint).SetBase, (*ed.ExtendedPoint).SetZero}[t.Intn(5)](&p[d])
		}
		t.Note("op %d: p%d <- p%d p%d", op, d, i, j)
		tr.out("%d: %s", k, extVal(&p[d]))
	}
}

func scalarProgram(t *pbt.T, tr *trace) {
	var s [3]rist.Scalar
	for i := range s {
		s[i] = *anyScalar(t)
	}
	for k, n := 0, t.Range(1, 12); k < n; k++ {
		d, i, j, m := t.Intn(3), t.Intn(3), t.Intn(3), t.Intn(3)
		op := t.Intn(13)
		switch op {
		case 0:
			s[d].Add(&s[i], &s[j])
		case 1:
			s[d].Sub(&s[i], &s[j])
		case 2:
			s[d].Neg(&s[i])
		case 3:
			s[d].Mul(&s[i], &s[j])
		case 4:
			s[d].Square(&s[i])
		case 5:
			s[d].MulAdd(&s[i], &s[j], &s[m])
		case 6:
			s[d].MulSub(&s[i], &s[j], &s[m])
		case 7:
			s[d].Inverse(&s[i])
		case 8:
			b, _ := gen.Bytes32(t)
			if t.Bool() {
				s[d].SetBytes(&b)
			} else {
				tr.out("strict %v", s[d].SetBytesStrict(&b))
			}
		case 9:
			b, _ := gen.Bytes64(t)
			s[d].SetReduced(&b)
		case 10:
			s[d].SetUint64(t.Raw() >> uint(t.Intn(64)))
		case 11:
			dt, _ := gen.Data(t)
			if t.Bool() {
				s[d].Derive(dt)
			} else {
				s[d].DeriveShort(dt)
			}
		case 12:
			x := s[i].BigInt()
			s[d].SetBigInt(x.Mul(x, x).Neg(x))
			tr.out("tests %v %d %d", s[i].Equals(&s[j]), s[i].EqualsI(&s[j]), s[i].IsNonZeroI())
		}
		t.Note("op %d: s%d <- s%d s%d s%d", op, d, i, j, m)
		tr.out("%d: %x %v %v", k, s[d].Bytes(), &s[d], s[d].BigInt())
	}
}

func runTrace(name string, t *pbt.T) (out string) {
	var tr trace
	defer func() {
		if e := recover(); e != nil {
			out = strings.Join(tr.lines, "\n") + fmt.Sprintf("\npanic: %v", e)
		}
	}()
	t.InARow(func() { programs[name](t, &tr) })
	return strings.Join(tr.lines, "\n")
}

type peer struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	w    *bufio.Writer
	r    *bufio.Reader
}

var peers []*peer

func writeMsg(w *bufio.Writer, b []byte) error {
	var l [4]byte
	binary.LittleEndian.PutUint32(l[:], uint32(len(b)))
	w.Write(l[:])
	w.Write(b)
	return w.Flush()
}

func readMsg(r *bufio.Reader) ([]byte, error) {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.LittleEndian.Uint32(l[:]))
	_, err := io.ReadFull(r, b)
	return b, err
}

func startPeer(p *peer, path string) {
	p.cmd = exec.Command(path, "-serve", "-config", p.name)
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "peer:", err)
		os.Exit(2)
	}
	p.w, p.r = bufio.NewWriter(p.in), bufio.NewReader(o)
}

func (p *peer) ask(name string, tape []uint64) string {
	b := make([]byte, 0, 8*len(tape)+16)
	b = append(b, byte(len(name)))
	b = append(b, name...)
	for _, v := range tape {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	if err := writeMsg(p.w, b); err != nil {
		return "peer died: " + err.Error()
	}
	out, err := readMsg(p.r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "peer", p.name, "died:", err)
		os.Exit(2)
	}
	return string(out)
}

func init() {
	runner.Serve = func() {
		r, w := bufio.NewReader(os.Stdin), bufio.NewWriter(os.Stdout)
		for {
			b, err := readMsg(r)
			if err != nil {
				return
			}
			n := int(b[0])
			name := string(b[1 : 1+n])
			b = b[1+n:]
			tape := make([]uint64, len(b)/8)
			for i := range tape {
				tape[i] = binary.LittleEndian.Uint64(b[8*i:])
			}
			if writeMsg(w, []byte(runTrace(name, pbt.FromTape(tape, false)))) != nil {
				return
			}
		}
	}
	runner.AddPeer = func(name, path string) {
		p := &peer{name: name}
		startPeer(p, path)
		peers = append(peers, p)
	}
	runner.Close = func() {
		for _, p := range peers {
			p.in.Close()
			p.cmd.Wait()
		}
		peers = nil
	}
	diff := func(name string) func(t *pbt.T) {
		return func(t *pbt.T) {
			mine := runTrace(name, t)
			if len(peers) == 0 {
				t.Fatalf("HARNESS: no other backend to compare with")
			}
			for _, p := range peers {
				t.Class("compared with " + p.name)
				got := p.ask(name, t.Tape())
				if got != mine {
					a, b := strings.Split(mine, "\n"), strings.Split(got, "\n")
					for i := 0; i < len(a) || i < len(b); i++ {
						x, y := "", ""
						if i < len(a) {
							x = a[i]
						}
						if i < len(b) {
							y = b[i]
						}
						if x != y {
							t.Fatalf("observation %d: %s gives %q, %s gives %q", i, runner.Config, x, p.name, y)
						}
					}
				}
			}
			t.NonTrivialIf(strings.Count(mine, "\n") >= 3 || name == "decode" && strings.HasPrefix(mine, "ok true"))
		}
	}
	reg("C15", &pbt.Law{Name: "points", Rule: "programs of 1-12 operations over points, scalars and tables (arithmetic, all multiplications, Elligator, derivation, Lizard, inverses, comparisons, serialisation) on edge-class points in loose representations; executed from the same choices by this process and by one co-process per other backend, the traces of encodings, decisions and errors must be identical; non-trivial: at least 4 observations", Quick: 24000, Thorough: 600000, Once: true, Run: diff("points")})
	reg("C15", &pbt.Law{Name: "field", Rule: "programs of 1-20 field operations on edge-class and non-canonical elements, compared in the same way after every step; non-trivial: at least 4 observations", Quick: 120000, Thorough: 3000000, Once: true, Run: diff("field")})
	reg("C15", &pbt.Law{Name: "decode", Rule: "32-byte strings around validity decoded by every backend; non-trivial: accepted (then also re-encoded and doubled)", Quick: 60000, Thorough: 1500000, Once: true, Run: diff("decode")})
	reg("C15", &pbt.Law{Name: "tests", Rule: "1-16 pairs of field elements, equal, opposite, off by one or unrelated, 0 and 1 frequent, in independently chosen limb forms: comparisons, sign, zero- and one-test, absolute value, difference, conditional assignment, compared in the same way; non-trivial: at least 4 observations", Quick: 40000, Thorough: 1000000, Once: true, Run: diff("tests")})
	reg("C15", &pbt.Law{Name: "curve", Rule: "programs of 1-12 operations of the curve package (all coordinate systems, torsion, odd points, unreduced scalars, Jacobi quartic) on points of all cosets, compared in the same way; non-trivial: at least 4 observations", Quick: 12000, Thorough: 300000, Once: true, Run: diff("curve")})
	reg("C15", &pbt.Law{Name: "scalars", Rule: "programs of 1-12 scalar operations, compared in the same way (32- and 64-bit words); non-trivial: at least 4 observations", Quick: 20000, Thorough: 500000, Once: true, Run: diff("scalar")})
}
