package props

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"

	rist "github.com/bwesterb/go-ristretto"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// source is a randomness source whose contents, chunking and failures are
// chosen by the test.
type source struct {
	next  func() byte
	chunk func() int // bytes in the next read; 0 is an empty read
	log   []byte     // everything delivered
	reads int
	// fail after this many bytes (if >= 0) with err; partial: the failing
	// read also delivers the bytes that are left
	limit   int
	err     error
	partial bool
	once    bool // it fails once and works again afterwards
	failed  int
}

type looping struct{}

func (s *source) Read(b []byte) (int, error) {
	s.reads++
	n := len(b)
	if s.chunk != nil {
		if c := s.chunk(); c < n {
			n = c
		}
	}
	var err error
	if s.limit >= 0 && len(s.log)+n > s.limit {
		left := s.limit - len(s.log)
		if s.partial || left == 0 {
			err = s.err
			s.failed++
		}
		if s.once && s.failed > 0 {
			s.limit = -1
		}
		if s.failed > 100000 {
			panic(looping{}) // retries for ever: certainly returns no value
		}
		n = left
	}
	for i := 0; i < n; i++ {
		b[i] = s.next()
		s.log = append(s.log, b[i])
	}
	return n, err
}

func prng(x uint64) func() byte {
	var w uint64
	k := 0
	return func() byte {
		if k == 0 {
			x += 0x9e3779b97f4a7c15
			z := x
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			w = z ^ (z >> 31)
			k = 8
		}
		b := byte(w)
		w >>= 8
		k--
		return b
	}
}

func fromBytes(d []byte, rest func() byte) func() byte {
	i := 0
	return func() byte {
		if i < len(d) {
			i++
			return d[i-1]
		}
		return rest()
	}
}

// drawRand makes a random scalar (kind 0) or point (kind 1) from src and
// returns a name for its value.
func drawRand(t *pbt.T, kind int, src io.Reader, garbage bool) string {
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()
	if kind == 0 {
		s := new(rist.Scalar)
		if garbage {
			s = garbageScalar(t)
		}
		if s.Rand() != s {
			t.Fatalf("Scalar.Rand did not return its receiver")
		}
		x := bigOf(s)
		if x.Cmp(ref.L) >= 0 {
			t.Fatalf("Scalar.Rand gives the unreduced scalar %x", x)
		}
		return x.Text(16)
	}
	p := new(rist.Point)
	if garbage {
		p = garbagePoint(t)
	}
	if p.Rand() != p {
		t.Fatalf("Point.Rand did not return its receiver")
	}
	a, bad := affOf(ext(p))
	if bad != "" || !ref.IsEvenFast(a) {
		t.Fatalf("Point.Rand gives no group element %s", bad)
	}
	return encHex(a)
}

var randKinds = []string{"Scalar", "Point"}

func drawSource(t *pbt.T) (func() func() byte, string) {
	x := t.Raw()
	switch t.Intn(6) {
	case 0:
		b := byte(t.Raw())
		return func() func() byte { return func() byte { return b } }, "constant"
	case 1:
		e, _ := gen.Bytes64(t)
		return func() func() byte { return fromBytes(e[:], prng(x)) }, "edge"
	}
	return func() func() byte { return prng(x) }, "uniform"
}

var faultErrs = []error{errors.New("entropy source failed"), io.EOF, io.ErrUnexpectedEOF, os.ErrClosed}

const (
	faultBytes = 65
	faultCases = 2 * faultBytes * 32
)

func init() {
	reg("C21", &pbt.Law{Name: "source", Rule: "crypto/rand.Reader replaced by a source with chosen bytes (uniform, edge values, constant) and chunking (whole, short, single-byte and empty reads); two to four calls in a row: every call must take at least 32 new bytes from the source, give a valid element, the same whatever the chunking and the previous contents of the receiver; different bytes must give different elements; non-trivial: short reads", Quick: 20000, Thorough: 1000000, Run: func(t *pbt.T) {
		kind := t.Intn(2)
		mk, c := drawSource(t)
		calls := t.Range(2, 4)
		t.Class(randKinds[kind] + " " + c)
		whole := &source{next: mk(), limit: -1}
		var vals []string
		var cuts []int
		for i := 0; i < calls; i++ {
			before := len(whole.log)
			vals = append(vals, drawRand(t, kind, whole, i > 0))
			if n := len(whole.log) - before; n < 32 {
				t.Fatalf("%s.Rand (call %d) took only %d bytes from crypto/rand.Reader", randKinds[kind], i+1, n)
			}
			cuts = append(cuts, len(whole.log))
		}
		t.Note("%s.Rand %d calls, source %x", randKinds[kind], calls, whole.log)
		style := t.Intn(4)
		t.NonTrivialIf(style > 0)
		x := t.Raw()
		r := prng(x)
		chunked := &source{next: fromBytes(whole.log, prng(^x)), limit: -1, chunk: func() int {
			switch style {
			case 0:
				return 1 << 20
			case 1:
				return 1
			case 2:
				return 1 + int(r())%40
			}
			return int(r()) % 8 // sometimes empty
		}}
		for i := range vals {
			v := drawRand(t, kind, chunked, t.Bool())
			if v != vals[i] {
				t.Fatalf("%s.Rand call %d: the same bytes in other chunks give %s instead of %s", randKinds[kind], i+1, v, vals[i])
			}
			if len(chunked.log) != cuts[i] {
				t.Fatalf("%s.Rand call %d took %d bytes in chunks, %d at once", randKinds[kind], i+1, len(chunked.log), cuts[i])
			}
		}
		if c == "uniform" {
			for i := range vals {
				for j := range vals[:i] {
					if vals[i] == vals[j] {
						t.Fatalf("calls %d and %d of %s.Rand give the same %s from different bytes", i+1, j+1, randKinds[kind], vals[i])
					}
				}
			}
		}
	}})
	reg("C21", &pbt.Law{Name: "influence", Rule: "each single-bit flip of the bytes consumed by one call, one by one: at least 250 of them must change the result (a 252-bit scalar, or a point from 255 bits); non-trivial: all", Quick: 48, Thorough: 1200, Run: func(t *pbt.T) {
		kind := t.Intn(2)
		x := t.Raw()
		t.NonTrivial()
		t.Class(randKinds[kind])
		src := &source{next: prng(x), limit: -1}
		v := drawRand(t, kind, src, false)
		t.Note("%s.Rand from %x", randKinds[kind], src.log)
		n := 0
		seen := map[string]bool{v: true}
		for i := 0; i < 8*len(src.log); i++ {
			d := append([]byte(nil), src.log...)
			d[i/8] ^= 1 << uint(i&7)
			w := drawRand(t, kind, &source{next: fromBytes(d, prng(x^1)), limit: -1}, false)
			if !seen[w] {
				n++
			}
			seen[w] = true
		}
		if n < 250 {
			t.Fatalf("%s.Rand: only %d of %d single-bit changes of the source give new results", randKinds[kind], n, 8*len(src.log))
		}
	}})
	reg("C21", &pbt.Law{Name: "spread", Rule: "3000 results from a seeded uniform source: each of the low 252 bits of the scalar, and bits 1-252 of the point's encoding, is set in half of them within six standard deviations; the scalar's top bits and the sixteenths of its range are hit evenly; no result occurs twice; non-trivial: all", Quick: 8, Thorough: 200, Run: func(t *pbt.T) {
		kind := t.Intn(2)
		x := t.Raw()
		t.NonTrivial()
		t.Class(randKinds[kind])
		t.Note("%s.Rand, 3000 calls, seed %x", randKinds[kind], x)
		src := &source{next: prng(x), limit: -1}
		const n = 3000
		var ones [256]int
		var top [16]int
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			v := drawRand(t, kind, src, false)
			src.log = src.log[:0]
			if seen[v] {
				t.Fatalf("%s.Rand gives %s twice in %d calls", randKinds[kind], v, i+1)
			}
			seen[v] = true
			var z *big.Int
			if kind == 0 {
				z, _ = new(big.Int).SetString(v, 16)
				top[new(big.Int).Rsh(z, 248).Int64()&15]++
			} else {
				b := make([]byte, 32)
				fmt.Sscanf(v, "%x", &b)
				z = ref.LEToBig(b)
				top[new(big.Int).Rsh(z, 251).Int64()&15]++
			}
			for k := range ones {
				ones[k] += int(z.Bit(k))
			}
		}
		dev := 6 * math.Sqrt(n) / 2
		lo := 0
		if kind == 1 {
			lo = 1 // encodings are even
		}
		for k := lo; k < 252; k++ {
			if math.Abs(float64(ones[k])-n/2) > dev {
				t.Fatalf("bit %d of %s.Rand is set in %d of %d results", k, randKinds[kind], ones[k], n)
			}
		}
		for k, c := range top {
			if math.Abs(float64(c)-n/16) > 7*math.Sqrt(n/16.0) {
				t.Fatalf("%s.Rand falls in sixteenth %d of its range %d times of %d", randKinds[kind], k, c, n)
			}
		}
	}})
	reg("C21", &pbt.Law{Name: "system", Rule: "with the unmodified system source: 400 results, all valid and all different; non-trivial: all", Quick: 16, Thorough: 400, Run: func(t *pbt.T) {
		kind := t.Intn(2)
		t.NonTrivial()
		t.Class(randKinds[kind])
		seen := map[string]bool{}
		for i := 0; i < 400; i++ {
			v := drawRand(t, kind, crand.Reader, false)
			if seen[v] {
				t.Fatalf("%s.Rand gives %s twice", randKinds[kind], v)
			}
			seen[v] = true
		}
	}})
	reg("C21", &pbt.Law{Name: "faults", Rule: "exhaustive: the source fails after exactly k bytes, k = 0..64, with four kinds of error, with and without data in the failing read, on the first call and after successful ones, for good or only once (a source that works again), for scalars and points, each in a process of its own (where crypto/rand may abort it): if the library was told of the failure it must not return a value; non-trivial: the failure was delivered", Enum: faultCases, Quick: faultCases, Thorough: faultCases, NoShrink: true, Run: func(t *pbt.T) {
		i := t.Intn(faultCases)
		kind, k, e, part := i&1, i>>1%faultBytes, i/(2*faultBytes)&3, i/(2*faultBytes)>>2 // part: bit 0 data in the failing read, bit 1 earlier successful calls, bit 2 works again after one failure
		t.Note("%s.Rand, source fails after %d bytes with %q, works again afterwards / after earlier calls / data in the failing read: %03b", randKinds[kind], k, faultErrs[e], part)
		cmd := exec.Command(os.Args[0], "-child", "randfault", strconv.Itoa(kind), strconv.Itoa(k), strconv.Itoa(e), strconv.Itoa(part))
		out, err := cmd.CombinedOutput()
		s := string(out)
		i = strings.LastIndex(s, "RETURNED ")
		switch {
		case i >= 0 && strings.HasPrefix(s[i:], "RETURNED failed=0"):
			t.Class("not reached")
		case i >= 0:
			t.Fatalf("%s.Rand returned a value although its source failed after %d bytes with %q: %s", randKinds[kind], k, faultErrs[e], cut(s[i:], 300))
		case strings.Contains(s, "PANICKED"):
			t.NonTrivial()
			t.Class("panic")
		case strings.Contains(s, "fatal error: crypto/rand"):
			t.NonTrivial()
			t.Class("abort")
		case err != nil && (strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: ")):
			t.NonTrivial()
			t.Class("abort")
		default:
			t.Fatalf("HARNESS: child: %v %s", err, cut(s, 1000))
		}
	}})
	children["randfault"] = func(args []string) {
		var a [4]int
		for i := range a {
			a[i], _ = strconv.Atoi(args[i])
		}
		src := &source{next: prng(99), limit: a[1], err: faultErrs[a[2]], partial: a[3]&1 == 1, once: a[3]&4 != 0}
		if a[3]&2 != 0 {
			// the source worked so far
			crand.Reader = &source{next: prng(7), limit: -1}
			for i := 0; i < 2; i++ {
				new(rist.Scalar).Rand()
				new(rist.Point).Rand()
			}
		}
		crand.Reader = src
		defer func() {
			if e := recover(); e != nil {
				fmt.Println("PANICKED", e)
			}
		}()
		var v string
		if a[0] == 0 {
			var s rist.Scalar
			s.Rand()
			v = bigOf(&s).Text(16)
		} else {
			var p rist.Point
			p.Rand()
			v = hx(p.Bytes())
		}
		fmt.Printf("RETURNED failed=%d bytes=%d value=%s\n", src.failed, len(src.log), v)
	}
}
