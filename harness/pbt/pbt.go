// Package pbt is a small property-based testing engine.  A case is a pure
// function of a "tape" of 64-bit choices.  Generation records the tape;
// shrinking edits it; a replay file is a tape.
package pbt

import (
	"fmt"
	"hash/fnv"
	"math/bits"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type splitmix struct{ s uint64 }

func (r *splitmix) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// T is handed to a law for one case.
type T struct {
	rng     splitmix
	replay  bool
	tape    []uint64
	pos     int
	rec     []uint64
	Verbose bool
	notes   []string
	classes map[string]int
	nt      bool
	Stats   *Stats
	recall  bool
	mem     map[string][]interface{}
}

// Remember keeps a value drawn in a case that runs its law several times, so
// that later draws can be related to it.
func (t *T) Remember(kind string, v interface{}) {
	if t.recall {
		if t.mem == nil {
			t.mem = map[string][]interface{}{}
		}
		t.mem[kind] = append(t.mem[kind], v)
	}
}

// Relate makes the rest of the case draw values related to earlier ones.
func (t *T) Relate() { t.recall = true }

// Recall, in a case that runs its law several times, returns one of the
// values remembered so far about half of the time.
func (t *T) Recall(kind string) (interface{}, bool) {
	if !t.recall || len(t.mem[kind]) == 0 || t.Bool() {
		return nil, false
	}
	m := t.mem[kind]
	return m[t.Intn(len(m))], true
}

type failure struct{ msg string }
type discard struct{}

// Raw draws 64 uniform bits.
func (t *T) Raw() uint64 { return t.draw(0) }

func (t *T) draw(n uint64) uint64 {
	var v uint64
	if t.replay || t.pos < len(t.tape) {
		if t.pos < len(t.tape) {
			v = t.tape[t.pos]
		}
		t.pos++
	} else {
		v = t.rng.next()
		if n != 0 {
			hi, _ := bits.Mul64(v, n)
			v = hi
		}
	}
	if n != 0 {
		v %= n
	}
	t.rec = append(t.rec, v)
	if len(t.rec) > 1<<16 {
		panic(discard{})
	}
	return v
}

// Intn draws from [0, n).
func (t *T) Intn(n int) int { return int(t.draw(uint64(n))) }

// Range draws from [lo, hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

func (t *T) Bool() bool { return t.draw(2) == 1 }

// OneIn is true once in n times (and shrinks to false).
func (t *T) OneIn(n int) bool { return t.draw(uint64(n)) == uint64(n-1) }

// Weighted draws an index with the given weights.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.Intn(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Fill fills b with uniform bytes.
func (t *T) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		w := t.Raw()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(w)
			w >>= 8
		}
	}
}

// Dictionary holds integers that occur in the source under test; generators
// mix them in.
var Dictionary []uint64

// FromDict draws an integer of the dictionary.  The integer itself goes on the
// tape, so a replay does not depend on the dictionary.
func (t *T) FromDict() uint64 {
	if t.replay || t.pos < len(t.tape) || len(Dictionary) == 0 {
		return t.draw(0)
	}
	v := Dictionary[t.rng.next()%uint64(len(Dictionary))]
	t.rec = append(t.rec, v)
	return v
}

// Class counts the case in a named class.
func (t *T) Class(s string) {
	if t.classes == nil {
		t.classes = map[string]int{}
	}
	t.classes[s]++
}

// NonTrivial marks the case as non-trivial by the law's rule.
func (t *T) NonTrivial() { t.nt = true }

// NonTrivialIf marks the case as non-trivial if b.
func (t *T) NonTrivialIf(b bool) {
	if b {
		t.nt = true
	}
}

// Note records a human readable part of the case (kept only when verbose).
func (t *T) Note(format string, args ...interface{}) {
	if t.Verbose {
		t.notes = append(t.notes, fmt.Sprintf(format, args...))
	}
}

// Fatalf reports a violation.
func (t *T) Fatalf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Notes returns what was noted.
func (t *T) Notes() []string { return t.notes }

// Tape returns the recorded choices.
func (t *T) Tape() []uint64 { return t.rec }

// Law is one executable check.
type Law struct {
	Name string
	Rule string // how cases are made and which are non-trivial
	Run  func(*T)
	// Number of cases in the quick and thorough tiers, over all shards.
	Quick, Thorough int
	// Enum, if not zero, makes this an exhaustive law: the first draw is
	// fixed to 0..Enum-1 and each is run once per round.
	Enum int
	// Only, if set, restricts the law to some build configurations.
	Only func(config string) bool
	// NoShrink: the case is not a pure function of its tape (a schedule).
	NoShrink bool
	// Once: never run several times in one case.
	Once bool
}

// Result of one case.
type Result struct {
	Failed bool
	Msg    string
	T      *T
}

// RunOne runs a single case, converting panics into failures.
func RunOne(law *Law, t *T) (res Result) {
	res.T = t
	if OnRun != nil {
		OnRun()
	}
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case failure:
				res.Failed, res.Msg = true, e.msg
			case discard:
			default:
				res.Failed = true
				st := strings.Split(string(debug.Stack()), "\n")
				// skip the frames of recover/panic
				keep := []string{}
				for i, l := range st {
					if i > 6 && strings.HasPrefix(l, "\t") && len(keep) < 8 {
						keep = append(keep, strings.TrimSpace(l))
					}
				}
				res.Msg = fmt.Sprintf("panic: %v at %s", e, strings.Join(keep, " < "))
			}
		}
	}()
	if law.Enum == 0 && !law.NoShrink && !law.Once {
		t.InARow(func() { law.Run(t) })
		return
	}
	law.Run(t)
	return
}

// InARow runs f; in one of eight cases several times over, on values related
// to each other: nothing may be left over from the earlier runs.
func (t *T) InARow(f func()) {
	if !t.OneIn(8) {
		f()
		return
	}
	t.recall = true
	for k := t.Range(2, 4); k > 0; k-- {
		t.Note("-- in a row")
		f()
	}
	t.Class("in a row")
}

// FromTape makes a T that replays tape.
func FromTape(tape []uint64, verbose bool) *T {
	return &T{replay: true, tape: tape, Verbose: verbose}
}

// Seeded makes a T for the given case.
func Seeded(seed uint64, name string, idx int) *T {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, name, idx)
	t := &T{rng: splitmix{h.Sum64()}}
	t.rng.next()
	return t
}

// Stats are per law.
type Stats struct {
	Law         string         `json:"law"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     [][]string     `json:"samples"`
	WallS       float64        `json:"wall_s"`
	Planned     int            `json:"planned"`
	Truncated   bool           `json:"truncated,omitempty"`
	seen        map[uint64]struct{}
}

// Failure is a shrunk counterexample.
type Failure struct {
	Law   string   `json:"law"`
	Msg   string   `json:"message"`
	Tape  []uint64 `json:"tape"`
	Notes []string `json:"case"`
	Seed  uint64   `json:"seed"`
	Index int      `json:"index"`
	Steps int      `json:"shrink_steps"`
	Orig  []uint64 `json:"original_tape,omitempty"`
	Hang  bool     `json:"hang,omitempty"`
}

// OnCase, if set, is called before each case with its tape-determining index.
var OnCase func(law string, idx int)

// Deadline, if set, ends generation early; the law's statistics then say so.
var Deadline time.Time

// Registry maps property ids to laws.
var Registry = map[string][]*Law{}

// Reg adds a law to a property.
func Reg(prop string, l *Law) {
	l.Name = prop + "/" + l.Name
	Registry[prop] = append(Registry[prop], l)
}

// NoShrink turns shrinking off.
var NoShrink bool

// OnRun, if set, is called before each execution (shrinking included).
var OnRun func()

// CaseT makes the T of case i of a law.
func CaseT(law *Law, seed uint64, i int) *T {
	t := Seeded(seed, law.Name, i)
	if law.Enum > 0 {
		// Fix the first draw, keep the rest random.
		t.tape = []uint64{uint64(i % law.Enum)}
	}
	return t
}

// RunSingle runs one case without shrinking.
func RunSingle(law *Law, seed uint64, i int) (*Stats, *Failure) {
	t := CaseT(law, seed, i)
	t.Verbose = true
	if OnCase != nil {
		OnCase(law.Name, i)
	}
	st := &Stats{Law: law.Name, Rule: law.Rule, Evaluations: 1}
	res := RunOne(law, t)
	if res.Failed {
		return st, &Failure{Law: law.Name, Msg: res.Msg, Tape: t.rec, Notes: t.notes, Seed: seed, Index: i}
	}
	return st, nil
}

func tapeHash(tape []uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range tape {
		h ^= v
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

// RunLaw runs cases idx = shard, shard+shards, ... < n.
func RunLaw(law *Law, seed uint64, n, shard, shards int) (*Stats, *Failure) {
	start := time.Now()
	st := &Stats{Law: law.Name, Rule: law.Rule, Classes: map[string]int{}, seen: map[uint64]struct{}{}}
	for i := shard; i < n; i += shards {
		st.Planned++
	}
	defer func() { st.WallS = time.Since(start).Seconds() }()
	var sr *search
	if Guide != nil && law.Enum == 0 && !law.NoShrink {
		sr = newSearch(law, seed, shard)
	}
	for i := shard; i < n; i += shards {
		if !Deadline.IsZero() && time.Now().After(Deadline) {
			st.Truncated = true
			break
		}
		t := CaseT(law, seed, i)
		if OnCase != nil {
			OnCase(law.Name, i)
		}
		if sr != nil {
			t = sr.next(law, seed, i)
			Guide.Begin()
		}
		res := RunOne(law, t)
		if sr != nil {
			if sr.learn(t); len(t.tape) > 0 {
				t.Class("guided")
			}
		}
		st.Evaluations++
		for c, k := range t.classes {
			st.Classes[c] += k
		}
		if t.nt {
			st.NonTrivial++
			if len(st.seen) < 4000000 {
				h := tapeHash(t.rec)
				if _, dup := st.seen[h]; !dup {
					st.seen[h] = struct{}{}
					st.Distinct++
				}
			}
			if len(st.Samples) < 2 && (i/shards)%17 == 3 || len(st.Samples) < 1 {
				tt := FromTape(t.rec, true)
				RunOne(law, tt)
				s := tt.Notes()
				if len(s) > 12 {
					s = append(append([]string{}, s[:12]...), fmt.Sprintf("... %d more", len(s)-12))
				}
				st.Samples = append(st.Samples, s)
			}
		}
		if res.Failed {
			var f *Failure
			if law.NoShrink || NoShrink || strings.Contains(res.Msg, "HARNESS:") {
				f = &Failure{Law: law.Name, Msg: res.Msg, Tape: append([]uint64{}, t.rec...)}
			} else {
				f = Shrink(law, t.rec, res.Msg)
			}
			f.Seed, f.Index = seed, i
			return st, f
		}
	}
	return st, nil
}

// Shrink minimises a failing tape within a fixed budget of executions.
func Shrink(law *Law, tape []uint64, msg string) *Failure {
	orig := append([]uint64{}, tape...)
	best := append([]uint64{}, tape...)
	steps := 0
	budget := 3000
	deadline := time.Now().Add(25 * time.Second)
	try := func(c []uint64) bool {
		if steps >= budget || time.Now().After(deadline) {
			return false
		}
		steps++
		t := FromTape(c, false)
		r := RunOne(law, t)
		if r.Failed {
			// Keep what was actually consumed.
			if simpler(t.rec, best) {
				best = append([]uint64{}, t.rec...)
				msg = r.Msg
				return true
			}
		}
		return false
	}
	// The failure must reproduce from its tape; otherwise keep it as it is.
	t := FromTape(best, false)
	if r := RunOne(law, t); !r.Failed {
		return &Failure{Law: law.Name, Msg: msg + " (did not reproduce on immediate replay)", Tape: orig, Orig: orig}
	}
	for improved := true; improved && steps < budget; {
		improved = false
		// Delete chunks.
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint64{}, best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				} else {
					i += size
				}
			}
		}
		// Zero chunks.
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				c := append([]uint64{}, best...)
				zero := true
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						zero = false
					}
					c[j] = 0
				}
				if !zero && try(c) {
					improved = true
				}
			}
		}
		// Minimise single values.
		for i := 0; i < len(best); i++ {
			lo, hi := uint64(0), best[i]
			for lo < hi {
				mid := lo + (hi-lo)/2
				if i >= len(best) {
					break
				}
				c := append([]uint64{}, best...)
				c[i] = mid
				if try(c) {
					improved = true
					if i >= len(best) {
						break
					}
					hi = best[i]
				} else {
					lo = mid + 1
				}
				if steps >= budget {
					break
				}
			}
		}
	}
	tv := FromTape(best, true)
	r := RunOne(law, tv)
	if r.Failed {
		msg = r.Msg
	}
	return &Failure{Law: law.Name, Msg: msg, Tape: best, Notes: tv.Notes(), Steps: steps, Orig: orig}
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// SortedClasses renders class counts.
func SortedClasses(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
