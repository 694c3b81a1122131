package pbt

// Guided search: tapes that reach a new block of the library, or bring the
// operands of one of its comparisons closer together than before, are kept and
// mutated.  Operands of comparisons that came out unequal are looked for in the
// tape and replaced by what they were compared with.

// Feedback is what the instrumented library says about one case.
type Feedback interface {
	Begin()
	// End calls visit with the features of the case (blocks reached,
	// distances of operands), and returns pairs of unequal operands.
	End(visit func(feature int)) [][2]uint64
}

// Guide, if set, turns on guided search.
var Guide Feedback

type entry struct {
	tape  []uint64
	pairs [][2]uint64
}

type search struct {
	rng    splitmix
	seen   map[int]bool
	corpus []entry
	todo   [][]uint64 // substitutions to try
}

func newSearch(law *Law, seed uint64, shard int) *search {
	s := &search{rng: splitmix{seed*0x9e3779b97f4a7c15 + uint64(shard)}, seen: map[int]bool{}}
	for _, c := range law.Name {
		s.rng.s = s.rng.s*1000003 + uint64(c)
	}
	return s
}

func (s *search) n(n int) int { return int(s.rng.next() % uint64(n)) }

// next makes the T of case i.
func (s *search) next(law *Law, seed uint64, i int) *T {
	t := Seeded(seed^0x6775696465, law.Name, i)
	if len(s.todo) > 0 && s.n(2) == 0 {
		t.tape = s.todo[len(s.todo)-1]
		s.todo = s.todo[:len(s.todo)-1]
		return t
	}
	if len(s.corpus) == 0 || s.n(4) == 0 {
		return t
	}
	k := s.n(len(s.corpus))
	if s.n(2) == 0 { // the latest finds
		if m := len(s.corpus); m > 6 {
			k = m - 1 - s.n(6)
		}
	}
	t.tape = s.mutate(s.corpus[k])
	return t
}

func (s *search) mutate(e entry) []uint64 {
	c := append([]uint64{}, e.tape...)
	if len(c) == 0 {
		return c
	}
	if len(e.pairs) > 0 && s.n(2) == 0 {
		p := e.pairs[s.n(len(e.pairs))]
		if s.n(2) == 0 {
			p[0], p[1] = p[1], p[0]
		}
		if s.substitute(c, p[0], p[1]) && s.n(2) == 0 {
			return c
		}
	}
	for k := 1 << uint(s.n(3)); k > 0; k-- {
		i := s.n(len(c))
		switch s.n(7) {
		case 0, 1:
			c[i] ^= 1 << uint(s.n(64))
		case 2:
			c[i] = s.rng.next()
		case 3:
			c[i] += uint64(s.n(9)) - 4
		case 4:
			c[i] = c[s.n(len(c))]
		case 5: // a byte or a half word
			w := uint(8 << uint(s.n(3)))
			o := w * uint(s.n(int(64/w)))
			m := (uint64(1)<<w - 1) << o
			c[i] = c[i]&^m | s.rng.next()&m
		default:
			if len(e.pairs) > 0 {
				c[i] = e.pairs[s.n(len(e.pairs))][s.n(2)]
			} else if len(Dictionary) > 0 {
				c[i] = Dictionary[s.n(len(Dictionary))]
			}
		}
	}
	return c
}

// limbs whose boundaries may matter: width and offsets
var cuts = []uint{64, 51, 32, 16, 8, 21}

type place struct {
	i    int
	o, n uint
}

// places finds v in the tape, seen as strings of 256 bits, where w fits, too.
func places(c []uint64, v, w uint64) (ps []place) {
	for _, n := range cuts {
		if n < 64 && (v>>n != 0 || w>>n != 0) {
			continue
		}
		if n <= 16 && v < 256 && n > 8 {
			continue
		}
		for i := range c {
			max := uint(256)
			if left := uint(64 * (len(c) - i)); left < max {
				max = left
			}
			if 64%n == 0 {
				max = 64
			}
			for o := uint(0); o+n <= max; o += n {
				if get(c[i:], o, n) == v {
					ps = append(ps, place{i, o, n})
				}
			}
		}
	}
	return ps
}

// substitute replaces v by w in one place of the tape.
func (s *search) substitute(c []uint64, v, w uint64) bool {
	ps := places(c, v, w)
	if len(ps) == 0 {
		return false
	}
	p := ps[s.n(len(ps))]
	set(c[p.i:], p.o, p.n, w)
	return true
}

func get(c []uint64, o, n uint) uint64 {
	v := c[o/64] >> (o % 64)
	if o%64+n > 64 {
		v |= c[o/64+1] << (64 - o%64)
	}
	if n < 64 {
		v &= uint64(1)<<n - 1
	}
	return v
}

func set(c []uint64, o, n uint, w uint64) {
	for k := uint(0); k < n; k++ {
		b := (o + k) / 64
		m := uint64(1) << ((o + k) % 64)
		if w>>k&1 == 1 {
			c[b] |= m
		} else {
			c[b] &^= m
		}
	}
}

// learn keeps the tape of a case that found something new.
func (s *search) learn(t *T) {
	better := false
	pairs := Guide.End(func(f int) {
		if !s.seen[f] {
			s.seen[f] = true
			better = true
		}
	})
	if better && len(t.rec) > 0 && len(t.rec) < 4000 {
		e := entry{tape: append([]uint64{}, t.rec...)}
		for _, p := range pairs {
			if len(e.pairs) < 64 {
				e.pairs = append(e.pairs, p)
			}
		}
		s.corpus = append(s.corpus, e)
		s.plan(e)
	}
}

// plan lists the substitutions that a new find suggests.
func (s *search) plan(e entry) {
	if len(s.todo) > 400 {
		s.todo = s.todo[:0]
	}
	n := 0
	for k := len(e.pairs) - 1; k >= 0 && n < 60; k-- {
		for side := 0; side < 2; side++ {
			v, w := e.pairs[k][side], e.pairs[k][1-side]
			ps := places(e.tape, v, w)
			if v < 256 && len(ps) > 12 {
				continue
			}
			for j, p := range ps {
				if j >= 8 {
					break
				}
				c := append([]uint64{}, e.tape...)
				set(c[p.i:], p.o, p.n, w)
				s.todo = append(s.todo, c)
				n++
			}
		}
	}
}
