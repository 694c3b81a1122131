package props

import (
	"bytes"
	"math/big"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// refReason says why RFC 9496 rejects b ("" if it does not).
func refReason(b [32]byte) string {
	s := ref.FromBytesMod(b)
	if s.Bytes() != b {
		if ref.IsNeg(s) {
			return "non-canonical+negative"
		}
		return "non-canonical"
	}
	if ref.IsNeg(s) {
		return "negative"
	}
	ss := ref.Sq(s)
	u1, u2 := ref.Sub(ref.One, ss), ref.Add(ref.One, ss)
	v := ref.Sub(ref.Neg(ref.Mul(ref.D, ref.Sq(u1))), ref.Sq(u2))
	ok, _ := ref.SqrtRatio(ref.One, ref.Mul(v, ref.Sq(u2)))
	if !ok {
		return "not-square"
	}
	if u1 == ref.Zero {
		return "y-zero"
	}
	if _, ok := ref.Decode(b); !ok {
		return "t-negative"
	}
	return ""
}

func checkDecode(t *pbt.T, b [32]byte) {
	reason := refReason(b)
	if reason == "" {
		t.Class("valid")
	} else {
		t.Class("reject: " + reason)
	}
	in := b
	p := garbagePoint(t)
	got := p.SetBytes(&b)
	if b != in {
		t.Fatalf("SetBytes changed its input")
	}
	checkDecoded(t, "SetBytes", p, got, true, b)
	if got {
		if out := p.Bytes(); !bytes.Equal(out, in[:]) {
			t.Fatalf("SetBytes(%x) succeeded but encodes to %x", in, out)
		}
	}
	e := garbagePoint(t)
	if ext(e).SetRistretto(&b) != got {
		t.Fatalf("SetRistretto and SetBytes disagree on %x", b)
	}
	var q rist.Point
	if (q.UnmarshalBinary(in[:]) == nil) != got {
		t.Fatalf("UnmarshalBinary and SetBytes disagree on %x", b)
	}
}

// nonCanonicalOfValid builds a >= p encoding of a valid one, where possible.
func init() {
	reg("C04", &pbt.Law{Name: "decode", Rule: "32-byte strings around the boundary of validity: valid encodings, bit flips, negations, +p and top-bit forms, small and minus small, canonical field elements, edge strings; classes count which RFC condition rejects; non-trivial: not a plain valid encoding", Quick: 150000, Thorough: 4000000, Run: func(t *pbt.T) {
		b, c := pointBytes(t)
		t.NonTrivialIf(c != "valid")
		checkDecode(t, b)
	}})
	reg("C04", &pbt.Law{Name: "one-condition", Rule: "strings built to violate exactly one RFC condition, each chosen by search from an edge field element (only t negative; only not square; only negative; only non-canonical; only the top bit; y = 0) next to one that violates none; non-trivial: all", Quick: 60000, Thorough: 2000000, Run: func(t *pbt.T) {
		kind := t.Intn(7)
		want := []string{"", "t-negative", "not-square", "negative", "non-canonical", "non-canonical", "y-zero"}[kind]
		f, _ := gen.Fe(t)
		s := ref.Abs(f)
		t.NonTrivial()
		var b [32]byte
		for i := 0; ; i++ {
			valid := refReason(s.Bytes()) == ""
			switch kind {
			case 0, 1, 2:
				b = s.Bytes()
			case 3: // the negation of a valid encoding
				if valid {
					b = ref.Neg(s).Bytes()
				}
			case 4: // s+p for a valid s < 19: only s = 0 and a few others exist
				small := []uint64{0, 2, 4, 6, 8, 10, 12, 14, 16, 18}[(uint64(i)+s[0])%10]
				if refReason(ref.FromU64(small).Bytes()) == "" {
					b = ref.BigToLE32(new(big.Int).Add(ref.P, new(big.Int).SetUint64(small)))
				}
			case 5: // top bit on a valid encoding
				if valid {
					b = s.Bytes()
					b[31] |= 0x80
				}
			case 6: // s = -1 is the only even s with y = 0
				b = ref.MinusOne.Bytes()
			}
			if refReason(b) == want && (b != [32]byte{} || want == "") {
				break
			}
			if s = ref.Add(s, ref.FromU64(2)); ref.IsNeg(s) {
				s = ref.Add(s, ref.One)
			}
		}
		t.Note("bytes %x, should fail only: %q", b, want)
		checkDecode(t, b)
	}})
	reg("C04", &pbt.Law{Name: "exhaustive-ends", Rule: "exhaustive: the 8192 integers from 0, the 8192 up to and the 19+ above p-1 (to 2^255-1), each with and without the top bit; non-trivial: all", Enum: 4 * 8192, Quick: 4 * 8192, Thorough: 4 * 8192, Run: func(t *pbt.T) {
		k := t.Intn(4 * 8192)
		x := new(big.Int)
		if k&1 == 0 {
			x.SetInt64(int64(k >> 2))
		} else {
			x.Sub(new(big.Int).Lsh(oneB, 255), big.NewInt(int64(1+k>>2)))
		}
		b := ref.BigToLE32(x)
		if k&2 != 0 {
			b[31] |= 0x80
		}
		t.NonTrivial()
		t.Note("bytes %x", b)
		checkDecode(t, b)
	}})

	reg("C05", &pbt.Law{Name: "encode", Rule: "group elements (identity, small multiples, small encodings, edge Elligator images, edge coordinates, edge multiples) in random representations (4 cosets x projective factor x limb form); non-trivial: representation differs from affine prime-order form, or the element is special", Quick: 150000, Thorough: 3000000, Run: func(t *pbt.T) {
		a, c := gen.Even(t)
		want := ref.Encode(a)
		p, c2 := rep(t, a)
		t.Note("point %x [%s; %s]", want, c, c2)
		t.Class(c2)
		t.NonTrivialIf(c2 != "Z=1" || c == "identity" || c == "small-multiple")
		if got := p.Bytes(); !bytes.Equal(got, want[:]) {
			t.Fatalf("Bytes = %x, want %x", got, want)
		}
		var buf [32]byte
		t.Fill(buf[:8])
		if p.BytesInto(&buf) != p || buf != want {
			t.Fatalf("BytesInto = %x, want %x", buf, want)
		}
		if got := ext(p).Ristretto(); !bytes.Equal(got, want[:]) {
			t.Fatalf("Ristretto = %x, want %x", got, want)
		}
		var q rist.Point
		if !q.SetBytes(&buf) {
			t.Fatalf("encoding %x does not decode", buf)
		}
		if !q.Equals(p) || !p.Equals(&q) || q.EqualsI(p) != 1 {
			t.Fatalf("decode(encode(p)) != p")
		}
		samePoint(t, "decode(encode)", &q, a)
	}})
	reg("C05", &pbt.Law{Name: "equal", Rule: "pairs: same element in two representations; near misses -P, -P+torsion (which share coordinates up to sign, swap and factor i), P+-B, 2P, the identity; unrelated; non-trivial: equal pairs in different representations and near misses", Quick: 150000, Thorough: 3000000, Run: func(t *pbt.T) {
		a, c := gen.Even(t)
		var b ref.Aff
		kind := t.Intn(7)
		name := ""
		switch kind {
		case 0:
			b, name = a, "same"
		case 1:
			b, name = ref.NegA(a), "negated"
		case 2: // explicit coordinate tricks, all in the class of -P or P
			b = []ref.Aff{
				{X: a.X, Y: ref.Neg(a.Y)}, {X: ref.Neg(a.X), Y: ref.Neg(a.Y)},
				{X: ref.Mul(ref.I, a.Y), Y: ref.Mul(ref.I, a.X)}, {X: ref.Neg(ref.Mul(ref.I, a.Y)), Y: ref.Mul(ref.I, a.X)},
			}[t.Intn(4)]
			name = "coordinate-twin"
		case 3:
			b, name = ref.AddA(a, ref.Base), "plus-base"
		case 4:
			b, name = ref.DoubleA(a), "double"
		case 5:
			b, name = ref.Identity, "identity"
		default:
			b, _ = gen.Even(t)
			name = "unrelated"
		}
		p, cp := rep(t, a)
		q, cq := rep(t, b)
		t.Note("p %s [%s; %s], q %s [%s; %s]", encHex(a), c, cp, encHex(b), name, cq)
		t.Class(name)
		want := ref.Equal(a, b)
		if want != (ref.Encode(a) == ref.Encode(b)) {
			t.Fatalf("HARNESS: model equality is inconsistent")
		}
		t.NonTrivialIf(want && cp != cq || kind >= 1 && kind <= 5)
		w := int32(0)
		if want {
			w = 1
			t.Class("equal")
		}
		if g := p.Equals(q); g != want {
			t.Fatalf("p.Equals(q) = %v, want %v", g, want)
		}
		if g := q.Equals(p); g != want {
			t.Fatalf("q.Equals(p) = %v, want %v", g, want)
		}
		if g := p.EqualsI(q); g != w {
			t.Fatalf("p.EqualsI(q) = %d, want %d", g, w)
		}
		if g := ext(q).RistrettoEqualsI(ext(p)); g != w {
			t.Fatalf("RistrettoEqualsI = %d, want %d", g, w)
		}
		if !p.Equals(p) || p.EqualsI(p) != 1 {
			t.Fatalf("p != p")
		}
		if bytes.Equal(p.Bytes(), q.Bytes()) != want {
			t.Fatalf("encodings equal = %v, want %v", !want, want)
		}
	}})
	reg("C05", &pbt.Law{Name: "history-rep", Rule: "the same element reached in two ways through the library: k*P built by random additions, subtractions, doublings and negations, and by another such route with the same total; encodings and equality must agree with k*P; non-trivial: at least 3 steps", Quick: 15000, Thorough: 400000, Run: func(t *pbt.T) {
		a, p, _ := even(t)
		build := func(label string) (*rist.Point, *big.Int) {
			k := big.NewInt(1)
			q := new(rist.Point).Set(p)
			n := t.Range(0, 10)
			t.NonTrivialIf(n >= 3)
			for i := 0; i < n; i++ {
				switch t.Intn(4) {
				case 0:
					q.Add(q, p)
					k.Add(k, oneB)
				case 1:
					q.Sub(q, p)
					k.Sub(k, oneB)
				case 2:
					q.Double(q)
					k.Lsh(k, 1)
				case 3:
					q.Neg(q)
					k.Neg(k)
				}
			}
			t.Note("%s: %d steps, k=%d", label, n, k)
			return q, k
		}
		q1, k1 := build("route 1")
		q2, k2 := build("route 2")
		// bring both to the same multiple by adding the difference
		diff := new(big.Int).Sub(k1, k2)
		d := ref.MulA(a, diff)
		dp, _ := rep(t, d)
		q2.Add(q2, dp)
		want := ref.MulA(a, k1)
		samePoint(t, "route 1", q1, want)
		samePoint(t, "route 2", q2, want)
		e := ref.Encode(want)
		if !bytes.Equal(q1.Bytes(), e[:]) || !bytes.Equal(q2.Bytes(), e[:]) || !q1.Equals(q2) {
			t.Fatalf("two routes to %s differ: %x %x equal=%v", encHex(want), q1.Bytes(), q2.Bytes(), q1.Equals(q2))
		}
	}})

	reg("C06", &pbt.Law{Name: "group-law", Rule: "pairs of elements in random representations; special partners with probability 1/2 (same, opposite, identity, double, coset shift, same object); non-trivial: special partner or special element class", Quick: 200000, Thorough: 4000000, Run: func(t *pbt.T) {
		a, p, c := even(t)
		var b ref.Aff
		name := "unrelated"
		switch t.Intn(10) {
		case 0:
			b, name = a, "same"
		case 1:
			b, name = ref.NegA(a), "opposite"
		case 2:
			b, name = ref.Identity, "identity"
		case 3:
			b, name = ref.DoubleA(a), "double"
		case 4:
			b, name = ref.NegA(ref.DoubleA(a)), "minus-double"
		default:
			b, _ = gen.Even(t)
		}
		q, _ := rep(t, b)
		if name == "same" && t.Bool() {
			q = p
			name = "same-object"
		}
		t.Note("partner %s [%s]", encHex(b), name)
		t.Class(name)
		t.NonTrivialIf(name != "unrelated" || c == "identity" || c == "small-multiple")
		op := t.Intn(5)
		r := garbagePoint(t)
		check := func(what string, want ref.Aff) {
			t.Note("op %s", what)
			t.Class(what)
			samePoint(t, what, r, want)
			e := ref.Encode(want)
			if !bytes.Equal(r.Bytes(), e[:]) {
				t.Fatalf("%s encodes to %x, want %x", what, r.Bytes(), e)
			}
		}
		switch op {
		case 0:
			r.Add(p, q)
			check("Add", ref.AddA(a, b))
		case 1:
			r.Sub(p, q)
			check("Sub", ref.SubA(a, b))
		case 2:
			r.Double(p)
			check("Double", ref.DoubleA(a))
		case 3:
			r.Neg(p)
			check("Neg", ref.NegA(a))
		case 4:
			r.Set(p)
			check("Set", a)
			r.SetZero()
			check("SetZero", ref.Identity)
			r.SetBase()
			check("SetBase", ref.Base)
		}
	}})
	reg("C06", &pbt.Law{Name: "chains", Rule: "2-25 random additions, subtractions, doublings and negations over three registers (results feed later operands); every step compared with the model; non-trivial: all", Quick: 12000, Thorough: 300000, Run: func(t *pbt.T) {
		var r [3]rist.Point
		var m [3]ref.Aff
		for i := range r {
			a, p, _ := even(t)
			r[i], m[i] = *p, a
		}
		t.NonTrivial()
		n := t.Range(2, 25)
		for k := 0; k < n; k++ {
			d, i, j := t.Intn(3), t.Intn(3), t.Intn(3)
			op := t.Intn(4)
			t.Note("op %d: r%d <- r%d r%d", op, d, i, j)
			switch op {
			case 0:
				r[d].Add(&r[i], &r[j])
				m[d] = ref.AddA(m[i], m[j])
			case 1:
				r[d].Sub(&r[i], &r[j])
				m[d] = ref.SubA(m[i], m[j])
			case 2:
				r[d].Double(&r[i])
				m[d] = ref.DoubleA(m[i])
			case 3:
				r[d].Neg(&r[i])
				m[d] = ref.NegA(m[i])
			}
			for q := range r {
				samePoint(t, "register", &r[q], m[q])
			}
		}
	}})
}

var _ = ed.FieldElement{}
