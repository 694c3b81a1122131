package props

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"

	rist "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

func garbageCompleted(t *pbt.T) *ed.CompletedPoint {
	var p ed.CompletedPoint
	if t.Bool() {
		for _, f := range []*ed.FieldElement{&p.X, &p.Y, &p.Z, &p.T} {
			b, _ := gen.Bytes32(t)
			f.SetBytes(&b)
		}
	}
	return &p
}

// looseFe builds a library element for v in a random internal form.
func looseFe(t *pbt.T, v ref.Fe) *ed.FieldElement {
	f := new(ed.FieldElement)
	switch t.Intn(5) {
	case 1: // negation of the negative
		g := libFe(ref.Neg(v))
		f.Neg(g)
	case 2: // twice
		g := libFe(v)
		var h ed.FieldElement
		h.Neg(g)
		f.Neg(&h)
	case 3: // non-canonical bytes
		x := new(big.Int).Add(v.Big(), ref.P)
		if x.BitLen() <= 255 {
			b := ref.BigToLE32(x)
			f.SetBytes(&b)
		} else {
			setFe(f, v)
		}
	case 4: // a product with one
		g := libFe(v)
		one := libFe(ref.One)
		f.Mul(g, one)
	default:
		setFe(f, v)
	}
	return f
}

func init() {
	reg("C09", &pbt.Law{Name: "map", Rule: "32-byte strings: exceptional elements (0, +-1, +-i, +-sqrt(id), +-sqrt(i/d), constants, preimages of identity and base), edge strings, with top bit and +p forms; SetElligator and SetRistrettoElligator2 against the RFC 9496 MAP in affine arithmetic, also for -t and a non-canonical form; non-trivial: not a uniform canonical string", Quick: 150000, Thorough: 4000000, Run: func(t *pbt.T) {
		b, c := gen.ElligatorBytes(t)
		t.Note("bytes %x [%s]", b, c)
		t.NonTrivialIf(c != "uniform")
		if c == "special" {
			t.Class("exceptional")
		}
		in := b
		want := ref.MapBytes(b)
		p := garbagePoint(t)
		if p.SetElligator(&b) != p {
			t.Fatalf("SetElligator did not return its receiver")
		}
		if b != in {
			t.Fatalf("SetElligator changed its input")
		}
		samePoint(t, "SetElligator", p, want)
		if got, _ := affOf(ext(p)); !ref.IsEvenFast(got) {
			t.Fatalf("SetElligator gave an odd point")
		}
		e := ref.Encode(want)
		if !bytes.Equal(p.Bytes(), e[:]) {
			t.Fatalf("SetElligator encodes to %x, want %x", p.Bytes(), e)
		}
		f := ref.FromBytesMod(b)
		if t.Bool() {
			f = ref.Neg(f)
		}
		lf := looseFe(t, f)
		before := feOf(lf)
		cp := garbageCompleted(t)
		if cp.SetRistrettoElligator2(lf) != cp {
			t.Fatalf("SetRistrettoElligator2 did not return its receiver")
		}
		if feOf(lf) != before {
			t.Fatalf("SetRistrettoElligator2 changed its input")
		}
		q := garbagePoint(t)
		ext(q).SetCompleted(cp)
		samePoint(t, "SetRistrettoElligator2", q, want)
	}})
	reg("C09", &pbt.Law{Name: "derive", Rule: "data of lengths around the SHA-512 block boundaries, short, medium and large, nil and slices with spare capacity; Derive against MAP(SHA-512[:32]), DeriveDalek against the RFC 9496 sum; repeated call must agree; non-trivial: length not a multiple of 32, or zero, or over one block", Quick: 60000, Thorough: 1500000, Run: func(t *pbt.T) {
		d, c := gen.Data(t)
		if len(d) == 0 && t.Bool() {
			d = nil
			c = "nil"
		}
		t.Note("data[%d] %.40x.. [%s]", len(d), d, c)
		t.Class(c)
		t.NonTrivialIf(len(d)%32 != 0 || len(d) == 0 || len(d) > 111)
		in := append([]byte{}, d...)
		h := sha512.Sum512(d)
		var h1, h2 [32]byte
		copy(h1[:], h[:32])
		copy(h2[:], h[32:])
		m1, m2 := ref.MapBytes(h1), ref.MapBytes(h2)
		p := garbagePoint(t)
		if p.Derive(d) != p {
			t.Fatalf("Derive did not return its receiver")
		}
		samePoint(t, "Derive", p, m1)
		q := garbagePoint(t)
		if q.DeriveDalek(d) != q {
			t.Fatalf("DeriveDalek did not return its receiver")
		}
		samePoint(t, "DeriveDalek", q, ref.AddA(m1, m2))
		if t.OneIn(4) {
			samePoint(t, "Derive again", p.Derive(d), m1)
			samePoint(t, "DeriveDalek again", q.DeriveDalek(d), ref.AddA(m1, m2))
		}
		if !bytes.Equal(d, in) {
			t.Fatalf("the data was changed")
		}
	}})
	reg("C09", &pbt.Law{Name: "small", Rule: "exhaustive: t = 0..4095 and p-1-k, both halves with the top bit; non-trivial: all", Enum: 16384, Quick: 16384, Thorough: 16384, Run: func(t *pbt.T) {
		k := t.Intn(16384)
		f := ref.FromU64(uint64(k >> 2))
		if k&1 != 0 {
			f = ref.Sub(ref.MinusOne, f)
		}
		b := f.Bytes()
		if k&2 != 0 {
			b[31] |= 0x80
		}
		t.NonTrivial()
		t.Note("bytes %x", b)
		p := new(rist.Point)
		p.SetElligator(&b)
		samePoint(t, "SetElligator", p, ref.MapBytes(b))
	}})

	inverse := func(t *pbt.T, p *ed.ExtendedPoint, a ref.Aff) {
		var fes [8]ed.FieldElement
		for i := range fes {
			if t.OneIn(3) {
				fes[i] = *looseFe(t, ref.FromU64(uint64(i)))
			}
		}
		mask := p.RistrettoElligator2Inverse(&fes)
		got := map[ref.Fe]bool{}
		for j := 0; j < 8; j++ {
			if mask>>uint(j)&1 == 0 {
				continue
			}
			v := feOf(&fes[j])
			if ref.IsNeg(v) {
				t.Fatalf("preimage %s is negative", v.Hex())
			}
			got[v] = true
			if m := ref.Map(v); !ref.Equal(m, a) {
				t.Fatalf("returned %s, which maps to %s, not to %s", v.Hex(), encHex(m), encHex(a))
			}
			var cp ed.CompletedPoint
			var q rist.Point
			cp.SetRistrettoElligator2(&fes[j])
			ext(&q).SetCompleted(&cp)
			samePoint(t, "map of a returned preimage", &q, a)
		}
		want := ref.Preimages(a)
		t.Class("preimages=" + string(rune('0'+len(want))))
		for _, v := range want {
			if !got[v] {
				t.Fatalf("preimage %s of %s is missing (mask %08b)", v.Hex(), encHex(a), mask)
			}
		}
		if len(got) != len(want) {
			t.Fatalf("%d preimages returned, %d exist", len(got), len(want))
		}
	}
	reg("C10", &pbt.Law{Name: "inverse", Rule: "elements of all classes (identity and its four representatives included, images of edge and exceptional field elements) in random representations; the returned set must equal the set found by solving the map's equation in the model, every value must be non-negative and map back; fes pre-filled with junk; non-trivial: at least one preimage or the identity class", Quick: 12000, Thorough: 300000, Run: func(t *pbt.T) {
		a, c := gen.Even(t)
		if t.OneIn(12) {
			a, c = ref.Identity, "identity"
		}
		p, c2 := rep(t, a)
		t.Note("point %s [%s; %s]", encHex(a), c, c2)
		t.Class(c)
		t.NonTrivialIf(len(ref.Preimages(a)) > 0)
		x0, y0, z0, t0 := feOf(&p.X), feOf(&p.Y), feOf(&p.Z), feOf(&p.T)
		inverse(t, ext(p), a)
		if feOf(&p.X) != x0 || feOf(&p.Y) != y0 || feOf(&p.Z) != z0 || feOf(&p.T) != t0 {
			t.Fatalf("the point was changed")
		}
	}})
	reg("C10", &pbt.Law{Name: "own-preimage", Rule: "cheap one-sided form for many points: for edge field element v, |v| must be among the preimages returned for the image of v (through the library's own map, any representation), every returned value must map back; non-trivial: v not uniform", Quick: 80000, Thorough: 2000000, Run: func(t *pbt.T) {
		v, c := gen.Fe(t)
		t.Note("v %s [%s]", v.Hex(), c)
		t.NonTrivialIf(c != "uniform")
		a := ref.Map(v)
		p, _ := rep(t, a)
		var fes [8]ed.FieldElement
		mask := ext(p).RistrettoElligator2Inverse(&fes)
		found := false
		for j := 0; j < 8; j++ {
			if mask>>uint(j)&1 == 0 {
				continue
			}
			w := feOf(&fes[j])
			if w == ref.Abs(v) {
				found = true
			}
			if ref.IsNeg(w) {
				t.Fatalf("preimage %s is negative", w.Hex())
			}
			if !ref.Equal(ref.Map(w), a) {
				t.Fatalf("returned %s, which does not map to the point", w.Hex())
			}
		}
		if !found {
			t.Fatalf("|v| is not among the preimages (mask %08b)", mask)
		}
	}})
	reg("C10", &pbt.Law{Name: "jacobi", Rule: "the four Jacobi quartic points of a point, and their duals, must lie on the quartic and map back to the same element; non-trivial: all", Quick: 60000, Thorough: 1500000, Run: func(t *pbt.T) {
		a, p, c := even(t)
		t.Class(c)
		t.NonTrivial()
		var qs [4]ed.JacobiPoint
		if t.Bool() {
			for i := range qs {
				qs[i].S = *looseFe(t, ref.FromU64(uint64(i+3)))
				qs[i].T = *looseFe(t, ref.FromU64(uint64(i+7)))
			}
		}
		if ext(p).ToJacobiQuarticRistretto(&qs) != ext(p) {
			t.Fatalf("ToJacobiQuarticRistretto did not return its receiver")
		}
		for i := range qs {
			jc := qs[i]
			if t.Bool() {
				var d ed.JacobiPoint
				if d.Dual(&jc) != &d {
					t.Fatalf("Dual did not return its receiver")
				}
				if feOf(&d.S) != ref.Neg(feOf(&jc.S)) || feOf(&d.T) != ref.Neg(feOf(&jc.T)) {
					t.Fatalf("Dual of (%s, %s) is (%s, %s)", feHex(&jc.S), feHex(&jc.T), feHex(&d.S), feHex(&d.T))
				}
				jc = d
				t.Class("dual")
			}
			s, tt := feOf(&jc.S), feOf(&jc.T)
			s0, t0 := s, tt
			cp := garbageCompleted(t)
			if cp.SetJacobiQuartic(&jc) != cp {
				t.Fatalf("SetJacobiQuartic did not return its receiver")
			}
			if feOf(&jc.S) != s0 || feOf(&jc.T) != t0 {
				t.Fatalf("SetJacobiQuartic changed its argument")
			}
			q := garbagePoint(t)
			ext(q).SetCompleted(cp)
			samePoint(t, "SetJacobiQuartic", q, a)
		}
	}})

	reg("C11", &pbt.Law{Name: "roundtrip", Rule: "16-byte payloads of edge and uniform classes; the point must be the Elligator image of the documented buffer, and Lizard/LizardInto of any representation of it must return the payload; non-trivial: payload not uniform or representation not affine", Quick: 60000, Thorough: 1500000, Run: func(t *pbt.T) {
		m, c := payload(t)
		in := m
		p := garbagePoint(t)
		if p.SetLizard(&m) != p {
			t.Fatalf("SetLizard did not return its receiver")
		}
		if m != in {
			t.Fatalf("SetLizard changed its input")
		}
		a := ref.MapBytes(lizardBuf(m))
		samePoint(t, "SetLizard", p, a)
		c2 := "as made"
		if t.Bool() {
			p, c2 = rep(t, a)
		}
		t.Note("payload %x [%s; %s]", m, c, c2)
		t.NonTrivialIf(c != "uniform" || c2 != "Z=1" && c2 != "as made")
		if got := p.Lizard(); !bytes.Equal(got, m[:]) {
			t.Fatalf("Lizard = %x, want %x", got, m)
		}
		var buf [16]byte
		t.Fill(buf[:])
		if err := p.LizardInto(&buf); err != nil || buf != m {
			t.Fatalf("LizardInto = %x, %v; want %x", buf, err, m)
		}
	}})
	reg("C11", &pbt.Law{Name: "near-miss", Rule: "images of buffers that differ from a Lizard buffer in one or two bits (check part, payload part, sign bit, the two cleared top bits), of unrelated buffers and multiples, and of points where a root of the wrong unit would give a Lizard buffer: decoding must succeed exactly if the model finds exactly one preimage of Lizard form; non-trivial: near-miss in the check bits", Quick: 12000, Thorough: 250000, Run: func(t *pbt.T) {
		m, _ := payload(t)
		b := lizardBuf(m)
		kind := t.Weighted(8, 3, 2, 2, 2, 2, 3)
		name := ""
		var a ref.Aff
		switch kind {
		case 0: // one check bit
			bit := t.Intn(128)
			if bit < 64 {
				b[bit/8] ^= 1 << uint(bit%8)
			} else {
				b[24+(bit-64)/8] ^= 1 << uint(bit%8)
			}
			name = "check-bit"
			t.NonTrivial()
		case 1: // one payload bit
			bit := t.Intn(128)
			b[8+bit/8] ^= 1 << uint(bit%8)
			name = "payload-bit"
			t.NonTrivial()
		case 2: // a hash without masking
			h := sha256.Sum256(m[:])
			copy(h[8:], m[:])
			b = h
			name = "unmasked"
			t.NonTrivial()
		case 3:
			name = "exact"
		case 4:
			b, _ = gen.ElligatorBytes(t)
			name = "other"
		}
		if kind == 5 {
			a, name = gen.Even(t)
			name = "element-" + name
		} else if kind == 6 {
			// the map's equations at a parameter that the map never uses: an
			// inverse that takes a root of the wrong unit finds the payload
			v := ref.FromBytesMod(b)
			r := ref.Sq(v)
			if t.Bool() {
				r = ref.Neg(r)
			}
			if t.Intn(4) == 0 {
				r = ref.Mul(r, ref.I)
			}
			var ok bool
			a, ok = ref.Formal(r, t.Intn(2), t.Bool())
			name = "phantom"
			if !ok {
				a = ref.NegA(ref.Map(v))
				name = "negated"
			}
			t.NonTrivial()
		} else {
			a = ref.MapBytes(b)
		}
		t.Note("payload %x, buffer %x [%s]", m, b, name)
		t.Class(name)
		var want [][16]byte
		for _, v := range ref.Preimages(a) {
			vb := v.Bytes()
			var pl [16]byte
			copy(pl[:], vb[8:24])
			if lizardBuf(pl) == vb {
				want = append(want, pl)
			}
		}
		p, _ := rep(t, a)
		got := p.Lizard()
		var buf [16]byte
		err := p.LizardInto(&buf)
		if len(want) == 1 {
			t.Class("decodes")
			if !bytes.Equal(got, want[0][:]) || err != nil || buf != want[0] {
				t.Fatalf("Lizard = %x, LizardInto = %x, %v; want %x", got, buf, err, want[0])
			}
			return
		}
		t.Class("rejected")
		if got != nil || err == nil {
			t.Fatalf("decoded %x, %x, %v although the point has %d Lizard preimages", got, buf, err, len(want))
		}
	}})
	reg("C11", &pbt.Law{Name: "each-check-bit", Rule: "exhaustive per payload: each of the 128 check bits flipped alone; decoding must fail unless that bit does not survive into the field element (sign: the other preimage is the payload's own) - decided by the model; non-trivial: all", Enum: 128, Quick: 1280, Thorough: 25600, Run: func(t *pbt.T) {
		bit := t.Intn(128)
		m, _ := payload(t)
		b := lizardBuf(m)
		if bit < 64 {
			b[bit/8] ^= 1 << uint(bit%8)
		} else {
			b[24+(bit-64)/8] ^= 1 << uint(bit%8)
		}
		t.NonTrivial()
		t.Note("payload %x bit %d", m, bit)
		a := ref.MapBytes(b)
		n := 0
		var pl, keep [16]byte
		for _, v := range ref.Preimages(a) {
			vb := v.Bytes()
			copy(pl[:], vb[8:24])
			if lizardBuf(pl) == vb {
				n++
				keep = pl
			}
		}
		p, _ := rep(t, a)
		got := p.Lizard()
		if n == 1 {
			if !bytes.Equal(got, keep[:]) {
				t.Fatalf("Lizard = %x, want %x", got, keep)
			}
		} else if got != nil {
			t.Fatalf("Lizard = %x although no preimage has Lizard form (bit %d flipped)", got, bit)
		}
	}})
}

func payload(t *pbt.T) ([16]byte, string) {
	var m [16]byte
	if v, ok := t.Recall("payload"); ok {
		m = v.([16]byte)
		b := ref.BigToLE32(gen.RelatedBig(t, ref.LEToBig(m[:])))
		copy(m[:], b[:16])
		t.Remember("payload", m)
		return m, "related"
	}
	b, c := gen.Bytes32(t)
	k := 0
	if c != "uniform" {
		k = t.Intn(17)
	}
	copy(m[:], b[k:])
	t.Remember("payload", m)
	return m, c
}

// lizardBuf is the documented Lizard buffer of a payload.
func lizardBuf(m [16]byte) [32]byte {
	b := sha256.Sum256(m[:])
	copy(b[8:], m[:])
	b[0] &= 254
	b[31] &= 63
	return b
}
