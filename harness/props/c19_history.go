package props

import (
	"bytes"
	"crypto/sha512"
	"encoding/base64"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"

	rist "github.com/bwesterb/go-ristretto"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// world is a set of library variables next to their model values.
type world struct {
	t  *pbt.T
	p  []rist.Point
	pm []ref.Aff
	pd []bool // defined
	s  []rist.Scalar
	sm []*big.Int
	tb []rist.ScalarMultTable
	tm []ref.Aff
	td []bool
	// byte strings handed out earlier, and what they must still hold
	kept, keptWant [][]byte
	reuse          int
}

func (w *world) point() int {
	t := w.t
	i := t.Intn(len(w.p))
	for k := 0; !w.pd[i]; k++ {
		i = (i + 1) % len(w.p)
		if k > len(w.p) {
			w.p[0].SetBase()
			w.pm[0], w.pd[0] = ref.Base, true
			return 0
		}
	}
	return i
}

func (w *world) setp(i int, what string, ret *rist.Point, v ref.Aff) {
	if ret != nil && ret != &w.p[i] {
		w.t.Fatalf("%s did not return its receiver", what)
	}
	w.pm[i], w.pd[i] = v, true
	samePoint(w.t, what, &w.p[i], v)
}

func (w *world) sets(i int, what string, ret *rist.Scalar, v *big.Int) {
	if ret != nil && ret != &w.s[i] {
		w.t.Fatalf("%s did not return its receiver", what)
	}
	w.sm[i] = modL(v)
	sameScalar(w.t, what, &w.s[i], w.sm[i])
}

func (w *world) keep(b, want []byte) {
	if !bytes.Equal(b, want) {
		w.t.Fatalf("encoded as %x, want %x", b, want)
	}
	w.kept = append(w.kept, b)
	w.keptWant = append(w.keptWant, append([]byte(nil), want...))
}

func (w *world) checkAll(when string) {
	for i := range w.p {
		if w.pd[i] {
			samePoint(w.t, fmt.Sprintf("%s: p%d", when, i), &w.p[i], w.pm[i])
		}
	}
	for i := range w.s {
		sameScalar(w.t, fmt.Sprintf("%s: s%d", when, i), &w.s[i], w.sm[i])
	}
	for i := range w.kept {
		if !bytes.Equal(w.kept[i], w.keptWant[i]) {
			w.t.Fatalf("%s: a byte string returned earlier changed from %x to %x", when, w.keptWant[i], w.kept[i])
		}
	}
}

var stepNames = [49]string{"Add", "Add", "Sub", "Sub", "Double", "Neg", "Set", "constant point", "ScalarMult", "PublicScalarMult",
	"ScalarMultBase", "PublicScalarMultBase", "table Compute", "ScalarMultTable", "ScalarMultTable", "PublicScalarMultTable",
	"encode", "decode", "decode any bytes", "Equals", "ConditionalSet", "derive or map", "Lizard", "Point.Rand",
	"scalar ring operation", "scalar ring operation", "scalar ring operation", "scalar Inverse", "scalar Set", "constant scalar", "scalar from bytes", "scalar round trip", "scalar comparison",
	"ElGamal", "ElGamal", "commitment", "commitment", "JSON", "gob", "accumulation",
	"related scalars", "related scalars", "related points", "related points",
	"any binary", "any text", "any text", "Lizard of anything", "scalar from anything"}

type wire struct {
	P rist.Point
	S rist.Scalar
	Q *rist.Point
}

// step performs one operation.
func (w *world) step(n int) {
	t := w.t
	r := t.Intn(len(w.p))
	sr := t.Intn(len(w.s))
	note := func(f string, a ...interface{}) { t.Note("%d: "+f, append([]interface{}{n}, a...)...) }
	pick := func() (int, ref.Aff) { i := w.point(); return i, w.pm[i] }
	picks := func() (int, *big.Int) { i := t.Intn(len(w.s)); return i, w.sm[i] }
	neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	op := t.Intn(49)
	switch op {
	case 0, 1:
		i, a := pick()
		j, b := pick()
		note("p%d.Add(p%d, p%d)", r, i, j)
		w.setp(r, "Add", w.p[r].Add(&w.p[i], &w.p[j]), ref.AddA(a, b))
	case 2, 3:
		i, a := pick()
		j, b := pick()
		note("p%d.Sub(p%d, p%d)", r, i, j)
		w.setp(r, "Sub", w.p[r].Sub(&w.p[i], &w.p[j]), ref.SubA(a, b))
	case 4:
		i, a := pick()
		note("p%d.Double(p%d)", r, i)
		w.setp(r, "Double", w.p[r].Double(&w.p[i]), ref.DoubleA(a))
	case 5:
		i, a := pick()
		note("p%d.Neg(p%d)", r, i)
		w.setp(r, "Neg", w.p[r].Neg(&w.p[i]), ref.NegA(a))
	case 6:
		i, a := pick()
		if t.Bool() {
			note("p%d.Set(p%d)", r, i)
			w.setp(r, "Set", w.p[r].Set(&w.p[i]), a)
		} else {
			note("p%d = p%d", r, i)
			w.p[r] = w.p[i]
			w.setp(r, "assignment", nil, a)
		}
	case 7:
		if t.Bool() {
			note("p%d.SetZero", r)
			w.setp(r, "SetZero", w.p[r].SetZero(), ref.Identity)
		} else {
			note("p%d.SetBase", r)
			w.setp(r, "SetBase", w.p[r].SetBase(), ref.Base)
		}
	case 8, 9:
		i, a := pick()
		k, x := picks()
		if op == 8 {
			note("p%d.ScalarMult(p%d, s%d)", r, i, k)
			w.setp(r, "ScalarMult", w.p[r].ScalarMult(&w.p[i], &w.s[k]), ref.MulA(a, x))
		} else {
			note("p%d.PublicScalarMult(p%d, s%d)", r, i, k)
			w.setp(r, "PublicScalarMult", w.p[r].PublicScalarMult(&w.p[i], &w.s[k]), ref.MulA(a, x))
		}
	case 10:
		k, x := picks()
		note("p%d.ScalarMultBase(s%d)", r, k)
		w.setp(r, "ScalarMultBase", w.p[r].ScalarMultBase(&w.s[k]), gen.MulBase(x))
	case 11:
		k, x := picks()
		note("p%d.PublicScalarMultBase(s%d)", r, k)
		w.setp(r, "PublicScalarMultBase", w.p[r].PublicScalarMultBase(&w.s[k]), gen.MulBase(x))
	case 12:
		i, a := pick()
		k := t.Intn(len(w.tb))
		note("t%d.Compute(p%d)", k, i)
		w.tb[k].Compute(&w.p[i])
		w.tm[k], w.td[k] = a, true
	case 13, 14, 15:
		k := t.Intn(len(w.tb))
		if !w.td[k] {
			return
		}
		i, x := picks()
		if op == 15 {
			note("p%d.PublicScalarMultTable(t%d, s%d)", r, k, i)
			w.setp(r, "PublicScalarMultTable", w.p[r].PublicScalarMultTable(&w.tb[k], &w.s[i]), ref.MulA(w.tm[k], x))
		} else {
			note("p%d.ScalarMultTable(t%d, s%d)", r, k, i)
			w.setp(r, "ScalarMultTable", w.p[r].ScalarMultTable(&w.tb[k], &w.s[i]), ref.MulA(w.tm[k], x))
		}
	case 16: // encode in any form, and keep what was returned
		i, a := pick()
		e := ref.Encode(a)
		note("encode p%d", i)
		switch t.Intn(4) {
		case 0:
			w.keep(w.p[i].Bytes(), e[:])
		case 1:
			b, err := w.p[i].MarshalBinary()
			if err != nil {
				t.Fatalf("MarshalBinary: %v", err)
			}
			w.keep(b, e[:])
		case 2:
			b, err := w.p[i].MarshalText()
			if err != nil {
				t.Fatalf("MarshalText: %v", err)
			}
			w.keep(b, []byte(b64.EncodeToString(e[:])))
		default:
			var b [32]byte
			if w.p[i].BytesInto(&b) != &w.p[i] || b != e {
				t.Fatalf("BytesInto gives %x, want %x", b, e)
			}
		}
	case 17: // decode a valid encoding, then clobber the buffer
		_, a := pick()
		if t.OneIn(3) {
			a, _ = gen.Even(t)
		}
		e := ref.Encode(a)
		b := e
		note("decode %x into p%d", e, r)
		switch t.Intn(3) {
		case 0:
			if !w.p[r].SetBytes(&b) {
				t.Fatalf("SetBytes refuses %x", e)
			}
			b = [32]byte{1, 2, 3}
		case 1:
			d := append([]byte(nil), e[:]...)
			if err := w.p[r].UnmarshalBinary(d); err != nil {
				t.Fatalf("UnmarshalBinary refuses %x: %v", e, err)
			}
			for i := range d {
				d[i] = 0xee
			}
		default:
			d := []byte(b64.EncodeToString(e[:]))
			if err := w.p[r].UnmarshalText(d); err != nil {
				t.Fatalf("UnmarshalText refuses %s: %v", d, err)
			}
			for i := range d {
				d[i] = 'x'
			}
		}
		w.setp(r, "decoding", nil, a)
	case 18: // a failing decode leaves everything else alone
		v, _ := gen.Fe(t)
		b := v.Bytes()
		if t.Bool() {
			b, _ = gen.Bytes32(t)
		}
		a, ok := ref.Decode(b)
		note("decode %x (valid: %v) into p%d", b, ok, r)
		var got bool
		in := b
		if t.Bool() {
			got = w.p[r].SetBytes(&in)
		} else {
			got = w.p[r].UnmarshalBinary(in[:]) == nil
		}
		if in != b {
			t.Fatalf("decoding changed its input from %x to %x", b, in)
		}
		if got != ok {
			t.Fatalf("decoding %x: %v, want %v", b, got, ok)
		}
		if ok {
			w.setp(r, "decoding", nil, a)
		} else {
			w.pd[r] = false
		}
	case 19:
		i, a := pick()
		j, b := pick()
		note("p%d.Equals(p%d)", i, j)
		eq := ref.Equal(a, b)
		if w.p[i].Equals(&w.p[j]) != eq || (w.p[i].EqualsI(&w.p[j]) == 1) != eq {
			t.Fatalf("Equals(%s, %s) is not %v", encHex(a), encHex(b), eq)
		}
	case 20:
		if !w.pd[r] {
			return
		}
		i, a := pick()
		f := t.Intn(2)
		note("p%d.ConditionalSet(p%d, %d)", r, i, f)
		w.p[r].ConditionalSet(&w.p[i], int32(f))
		if f == 0 {
			a = w.pm[r]
		}
		w.setp(r, "ConditionalSet", nil, a)
	case 21:
		d, _ := gen.Data(t)
		if len(d) > 300 && !t.OneIn(8) {
			d = d[:300]
		}
		was := append([]byte(nil), d...)
		h := sha512.Sum512(d)
		var h1, h2 [32]byte
		copy(h1[:], h[:32])
		copy(h2[:], h[32:])
		switch t.Intn(3) {
		case 0:
			note("p%d.Derive(%d bytes)", r, len(d))
			w.setp(r, "Derive", w.p[r].Derive(d), ref.MapBytes(h1))
		case 1:
			note("p%d.DeriveDalek(%d bytes)", r, len(d))
			w.setp(r, "DeriveDalek", w.p[r].DeriveDalek(d), ref.AddA(ref.MapBytes(h1), ref.MapBytes(h2)))
		default:
			b, _ := gen.ElligatorBytes(t)
			note("p%d.SetElligator(%x)", r, b)
			in := b
			w.setp(r, "SetElligator", w.p[r].SetElligator(&in), ref.MapBytes(b))
			if in != b {
				t.Fatalf("SetElligator changed its input from %x to %x", b, in)
			}
		}
		if !bytes.Equal(d, was) {
			t.Fatalf("deriving a point changed the data")
		}
	case 22:
		m, _ := payload(t)
		note("p%d.SetLizard(%x) and back", r, m)
		w.setp(r, "SetLizard", w.p[r].SetLizard(&m), ref.MapBytes(lizardBuf(m)))
		w.keep(w.p[r].Lizard(), m[:])
	case 23:
		note("p%d.Rand()", r)
		if w.p[r].Rand() != &w.p[r] {
			t.Fatalf("Rand did not return its receiver")
		}
		a, bad := affOf(ext(&w.p[r]))
		if bad != "" || !ref.IsEvenFast(a) {
			t.Fatalf("Rand gives no group element: %s", bad)
		}
		w.setp(r, "Rand", nil, a)
		if t.Bool() {
			// keep the case reproducible
			w.setp(r, "SetBase", w.p[r].SetBase(), ref.Base)
		}
	case 24, 25, 26:
		i, a := picks()
		j, b := picks()
		k, c := picks()
		o := t.Intn(7)
		note("s%d.%s(s%d, s%d, s%d)", sr, []string{"Add", "Sub", "Mul", "MulAdd", "MulSub", "Square", "Neg"}[o], i, j, k)
		A, B, C, R := &w.s[i], &w.s[j], &w.s[k], &w.s[sr]
		v := new(big.Int)
		switch o {
		case 0:
			v.Add(a, b)
			w.sets(sr, "Add", R.Add(A, B), v)
		case 1:
			v.Sub(a, b)
			w.sets(sr, "Sub", R.Sub(A, B), v)
		case 2:
			v.Mul(a, b)
			w.sets(sr, "Mul", R.Mul(A, B), v)
		case 3:
			v.Add(v.Mul(a, b), c)
			w.sets(sr, "MulAdd", R.MulAdd(A, B, C), v)
		case 4:
			v.Sub(v.Mul(a, b), c)
			w.sets(sr, "MulSub", R.MulSub(A, B, C), v)
		case 5:
			v.Mul(a, a)
			w.sets(sr, "Square", R.Square(A), v)
		case 6:
			w.sets(sr, "Neg", R.Neg(A), neg(a))
		}
	case 27:
		i, a := picks()
		if a.Sign() == 0 {
			return
		}
		note("s%d.Inverse(s%d)", sr, i)
		w.sets(sr, "Inverse", w.s[sr].Inverse(&w.s[i]), new(big.Int).ModInverse(a, ref.L))
	case 28:
		i, a := picks()
		note("s%d = s%d", sr, i)
		v := new(big.Int).Set(a)
		switch t.Intn(3) {
		case 0:
			w.sets(sr, "Set", w.s[sr].Set(&w.s[i]), v)
		case 1:
			w.s[sr] = w.s[i]
			w.sets(sr, "assignment", nil, v)
		default:
			f := t.Intn(2)
			if f == 0 {
				v.Set(w.sm[sr])
			}
			w.s[sr].ConditionalSet(&w.s[i], int32(f))
			w.sets(sr, "ConditionalSet", nil, v)
		}
	case 29:
		switch t.Intn(5) {
		case 0:
			w.sets(sr, "SetZero", w.s[sr].SetZero(), new(big.Int))
		case 1:
			w.sets(sr, "SetOne", w.s[sr].SetOne(), big.NewInt(1))
		case 2:
			x := t.Raw() >> uint(t.Intn(64))
			w.sets(sr, "SetUint64", w.s[sr].SetUint64(x), new(big.Int).SetUint64(x))
		case 3:
			x, _ := gen.Big256(t)
			if t.Bool() {
				x = neg(x)
			}
			if t.OneIn(4) {
				y, _ := gen.Big256(t)
				x = new(big.Int).Mul(x, y)
			}
			in := new(big.Int).Set(x)
			R := w.s[sr].SetBigInt(in)
			if in.Cmp(x) != 0 {
				t.Fatalf("SetBigInt changed its argument from %x to %x", x, in)
			}
			w.sets(sr, "SetBigInt", R, x)
		default:
			if w.s[sr].Rand() != &w.s[sr] {
				t.Fatalf("Rand did not return its receiver")
			}
			v := bigOf(&w.s[sr])
			if v.Cmp(ref.L) >= 0 {
				t.Fatalf("Rand gives an unreduced scalar %x", v)
			}
			w.sm[sr] = v
		}
		note("s%d constant or random", sr)
	case 30:
		switch t.Intn(4) {
		case 0:
			b, _ := b32Scalar(t)
			in := b
			w.sets(sr, "SetBytes", w.s[sr].SetBytes(&in), refScalarBytes(b))
			if in != b {
				t.Fatalf("SetBytes changed its input from %x to %x", b, in)
			}
		case 1:
			b, _ := b32Scalar(t)
			ok := ref.LEToBig(b[:]).Cmp(ref.L) < 0
			if w.s[sr].SetBytesStrict(&b) != ok {
				t.Fatalf("SetBytesStrict(%x) is not %v", b, ok)
			}
			if ok {
				w.sets(sr, "SetBytesStrict", nil, ref.LEToBig(b[:]))
			} else {
				w.sets(sr, "after a failed SetBytesStrict", nil, w.sm[sr])
			}
		case 2:
			b, _ := gen.Bytes64(t)
			in := b
			w.sets(sr, "SetReduced", w.s[sr].SetReduced(&in), ref.LEToBig(b[:]))
			if in != b {
				t.Fatalf("SetReduced changed its input from %x to %x", b, in)
			}
		default:
			d, _ := gen.Data(t)
			h := sha512.Sum512(d)
			w.sets(sr, "Derive", w.s[sr].Derive(d), ref.LEToBig(h[:]))
		}
		note("s%d set from bytes", sr)
	case 31:
		i, a := picks()
		b := ref.BigToLE32(a)
		note("s%d through its encoding of s%d", sr, i)
		var err error
		switch t.Intn(3) {
		case 0:
			w.keep(w.s[i].Bytes(), b[:])
			err = w.s[sr].UnmarshalBinary(w.kept[len(w.kept)-1])
		case 1:
			x, _ := w.s[i].MarshalText()
			w.keep(x, []byte(b64.EncodeToString(b[:])))
			err = w.s[sr].UnmarshalText(x)
		default:
			x := w.s[i].BigInt()
			if x.Cmp(a) != 0 {
				t.Fatalf("BigInt is %x, want %x", x, a)
			}
			w.s[sr].SetBigInt(x)
			x.SetInt64(7) // the caller's to change
		}
		if err != nil {
			t.Fatalf("unmarshalling a scalar: %v", err)
		}
		w.sets(sr, "round trip", nil, new(big.Int).Set(a))
	case 32:
		i, a := picks()
		j, b := picks()
		note("compare s%d s%d", i, j)
		eq := a.Cmp(b) == 0
		if w.s[i].Equals(&w.s[j]) != eq || (w.s[i].EqualsI(&w.s[j]) == 1) != eq || (w.s[i].IsNonZeroI() == 1) != (a.Sign() != 0) {
			t.Fatalf("comparison of %x and %x", a, b)
		}
	case 33, 34: // ElGamal: encrypt p_i under a fresh key, decrypt into r
		i, a := pick()
		sk, x := picks()
		k, y := picks()
		note("ElGamal of p%d with key s%d and nonce s%d into p%d", i, sk, k, r)
		var pk, c1, c2, bl rist.Point
		pk.ScalarMultBase(&w.s[sk])
		c2.ScalarMultBase(&w.s[k])
		if t.Bool() {
			c1.PublicScalarMult(&pk, &w.s[k])
		} else {
			c1.ScalarMult(&pk, &w.s[k])
		}
		c1.Add(&c1, &w.p[i])
		samePoint(t, "ciphertext", &c1, ref.AddA(gen.MulBase(modL(new(big.Int).Mul(x, y))), a))
		// over the wire
		e1, e2 := c1.Bytes(), c2.Bytes()
		var d1, d2 rist.Point
		if d1.UnmarshalBinary(e1) != nil || d2.UnmarshalBinary(e2) != nil {
			t.Fatalf("ciphertext %x %x does not decode", e1, e2)
		}
		bl.ScalarMult(&d2, &w.s[sk])
		w.setp(r, "ElGamal decryption", w.p[r].Sub(&d1, &bl), a)
	case 35, 36: // commitments and a linear combination both ways
		i, a := pick()
		j, x := picks()
		k, y := picks()
		note("p%d = s%d p%d + s%d B, Pedersen", r, j, i, k)
		var u, v, c rist.Point
		u.ScalarMult(&w.p[i], &w.s[j])
		v.ScalarMultBase(&w.s[k])
		c.Add(&u, &v)
		want := ref.AddA(ref.MulA(a, x), gen.MulBase(y))
		// x(A + y/x B)
		if x.Sign() != 0 {
			var q rist.Scalar
			q.Inverse(&w.s[j])
			q.Mul(&q, &w.s[k])
			var z rist.Point
			z.ScalarMultBase(&q)
			z.Add(&z, &w.p[i])
			z.ScalarMult(&z, &w.s[j])
			if !z.Equals(&c) {
				t.Fatalf("x(A + (y/x)B) != xA + yB")
			}
		}
		w.p[r] = c
		w.setp(r, "commitment", nil, want)
	case 37: // JSON
		i, a := pick()
		k, x := picks()
		note("JSON of p%d, s%d into p%d, s%d", i, k, r, sr)
		b, err := json.Marshal(&wire{P: w.p[i], S: w.s[k], Q: &w.p[i]})
		if err != nil {
			t.Fatalf("JSON: %v", err)
		}
		var out wire
		if err := json.Unmarshal(b, &out); err != nil || out.Q == nil {
			t.Fatalf("JSON %s: %v", b, err)
		}
		samePoint(t, "JSON", &out.P, a)
		w.p[r] = *out.Q
		w.s[sr] = out.S
		v := new(big.Int).Set(x)
		w.setp(r, "JSON", nil, a)
		w.sets(sr, "JSON", nil, v)
	case 38: // gob
		i, a := pick()
		k, x := picks()
		note("gob of p%d, s%d into p%d, s%d", i, k, r, sr)
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(&wire{P: w.p[i], S: w.s[k], Q: &w.p[i]}); err != nil {
			t.Fatalf("gob: %v", err)
		}
		var out wire
		if err := gob.NewDecoder(&buf).Decode(&out); err != nil || out.Q == nil {
			t.Fatalf("gob: %v", err)
		}
		samePoint(t, "gob", &out.P, a)
		w.p[r] = *out.Q
		w.s[sr] = out.S
		v := new(big.Int).Set(x)
		w.setp(r, "gob", nil, a)
		w.sets(sr, "gob", nil, v)
	case 40, 41: // a scalar that is nearly another one, and an operation on both
		i, a := picks()
		x := modL(gen.RelatedBig(t, a))
		note("s%d = s%d with a small change: %x", sr, i, x)
		w.sets(sr, "SetBigInt", w.s[sr].SetBigInt(x), new(big.Int).Set(x))
		o := t.Intn(5)
		note("operation %d on s%d and s%d", o, i, sr)
		q, c := pick()
		for _, k := range []int{i, sr, i} {
			y := w.sm[k]
			var u rist.Scalar
			var v rist.Point
			switch o {
			case 0:
				if y.Sign() != 0 {
					sameScalar(t, "Inverse", u.Inverse(&w.s[k]), new(big.Int).ModInverse(y, ref.L))
				}
			case 1:
				samePoint(t, "ScalarMultBase", v.ScalarMultBase(&w.s[k]), gen.MulBase(y))
			case 2:
				samePoint(t, "PublicScalarMultBase", v.PublicScalarMultBase(&w.s[k]), gen.MulBase(y))
			case 3:
				samePoint(t, "ScalarMult", v.ScalarMult(&w.p[q], &w.s[k]), ref.MulA(c, y))
			case 4:
				samePoint(t, "PublicScalarMult", v.PublicScalarMult(&w.p[q], &w.s[k]), ref.MulA(c, y))
			}
		}
	case 42, 43: // a point that is nearly another one, and an operation on both
		i, a := pick()
		b := a
		switch t.Intn(6) {
		case 0:
			b = ref.NegA(a)
		case 1:
			b = ref.DoubleA(a)
		case 2:
			b = ref.AddA(a, ref.Base)
		case 3: // the identity in one of its forms
			b = ref.Tors[2*t.Intn(4)]
		default: // the same element otherwise represented
			b = ref.AddA(a, ref.Tors[2*t.Intn(4)])
		}
		e, _ := repExact(t, b)
		w.p[r] = *pt(e)
		if r == i {
			a = b
		}
		note("p%d related to p%d", r, i)
		w.setp(r, "related point", nil, b)
		o := t.Intn(8)
		note("operation %d on p%d and p%d", o, i, r)
		k, x := picks()
		text := func(what string, p *rist.Point, a ref.Aff) {
			e := ref.Encode(a)
			want := base64.RawURLEncoding.EncodeToString(e[:])
			if got := p.String(); got != want {
				t.Fatalf("%s: String = %q, want %q", what, got, want)
			}
			if got, err := p.MarshalText(); err != nil || string(got) != want {
				t.Fatalf("%s: MarshalText = %q, %v, want %q", what, got, err, want)
			}
			if got, err := json.Marshal(p); err != nil || string(got) != `"`+want+`"` {
				t.Fatalf("%s: JSON %s, %v, want %q", what, got, err, want)
			}
			if got, err := p.MarshalBinary(); err != nil || !bytes.Equal(got, e[:]) {
				t.Fatalf("%s: MarshalBinary = %x, %v, want %x", what, got, err, e)
			}
		}
		for _, j := range []int{i, r, i} {
			c := w.pm[j]
			var v rist.Point
			switch o {
			case 0:
				samePoint(t, "ScalarMult", v.ScalarMult(&w.p[j], &w.s[k]), ref.MulA(c, x))
			case 1:
				samePoint(t, "PublicScalarMult", v.PublicScalarMult(&w.p[j], &w.s[k]), ref.MulA(c, x))
			case 2:
				y := ref.Encode(c)
				if z := w.p[j].Bytes(); !bytes.Equal(z, y[:]) {
					t.Fatalf("encoded as %x, want %x", z, y)
				}
			case 3:
				samePoint(t, "Double", v.Double(&w.p[j]), ref.DoubleA(c))
			case 4:
				w.tb[0].Compute(&w.p[j])
				w.tm[0], w.td[0] = c, true
				samePoint(t, "ScalarMultTable", v.ScalarMultTable(&w.tb[0], &w.s[k]), ref.MulA(c, x))
			case 5:
				text(fmt.Sprintf("p%d", j), &w.p[j], c)
			case 6: // decoded again, and what it differs by from the original
				y := ref.Encode(c)
				if !v.SetBytes(&y) {
					t.Fatalf("SetBytes refuses the encoding %x", y)
				}
				v.Sub(&v, &w.p[j])
				samePoint(t, "the difference of a point and its decoded encoding", &v, ref.Identity)
				text("the difference of a point and its decoded encoding", &v, ref.Identity)
				samePoint(t, "its multiple", v.ScalarMult(&v, &w.s[k]), ref.Identity)
			case 7:
				v.SetZero()
				if got, want := w.p[j].EqualsI(&v) == 1, ref.Equal(c, ref.Identity); got != want {
					t.Fatalf("p%d equals zero: %v, want %v", j, got, want)
				}
				samePoint(t, "0 - p", v.Sub(&v, &w.p[j]), ref.NegA(c))
				samePoint(t, "p + -p", v.Add(&v, &w.p[j]), ref.Identity)
			}
		}
	case 44: // binary of any length and content
		b, _ := pointBytes(t)
		d := append([]byte(nil), b[:]...)
		if t.Bool() {
			n := t.Intn(70)
			if t.OneIn(4) {
				n = gen.Len(t, 32, 1<<12)
			}
			for len(d) < n {
				d = append(d, b[len(d)%32])
			}
			d = d[:n]
		}
		in := append([]byte(nil), d...)
		note("UnmarshalBinary of %d bytes, %x", len(d), b)
		if t.Bool() {
			a, ok := ref.Decode(b)
			ok = ok && len(d) == 32
			err := noPanic(t, "UnmarshalBinary", func() error { return w.p[r].UnmarshalBinary(d) })
			if (err == nil) != ok {
				t.Fatalf("UnmarshalBinary(%x): %v, want valid: %v", d, err, ok)
			}
			w.pd[r] = false
			if ok {
				w.setp(r, "UnmarshalBinary", nil, a)
			}
		} else {
			err := noPanic(t, "UnmarshalBinary", func() error { return w.s[sr].UnmarshalBinary(d) })
			if (err == nil) != (len(d) == 32) {
				t.Fatalf("UnmarshalBinary(%x): %v", d, err)
			}
			if err == nil {
				w.sets(sr, "UnmarshalBinary", nil, refScalarBytes(b))
			} else {
				w.sets(sr, "SetOne", w.s[sr].SetOne(), big.NewInt(1))
			}
		}
		if !bytes.Equal(in, d) {
			t.Fatalf("UnmarshalBinary changed its input")
		}
	case 45, 46: // text of any length and content
		b, _ := pointBytes(t)
		orig := []byte(b64.EncodeToString(b[:]))
		pnt := t.Bool()
		if pnt && t.Bool() {
			orig = []byte(hex.EncodeToString(b[:]))
			if t.Bool() {
				orig = bytes.ToUpper(orig)
			}
		}
		txt := orig
		if t.Bool() {
			var c string
			txt, c = mutateText(t, orig)
			txt = fixFormat(txt, orig, c)
		}
		note("UnmarshalText(%q)", txt[:min(len(txt), 200)])
		in := append([]byte(nil), txt...)
		var err error
		if pnt {
			err = noPanic(t, "UnmarshalText", func() error { return w.p[r].UnmarshalText(in) })
		} else {
			err = noPanic(t, "UnmarshalText", func() error { return w.s[sr].UnmarshalText(in) })
		}
		if !bytes.Equal(in, txt) {
			t.Fatalf("UnmarshalText changed its input")
		}
		var dec []byte
		lenient := false
		if pnt && len(txt) == 64 {
			if h, e := hex.DecodeString(string(txt)); e == nil {
				dec = h
			}
		}
		if dec == nil {
			if d, e := b64.DecodeString(string(txt)); e == nil {
				dec = d
				lenient = onlyLenient(txt)
			}
		}
		var d32 [32]byte
		copy(d32[:], dec)
		a, ok := ref.Decode(d32)
		ok = (ok || !pnt) && len(dec) == 32
		if (err == nil) != ok && !(lenient && err != nil) {
			t.Fatalf("UnmarshalText(%q): %v, want valid: %v", txt[:min(len(txt), 200)], err, ok)
		}
		if pnt {
			w.pd[r] = false
			if err == nil {
				w.setp(r, "UnmarshalText", nil, a)
			}
		} else if err == nil {
			w.sets(sr, "UnmarshalText", nil, refScalarBytes(d32))
		} else {
			w.sets(sr, "SetZero", w.s[sr].SetZero(), new(big.Int)) // unspecified before
		}
	case 47: // Lizard decoding of a point, mostly one made nearly by Lizard
		i, a := pick()
		if t.Bool() {
			m, _ := payload(t)
			b := lizardBuf(m)
			bit := t.Intn(256)
			b[bit/8] ^= 1 << uint(bit%8)
			note("p%d.SetElligator(%x)", r, b)
			a, i = ref.MapBytes(b), r
			w.setp(r, "SetElligator", w.p[r].SetElligator(&b), a)
		}
		note("p%d.Lizard()", i)
		var want []byte
		n := 0
		for _, v := range ref.Preimages(a) {
			vb := v.Bytes()
			var pl [16]byte
			copy(pl[:], vb[8:24])
			if lizardBuf(pl) == vb {
				want = append([]byte(nil), pl[:]...)
				n++
			}
		}
		if n != 1 {
			want = nil
		}
		got := w.p[i].Lizard()
		if (got == nil) != (want == nil) || !bytes.Equal(got, want) {
			t.Fatalf("Lizard gives %x, want %x", got, want)
		}
	case 48: // scalars from data, over-long integers, in the short form
		d, _ := gen.Data(t)
		h := sha512.Sum512(d)
		was := append([]byte(nil), d...)
		note("s%d derived from %d bytes", sr, len(d))
		if t.Bool() {
			w.sets(sr, "DeriveShort", w.s[sr].DeriveShort(d), ref.LEToBig(h[:16]))
		} else {
			w.sets(sr, "Derive", w.s[sr].Derive(d), ref.LEToBig(h[:]))
		}
		if !bytes.Equal(was, d) {
			t.Fatalf("deriving a scalar changed the data")
		}
	case 39: // an accumulation loop
		i, a := pick()
		m := t.Range(2, 12)
		note("p%d += p%d, %d times", r, i, m)
		if !w.pd[r] || i == r {
			return
		}
		for k := 0; k < m; k++ {
			w.p[r].Add(&w.p[r], &w.p[i])
		}
		w.setp(r, "accumulation", nil, ref.AddA(w.pm[r], ref.MulA(a, big.NewInt(int64(m)))))
	}
	t.Class(stepNames[op])
}

func init() {
	reg("C19", &pbt.Law{Name: "history", Rule: "histories of 4 to 60 public operations (49 kinds: arithmetic, multiplication, tables, encodings in all forms incl. JSON and gob, decoding of arbitrary binary and text, hashing, Lizard also of points not made by it, ElGamal and commitment flows, and the same operation on nearly equal scalars or points one after the other) over 2-5 point, 2-4 scalar and 1-2 table variables, receivers and operands chosen independently (so often the same variable); after each step the receiver, and every tenth step and at the end every variable and every byte string handed out, must hold its model value; non-trivial: at least 8 operations", Quick: 16000, Thorough: 300000, Run: func(t *pbt.T) {
		w := &world{t: t}
		np, ns, nt := t.Range(2, 5), t.Range(2, 4), t.Range(1, 2)
		w.p = make([]rist.Point, np)
		w.pm = make([]ref.Aff, np)
		w.pd = make([]bool, np)
		for i := range w.p {
			if t.OneIn(3) {
				continue // still the zero value: only a receiver
			}
			a, p, _ := even(t)
			w.p[i], w.pm[i], w.pd[i] = *p, a, true
		}
		w.s = make([]rist.Scalar, ns)
		for i := range w.s {
			x, _ := gen.ScalarBig(t)
			if t.OneIn(4) {
				x = new(big.Int)
			}
			w.s[i] = *scalarOf(x)
			w.sm = append(w.sm, x)
			t.Note("s%d = %x", i, x)
		}
		w.tb = make([]rist.ScalarMultTable, nt)
		w.tm = make([]ref.Aff, nt)
		w.td = make([]bool, nt)
		n := t.Range(4, 60)
		t.NonTrivialIf(n >= 8)
		for i := 0; i < n; i++ {
			w.step(i)
			if i%10 == 9 {
				w.checkAll(fmt.Sprint("after step ", i))
			}
		}
		w.checkAll("at the end")
		// public encodings last, so that a defect in them cannot hide
		for i := range w.p {
			if w.pd[i] {
				e := ref.Encode(w.pm[i])
				if b := w.p[i].Bytes(); !bytes.Equal(b, e[:]) {
					t.Fatalf("p%d encodes as %x, want %x", i, b, e)
				}
			}
		}
		for k := range w.tb {
			if w.td[k] {
				var p rist.Point
				i := t.Intn(ns)
				samePoint(t, "table at the end", p.ScalarMultTable(&w.tb[k], &w.s[i]), ref.MulA(w.tm[k], w.sm[i]))
			}
		}
	}})
}
