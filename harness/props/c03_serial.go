package props

import (
	"bytes"
	"encoding/base64"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	rist "github.com/bwesterb/go-ristretto"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

var b64 = base64.RawURLEncoding

// mutateText turns a well-formed text into something near it.
func mutateText(t *pbt.T, txt []byte) ([]byte, string) {
	s := append([]byte{}, txt...)
	pos := func() int {
		if len(s) == 0 {
			return 0
		}
		return t.Intn(len(s))
	}
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	kind := t.Intn(14)
	switch kind {
	case 0: // unchanged
		return s, "valid"
	case 1: // one character replaced by another of the alphabet
		if len(s) > 0 {
			s[pos()] = alphabet[t.Intn(64)]
		}
		return s, "subst"
	case 2: // one character replaced by any byte
		if len(s) > 0 {
			s[pos()] = byte(t.Intn(256))
		}
		return s, "subst-any"
	case 3:
		return s[:pos()], "truncated"
	case 4: // extended
		n := t.Range(1, 70)
		for i := 0; i < n; i++ {
			s = append(s, alphabet[t.Intn(64)])
		}
		return s, "extended"
	case 5: // padding
		return append(s, bytes.Repeat([]byte{'='}, t.Range(1, 3))...), "padded"
	case 6: // whitespace or newlines inside
		i := pos()
		ins := []string{"\n", "\r\n", " ", "\t", "\n\n\n", "\x00"}[t.Intn(6)]
		return append(append(append([]byte{}, s[:i]...), ins...), s[i:]...), "whitespace"
	case 7: // standard alphabet
		x := strings.NewReplacer("-", "+", "_", "/").Replace(string(s))
		return []byte(x), "std-alphabet"
	case 8: // quoted or prefixed
		return []byte([]string{`"%s"`, "0x%s", " %s", "%s ", "%s\n", "\n%s"}[t.Intn(6)]), "format"
	case 9: // arbitrary text of exact interesting length
		n := []int{0, 1, 2, 31, 32, 33, 42, 43, 44, 45, 46, 47, 63, 64, 65, 66, 86, 87, 88, 128}[t.Intn(20)]
		s = make([]byte, n)
		for i := range s {
			s[i] = alphabet[t.Intn(64)]
		}
		return s, fmt.Sprintf("alphabet-len%d", n)
	case 10: // hex digits of exact interesting length
		n := []int{0, 2, 32, 43, 62, 63, 64, 65, 66, 128}[t.Intn(10)]
		s = make([]byte, n)
		for i := range s {
			s[i] = "0123456789abcdefABCDEF"[t.Intn(22)]
		}
		return s, fmt.Sprintf("hex-len%d", n)
	case 11: // arbitrary bytes
		s = make([]byte, t.Intn(140))
		t.Fill(s)
		return s, "bytes"
	case 12: // a valid text followed by more, of a length easily mistaken
		want := len(s)
		n := gen.Len(t, want, 1<<17)
		if n > want {
			s = append(s, bytes.Repeat([]byte{alphabet[t.Intn(64)]}, n-want)...)
		} else {
			s = s[:n]
		}
		return s, "lengthened"
	default: // huge
		n := t.Range(100, 5000)
		return bytes.Repeat([]byte{alphabet[t.Intn(64)]}, n), "huge"
	}
}

// fixFormat applies the verbs used by mutateText kind 8.
func fixFormat(m []byte, orig []byte, c string) []byte {
	if c == "format" {
		return []byte(strings.Replace(string(m), "%s", string(orig), 1))
	}
	return m
}

func noPanic(t *pbt.T, what string, f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("%s panicked: %v", what, e)
		}
	}()
	return f()
}

// onlyLenient reports whether the text decodes only thanks to base64
// leniencies the documentation does not promise (embedded newlines, non-zero
// trailing bits): there either verdict is allowed, but not a wrong value.
func onlyLenient(txt []byte) bool {
	_, err := b64.Strict().DecodeString(string(txt))
	return err != nil || bytes.ContainsAny(txt, "\r\n")
}

func init() {
	reg("C03", &pbt.Law{Name: "roundtrip", Rule: "reduced scalars from the edge classes through binary, text, String, fmt, JSON (value, struct, map key, slice) and gob; non-trivial: not uniform", Quick: 60000, Thorough: 1000000, Run: func(t *pbt.T) {
		s, x, c := scalarArg(t, "s")
		t.NonTrivialIf(c != "uniform")
		enc := ref.BigToLE32(x)
		bin, err := s.MarshalBinary()
		if err != nil || !bytes.Equal(bin, enc[:]) {
			t.Fatalf("MarshalBinary = %x, %v; want %x", bin, err, enc)
		}
		r := garbageScalar(t)
		if err := r.UnmarshalBinary(bin); err != nil {
			t.Fatalf("UnmarshalBinary(MarshalBinary): %v", err)
		}
		sameScalar(t, "binary round trip", r, x)
		txt, err := s.MarshalText()
		if err != nil || string(txt) != b64.EncodeToString(enc[:]) {
			t.Fatalf("MarshalText = %q, %v", txt, err)
		}
		if s.String() != string(txt) || fmt.Sprint(*s) != string(txt) || fmt.Sprintf("%v", s) != string(txt) {
			t.Fatalf("String = %q, want %q", s.String(), txt)
		}
		r = garbageScalar(t)
		if err := r.UnmarshalText(txt); err != nil {
			t.Fatalf("UnmarshalText(MarshalText): %v", err)
		}
		sameScalar(t, "text round trip", r, x)
		type box struct {
			A rist.Scalar
			B *rist.Scalar
			C []rist.Scalar
		}
		in := box{*s, s, []rist.Scalar{*s, *s}}
		js, err := json.Marshal(&in)
		if err != nil {
			t.Fatalf("json.Marshal: %v", err)
		}
		var out box
		if err := json.Unmarshal(js, &out); err != nil {
			t.Fatalf("json.Unmarshal: %v", err)
		}
		if out.A != *s || out.B == nil || *out.B != *s || len(out.C) != 2 || out.C[1] != *s {
			t.Fatalf("JSON round trip differs: %s", js)
		}
		if t.Intn(8) == 0 {
			t.Class("gob")
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(s); err != nil {
				t.Fatalf("gob encode: %v", err)
			}
			var r2 rist.Scalar
			if err := gob.NewDecoder(&buf).Decode(&r2); err != nil || r2 != *s {
				t.Fatalf("gob round trip: %v", err)
			}
		}
	}})
	reg("C03", &pbt.Law{Name: "binary-any", Rule: "byte strings of lengths 0..140, lengths equal to 32 modulo powers of two, lengths near numbers in the source, up to 128 KiB, offered to UnmarshalBinary; non-trivial: length differs from 32 or the value is not reduced", Quick: 400000, Thorough: 6000000, Run: func(t *pbt.T) {
		b32, c := b32Scalar(t)
		d := b32[:]
		switch t.Intn(3) {
		case 0:
			d = d[:t.Intn(33)]
		case 1:
			n := t.Range(1, 100)
			if t.Bool() {
				n = gen.Len(t, 32, 1<<17) - 32
			}
			if n < 1 {
				n = 1
			}
			extra := make([]byte, n)
			t.Fill(extra[:min(n, 100)])
			d = append(append([]byte{}, d...), extra...)
		}
		t.Note("data[%d] %x", len(d), d[:min(len(d), 140)])
		t.NonTrivialIf(len(d) != 32 || c != "uniform")
		s := garbageScalar(t)
		err := noPanic(t, "UnmarshalBinary", func() error { return s.UnmarshalBinary(d) })
		if (err == nil) != (len(d) == 32) {
			t.Fatalf("UnmarshalBinary(%d bytes) error = %v", len(d), err)
		}
		if err == nil {
			t.Class("accepted")
			sameScalar(t, "UnmarshalBinary", s, refScalarBytes(b32))
		} else {
			t.Class("rejected")
		}
	}})
	reg("C03", &pbt.Law{Name: "text-any", Rule: "texts: valid base64 of edge scalars, then substituted, truncated, extended, padded, with whitespace, other alphabets, exact lengths around 43 and 64, arbitrary bytes, huge; oracle: base64 decoding into a large buffer; non-trivial: the text is not a valid unmodified one", Quick: 600000, Thorough: 8000000, Run: func(t *pbt.T) {
		b, _ := b32Scalar(t)
		orig := []byte(b64.EncodeToString(b[:]))
		txt, c := mutateText(t, orig)
		txt = fixFormat(txt, orig, c)
		t.Note("text[%d] %q [%s]", len(txt), txt[:min(len(txt), 200)], c)
		t.Class(c)
		t.NonTrivialIf(c != "valid")
		in := append([]byte{}, txt...)
		s := garbageScalar(t)
		err := noPanic(t, "UnmarshalText", func() error { return s.UnmarshalText(txt) })
		if !bytes.Equal(in, txt) {
			t.Fatalf("UnmarshalText changed its input")
		}
		dec, derr := b64.DecodeString(string(txt))
		valid := derr == nil && len(dec) == 32
		if err == nil {
			t.Class("accepted")
			if !valid {
				t.Fatalf("UnmarshalText accepted %q", txt)
			}
			var d32 [32]byte
			copy(d32[:], dec)
			sameScalar(t, "UnmarshalText", s, refScalarBytes(d32))
		} else {
			t.Class("rejected")
			if valid && !onlyLenient(txt) {
				t.Fatalf("UnmarshalText rejected %q: %v", txt, err)
			}
		}
	}})

	reg("C12", &pbt.Law{Name: "roundtrip", Rule: "points from all element classes in random representations through binary, text (base64 and hex, both cases), String, fmt, JSON and gob; non-trivial: every case not from the uniform class or with a non-default representation", Quick: 40000, Thorough: 600000, Run: func(t *pbt.T) {
		a, p, c := even(t)
		t.NonTrivial()
		t.Class(c)
		enc := ref.Encode(a)
		bin, err := p.MarshalBinary()
		if err != nil || !bytes.Equal(bin, enc[:]) {
			t.Fatalf("MarshalBinary = %x, %v; want %x", bin, err, enc)
		}
		r := garbagePoint(t)
		if err := r.UnmarshalBinary(bin); err != nil {
			t.Fatalf("UnmarshalBinary(MarshalBinary): %v", err)
		}
		samePoint(t, "binary round trip", r, a)
		txt, err := p.MarshalText()
		if err != nil || string(txt) != b64.EncodeToString(enc[:]) {
			t.Fatalf("MarshalText = %q, %v", txt, err)
		}
		if p.String() != string(txt) || fmt.Sprint(*p) != string(txt) || fmt.Sprintf("%v", p) != string(txt) {
			t.Fatalf("String = %q, want %q", p.String(), txt)
		}
		h := hex.EncodeToString(enc[:])
		if t.Bool() {
			h = strings.ToUpper(h)
		}
		for _, x := range []string{string(txt), h} {
			r = garbagePoint(t)
			if err := r.UnmarshalText([]byte(x)); err != nil {
				t.Fatalf("UnmarshalText(%q): %v", x, err)
			}
			samePoint(t, "text round trip", r, a)
		}
		type box struct {
			A rist.Point
			B *rist.Point
			C []*rist.Point
		}
		in := box{*p, p, []*rist.Point{p, p}}
		js, err := json.Marshal(&in)
		if err != nil {
			t.Fatalf("json.Marshal: %v", err)
		}
		var out box
		if err := json.Unmarshal(js, &out); err != nil {
			t.Fatalf("json.Unmarshal: %v", err)
		}
		if out.B == nil || len(out.C) != 2 {
			t.Fatalf("JSON round trip lost values: %s", js)
		}
		samePoint(t, "JSON value", &out.A, a)
		samePoint(t, "JSON pointer", out.B, a)
		samePoint(t, "JSON slice", out.C[1], a)
		if t.Intn(8) == 0 {
			t.Class("gob")
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(p); err != nil {
				t.Fatalf("gob encode: %v", err)
			}
			var r2 rist.Point
			if err := gob.NewDecoder(&buf).Decode(&r2); err != nil {
				t.Fatalf("gob round trip: %v", err)
			}
			samePoint(t, "gob", &r2, a)
		}
	}})
	reg("C12", &pbt.Law{Name: "binary-any", Rule: "byte strings of lengths 0..140, equal to 32 modulo powers of two, near numbers in the source, up to 128 KiB (truncated/extended valid encodings, near-valid and edge 32-byte strings) offered to UnmarshalBinary; oracle: length and RFC 9496 decoding; non-trivial: not a plain valid encoding", Quick: 60000, Thorough: 1000000, Run: func(t *pbt.T) {
		b32, c := pointBytes(t)
		d := b32[:]
		switch t.Intn(4) {
		case 0:
			d = d[:t.Intn(33)]
		case 1:
			n := t.Range(1, 100)
			if t.Bool() {
				n = gen.Len(t, 32, 1<<17) - 32
			}
			if n < 1 {
				n = 1
			}
			extra := make([]byte, n)
			t.Fill(extra[:min(n, 100)])
			d = append(append([]byte{}, d...), extra...)
		}
		t.Note("data[%d] %x", len(d), d[:min(len(d), 140)])
		t.NonTrivialIf(len(d) != 32 || c != "valid")
		p := garbagePoint(t)
		err := noPanic(t, "UnmarshalBinary", func() error { return p.UnmarshalBinary(d) })
		checkDecoded(t, "UnmarshalBinary", p, err == nil, len(d) == 32, b32)
	}})
	reg("C12", &pbt.Law{Name: "text-any", Rule: "texts: base64 or hex of valid, near-valid and edge encodings, then substituted, truncated, extended, padded, with whitespace, other alphabets, exact lengths around 43 and 64, arbitrary bytes, huge; oracle: 64 hex digits, else base64 into a large buffer, then RFC 9496 decoding; non-trivial: not an unmodified valid text", Quick: 120000, Thorough: 3000000, Run: func(t *pbt.T) {
		b, cb := pointBytes(t)
		orig := []byte(b64.EncodeToString(b[:]))
		if t.Bool() {
			h := hex.EncodeToString(b[:])
			switch t.Intn(3) {
			case 0:
				h = strings.ToUpper(h)
			case 1: // mixed case
				hb := []byte(h)
				for i := range hb {
					if i%3 == 0 {
						hb[i] = strings.ToUpper(string(hb[i]))[0]
					}
				}
				h = string(hb)
			}
			orig = []byte(h)
			t.Class("hex")
		}
		txt, c := mutateText(t, orig)
		txt = fixFormat(txt, orig, c)
		t.Note("text[%d] %q [%s]", len(txt), txt[:min(len(txt), 200)], c)
		t.Class(c)
		t.NonTrivialIf(c != "valid" || cb != "valid")
		in := append([]byte{}, txt...)
		p := garbagePoint(t)
		err := noPanic(t, "UnmarshalText", func() error { return p.UnmarshalText(txt) })
		if !bytes.Equal(in, txt) {
			t.Fatalf("UnmarshalText changed its input")
		}
		var dec []byte
		lenient := false
		if len(txt) == 64 {
			if h, e := hex.DecodeString(string(txt)); e == nil {
				dec = h
			}
		}
		if dec == nil {
			if d, e := b64.DecodeString(string(txt)); e == nil {
				dec = d
				lenient = onlyLenient(txt)
			}
		}
		var d32 [32]byte
		copy(d32[:], dec)
		if lenient && err != nil {
			return
		}
		checkDecoded(t, "UnmarshalText", p, err == nil, len(dec) == 32, d32)
	}})
}

// checkDecoded compares a decoding verdict and value with RFC 9496.
func checkDecoded(t *pbt.T, what string, p *rist.Point, got, wellFormed bool, b [32]byte) {
	want := false
	var a ref.Aff
	if wellFormed {
		a, want = ref.Decode(b)
	}
	if got {
		t.Class("accepted")
	} else {
		t.Class("rejected")
	}
	if got != want {
		t.Fatalf("%s(%x) accepted = %v, want %v", what, b, got, want)
	}
	if got {
		samePoint(t, what, p, a)
	}
}

// pointBytes draws 32 bytes around the boundary of valid encodings.
func pointBytes(t *pbt.T) ([32]byte, string) {
	var b [32]byte
	c := ""
	switch t.Weighted(4, 6, 4, 4, 3, 6, 4) {
	case 0:
		a, _ := gen.Even(t)
		b, c = ref.Encode(a), "valid"
	case 1: // one to three bit flips of a valid encoding
		a, _ := gen.Even(t)
		b = ref.Encode(a)
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			k := t.Intn(256)
			b[k/8] ^= 1 << uint(k%8)
		}
		c = "bit-flip"
	case 2: // negated: p - s
		a, _ := gen.Even(t)
		b = ref.Neg(ref.FromBytesMod(ref.Encode(a))).Bytes()
		c = "negated"
	case 3: // non-canonical forms: s + p (if it fits), top bit set
		a, _ := gen.Even(t)
		e := ref.Encode(a)
		if t.Bool() {
			s := uint64(t.Intn(19))
			b = ref.BigToLE32(new(big.Int).Add(ref.P, new(big.Int).SetUint64(s)))
			if t.Bool() {
				b[31] |= 0x80
			}
		} else {
			b = e
			b[31] |= 0x80
		}
		c = "non-canonical"
	case 4: // small and minus small
		f := ref.FromU64(uint64(t.Intn(3000)))
		if t.Bool() {
			f = ref.Neg(f)
		}
		b, c = f.Bytes(), "small"
	case 5: // non-negative canonical field elements
		f, cf := gen.Fe(t)
		b, c = ref.Abs(f).Bytes(), "field-"+cf
	default:
		b, c = gen.Bytes32(t)
	}
	t.Note("bytes %x [%s]", b, c)
	return b, c
}
