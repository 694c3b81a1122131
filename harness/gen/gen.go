// Package gen holds the value generators shared by all laws.
package gen

import (
	"math/big"

	"vh/pbt"
	"vh/ref"
)

var one = big.NewInt(1)

// radices whose limb boundaries matter somewhere in the library: bit widths
// of consecutive limbs, repeated to cover 256 bits.
var radices = [][]int{
	{51}, {26, 25}, {21}, {32}, {64}, {8}, {5}, {4},
}

// Big256 returns an edge-biased integer in [0, 2^256) and the name of its class.
func Big256(t *pbt.T) (*big.Int, string) {
	if v, ok := t.Recall("big"); ok {
		x := RelatedBig(t, v.(*big.Int))
		t.Remember("big", new(big.Int).Set(x))
		return x, "related"
	}
	x, c := big256(t)
	t.Remember("big", new(big.Int).Set(x))
	return x, c
}

// RelatedBig returns a number that something careless could take for x.
func RelatedBig(t *pbt.T, x *big.Int) *big.Int {
	b := ref.BigToLE32(x)
	switch t.Intn(11) {
	case 0: // the same
	case 1:
		b[t.Intn(32)] ^= 1 << uint(t.Intn(8))
	case 2:
		b[t.Intn(32)] = byte(t.Intn(256))
	case 3: // the same low or high part
		k := t.Intn(32)
		if t.Bool() {
			t.Fill(b[k:])
		} else {
			t.Fill(b[:k])
		}
	case 4: // the same middle or ends
		k := 4 * t.Intn(8)
		t.Fill(b[k : k+4])
	case 5: // the same words in another order
		w := 1 << uint(t.Intn(4))
		i, j := t.Intn(32/w), t.Intn(32/w)
		for k := 0; k < w; k++ {
			b[i*w+k], b[j*w+k] = b[j*w+k], b[i*w+k]
		}
	case 6: // the same exclusive or, the same sum
		i, j := t.Intn(32), t.Intn(32)
		m := byte(t.Intn(256))
		if t.Bool() {
			b[i] ^= m
			b[j] ^= m
		} else {
			b[i] += m
			b[j] -= m
		}
	case 7:
		return wrap(new(big.Int).Add(x, big.NewInt(int64(t.Range(-2, 2)))))
	case 8:
		return wrap(new(big.Int).Sub(ref.L, x))
	case 9:
		return wrap(new(big.Int).Sub(ref.P, x))
	case 10: // congruent
		m := ref.L
		if t.Bool() {
			m = ref.P
		}
		return wrap(new(big.Int).Add(x, m))
	}
	return ref.LEToBig(b[:])
}

func big256(t *pbt.T) (*big.Int, string) {
	x := new(big.Int)
	switch t.Weighted(6, 8, 8, 6, 16, 8, 5, 5, 20, 5) {
	case 9: // numbers from the source under test
		return dictBig(t), "dictionary"
	case 0: // small
		return x.SetInt64(int64(t.Intn(600))), "small"
	case 1: // near 2^k
		k := t.Intn(257)
		x.Lsh(one, uint(k))
		x.Add(x, big.NewInt(int64(t.Range(-40, 40))))
		return wrap(x), "near2^k"
	case 2: // near k*l
		k := int64(t.Range(1, 15))
		x.Mul(ref.L, big.NewInt(k))
		if t.OneIn(4) {
			x.Rsh(x, uint(t.Intn(4)))
		}
		x.Add(x, big.NewInt(int64(t.Range(-40, 40))))
		return wrap(x), "near-kl"
	case 3: // near p, 2p
		x.Set(ref.P)
		switch t.Intn(4) {
		case 1:
			x.Lsh(x, 1)
		case 2:
			x.Rsh(x, 1)
		case 3:
			x.Lsh(one, 255)
		}
		x.Add(x, big.NewInt(int64(t.Range(-40, 40))))
		return wrap(x), "near-p"
	case 4: // limb patterns
		r := radices[t.Intn(len(radices))]
		return Limbs(t, r, 256), "limbs"
	case 5: // runs of equal bits
		pos := 0
		bit := uint(t.Intn(2))
		for pos < 256 {
			n := 1 + t.Intn(90)
			for j := 0; j < n && pos < 256; j++ {
				x.SetBit(x, pos, bit)
				pos++
			}
			bit ^= 1
		}
		return x, "runs"
	case 6: // sparse
		for i, n := 0, t.Range(1, 6); i < n; i++ {
			x.SetBit(x, t.Intn(256), 1)
		}
		return x, "sparse"
	case 7: // dense
		x.Lsh(one, 256)
		x.Sub(x, one)
		for i, n := 0, t.Range(1, 6); i < n; i++ {
			x.SetBit(x, t.Intn(256), 0)
		}
		return x, "dense"
	default:
		var b [32]byte
		t.Fill(b[:])
		return ref.LEToBig(b[:]), "uniform"
	}
}

// dictBig puts integers that occur in the source under test at byte and limb
// boundaries, on a background of zeros, ones or noise.
func dictBig(t *pbt.T) *big.Int {
	x := new(big.Int)
	switch t.Intn(4) {
	case 1:
		x.Lsh(one, 256)
		x.Sub(x, one)
	case 2:
		var b [32]byte
		t.Fill(b[:])
		x = ref.LEToBig(b[:])
	}
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		d := t.FromDict()
		if t.Intn(3) == 0 {
			d += uint64(int64(t.Range(-2, 2)))
		}
		v := new(big.Int).SetUint64(d)
		if t.Intn(4) == 0 {
			v.Lsh(one, uint(d%256)) // as an exponent or a bit position
			if t.Bool() {
				v.Sub(v, one)
			}
		}
		pos := 0
		if t.Bool() {
			r := radices[t.Intn(len(radices))]
			for j := t.Intn(256 / r[0]); j > 0; j-- {
				pos += r[j%len(r)]
			}
		}
		w := v.BitLen()
		if w < 8 {
			w = 8
		}
		if t.Bool() {
			w = 64
		}
		for j := 0; j < w && pos+j < 256; j++ {
			x.SetBit(x, pos+j, v.Bit(j))
		}
	}
	return wrap(x)
}

// Len draws a length that is likely to be mistaken for want: equal modulo a
// power of two, near it, near a number in the source, zero, huge.
func Len(t *pbt.T, want, max int) int {
	n := 0
	switch t.Weighted(4, 4, 2, 3, 1) {
	case 0:
		n = t.Intn(2*want + 10)
	case 1: // equal modulo 2^8, 2^16, or smaller powers
		n = want%256 + t.Range(1, 8)<<uint([]int{4, 5, 6, 7, 8, 8, 8, 9, 12, 15, 16}[t.Intn(11)])
	case 2:
		n = want*t.Intn(9) + t.Range(-1, 1)
	case 3:
		n = int(t.FromDict()%(1<<24)) + t.Range(-1, 1)
	default:
		n = 1<<uint(t.Intn(21)) + t.Range(-1, 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

// Limbs builds a number whose limbs (of the given widths) are mostly extreme.
func Limbs(t *pbt.T, widths []int, total int) *big.Int {
	x := new(big.Int)
	pos := 0
	favour := t.Intn(5) // one kind dominates
	for i := 0; pos < total; i++ {
		w := uint(widths[i%len(widths)])
		max := new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
		v := new(big.Int)
		k := favour
		if t.Intn(3) == 0 {
			k = t.Intn(8)
		}
		switch k {
		case 0: // zero
		case 1:
			v.Set(max)
		case 2: // half and around
			v.Lsh(one, w-1)
			v.Add(v, big.NewInt(int64(t.Range(-2, 2))))
		case 3:
			v.Sub(max, big.NewInt(int64(t.Intn(20))))
		case 4:
			v.SetInt64(int64(t.Intn(40)))
		default:
			v.SetUint64(t.Raw())
		}
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		v.And(v, max)
		x.Add(x, v.Lsh(v, uint(pos)))
		pos += int(w)
	}
	return wrapN(x, total)
}

func wrap(x *big.Int) *big.Int { return wrapN(x, 256) }

func wrapN(x *big.Int, n int) *big.Int {
	m := new(big.Int).Lsh(one, uint(n))
	return x.Mod(x, m)
}

// Bytes32 returns an edge-biased 32-byte string.
func Bytes32(t *pbt.T) ([32]byte, string) {
	x, c := Big256(t)
	return ref.BigToLE32(x), c
}

// Bytes64 returns an edge-biased 64-byte little-endian number.
func Bytes64(t *pbt.T) ([64]byte, string) {
	var out [64]byte
	if v, ok := t.Recall("b64"); ok {
		out = v.([64]byte)
		k := 32 * t.Intn(2)
		copy(out[k:k+32], le(RelatedBig(t, ref.LEToBig(out[k:k+32]))))
		t.Remember("b64", out)
		return out, "related"
	}
	out, c := bytes64(t)
	t.Remember("b64", out)
	return out, c
}

func le(x *big.Int) []byte { b := ref.BigToLE32(x); return b[:] }

func bytes64(t *pbt.T) ([64]byte, string) {
	var out [64]byte
	x := new(big.Int)
	c := ""
	switch t.Weighted(6, 14, 10, 10, 6, 10) {
	case 0: // 32-byte edge, high half zero or edge
		lo, c1 := Big256(t)
		hi, _ := Big256(t)
		if t.Bool() {
			hi.SetInt64(0)
		}
		x.Add(lo, hi.Lsh(hi, 256))
		c = "halves-" + c1
	case 1: // k*l + delta with edge k up to the limit
		k, c1 := Big256(t)
		if t.Bool() {
			k.Lsh(k, uint(t.Intn(5)))
		}
		if t.Bool() {
			k.Rsh(k, uint(t.Intn(256)))
		}
		x.Mul(k, ref.L)
		x.Add(x, big.NewInt(int64(t.Range(-64, 64))))
		c = "k*l+delta/" + c1
	case 2: // near 2^k
		x.Lsh(one, uint(t.Intn(513)))
		x.Add(x, big.NewInt(int64(t.Range(-40, 40))))
		c = "near2^k"
	case 3:
		x = Limbs(t, []int{21}, 512)
		c = "limbs21"
	case 4: // top of the range
		x.Lsh(one, 512)
		x.Sub(x, one)
		d, _ := Big256(t)
		x.Sub(x, d.Rsh(d, uint(t.Intn(256))))
		c = "near2^512"
	default:
		t.Fill(out[:])
		return out, "uniform"
	}
	x = wrapN(x, 512)
	b := x.Bytes()
	for i := range b {
		out[i] = b[len(b)-1-i]
	}
	return out, c
}

// ScalarBig returns an edge-biased scalar in [0, l).
func ScalarBig(t *pbt.T) (*big.Int, string) {
	x, c := Big256(t)
	switch t.Intn(4) {
	case 0: // count from the top: l-1-x
		x.Mod(x, ref.L)
		x.Sub(new(big.Int).Sub(ref.L, one), x)
		return x, c + "^"
	case 1: // keep the pattern: cut to 252 bits
		x.And(x, new(big.Int).Sub(new(big.Int).Lsh(one, 252), one))
		return x, c
	}
	return x.Mod(x, ref.L), c
}

var specialFe []ref.Fe

func init() {
	add := func(f ref.Fe) { specialFe = append(specialFe, f, ref.Neg(f)) }
	sq := func(f ref.Fe) ref.Fe { r, _ := ref.Sqrt(f); return r }
	id := ref.Mul(ref.I, ref.D)
	add(ref.Zero)
	add(ref.One)
	add(ref.FromU64(2))
	add(ref.I)
	add(ref.D)
	add(ref.TwoD)
	add(ref.Inv(ref.D))
	add(ref.Add(ref.D, ref.One))
	add(ref.Sub(ref.D, ref.One))
	add(sq(id))
	add(sq(ref.Mul(ref.I, ref.Inv(ref.D))))
	add(ref.SqrtADMinusOne)
	add(ref.InvSqrtAMinusD)
	add(ref.OneMinusDSq)
	add(ref.DMinusOneSq)
	add(ref.Inv(ref.FromU64(2)))
	add(ref.FromU64(121665))
	add(ref.FromU64(486662))
	add(ref.Base.X)
	add(ref.Base.Y)
	add(ref.Tors8.X)
	add(ref.Tors8.Y)
	for _, t := range ref.Preimages(ref.Identity) {
		add(t)
	}
	for _, t := range ref.Preimages(ref.Base) {
		add(t)
	}
}

// Fe returns an edge-biased field element.
func Fe(t *pbt.T) (ref.Fe, string) {
	switch t.Weighted(3, 10, 2) {
	case 0:
		return specialFe[t.Intn(len(specialFe))], "special"
	case 1:
		b, c := Bytes32(t)
		return ref.FromBytesMod(b), c
	default:
		f, c := Fe0(t)
		switch t.Intn(3) {
		case 0:
			return ref.Inv(f), "inv-" + c
		case 1:
			return ref.Sq(f), "sq-" + c
		}
		return ref.Neg(f), "neg-" + c
	}
}

// Fe0 is Fe without the derived kinds.
func Fe0(t *pbt.T) (ref.Fe, string) {
	b, c := Bytes32(t)
	return ref.FromBytesMod(b), c
}

// FeNonZero returns a non-zero field element.
func FeNonZero(t *pbt.T) ref.Fe {
	f, _ := Fe(t)
	if f == ref.Zero {
		return ref.One
	}
	return f
}

// ElligatorBytes returns 32 bytes for the Elligator map, sometimes in a
// non-canonical form of an exceptional element.
func ElligatorBytes(t *pbt.T) ([32]byte, string) {
	f, c := Fe(t)
	b := f.Bytes()
	if t.OneIn(6) { // non-canonical: add p if it fits
		x := new(big.Int).Add(f.Big(), ref.P)
		if x.BitLen() <= 255 {
			b = ref.BigToLE32(x)
			c += "+p"
		}
	}
	if t.OneIn(4) {
		b[31] |= 0x80
		c += "+top"
	}
	return b, c
}

var smallMult []ref.Aff

func init() {
	q := ref.Identity
	for i := 0; i < 40; i++ {
		smallMult = append(smallMult, q)
		q = ref.AddA(q, ref.Base)
	}
	initBaseComb()
}

// Even returns a representative of a group element and its class.
func Even(t *pbt.T) (ref.Aff, string) {
	if v, ok := t.Recall("even"); ok {
		a := v.(ref.Aff)
		switch t.Intn(5) {
		case 1:
			a = ref.NegA(a)
		case 2:
			a = ref.AddA(a, ref.Tors[2*t.Intn(4)])
		case 3:
			a = ref.DoubleA(a)
		case 4:
			a = ref.AddA(a, ref.Base)
		}
		t.Remember("even", a)
		return a, "related"
	}
	a, c := even(t)
	t.Remember("even", a)
	return a, c
}

func even(t *pbt.T) (ref.Aff, string) {
	switch t.Weighted(4, 2, 6, 3, 6) {
	case 0:
		k := t.Intn(len(smallMult))
		q := smallMult[k]
		if t.Bool() {
			q = ref.NegA(q)
		}
		if k == 0 {
			return q, "identity"
		}
		return q, "small-multiple"
	case 1:
		// small canonical encodings
		s := uint64(2 * t.Intn(400))
		for {
			f := ref.FromU64(s)
			if q, ok := ref.Decode(f.Bytes()); ok {
				return q, "small-encoding"
			}
			s += 2
		}
	case 2:
		f, c := Fe(t)
		return ref.Map(f), "map-" + edge(c)
	case 3:
		// a point with an edge coordinate: search from an edge value
		return edgeCoord(t)
	default:
		k, c := ScalarBig(t)
		return MulBase(k), "kB-" + edge(c)
	}
}

func edge(class string) string {
	if class == "uniform" {
		return class
	}
	return "edge"
}

// edgeCoord finds an even point whose y (or x) is close to an edge value.
func edgeCoord(t *pbt.T) (ref.Aff, string) {
	f, _ := Fe(t)
	swap := t.Bool()
	neg := t.Bool()
	for {
		v2 := ref.Sq(f)
		var o2 ref.Fe
		if !swap { // y = f, x^2 = (y^2-1)/(d y^2+1)
			o2 = ref.Mul(ref.Sub(v2, ref.One), ref.Inv(ref.Add(ref.Mul(ref.D, v2), ref.One)))
		} else { // x = f, y^2 = (1+x^2)/(1-d x^2)
			o2 = ref.Mul(ref.Add(v2, ref.One), ref.Inv(ref.Sub(ref.One, ref.Mul(ref.D, v2))))
		}
		o, ok := ref.Sqrt(o2)
		if ok {
			if neg {
				o = ref.Neg(o)
			}
			q := ref.Aff{X: o, Y: f}
			c := "edge-y"
			if swap {
				q = ref.Aff{X: f, Y: o}
				c = "edge-x"
			}
			if ref.OnCurve(q) {
				if ref.IsEvenFast(q) {
					return q, c
				}
				// Shift into 2E; the coordinate is no longer on the edge.
				q2 := ref.AddA(q, ref.Tors8)
				if ref.IsEvenFast(q2) {
					if t.Intn(3) == 0 {
						return q2, c + "-shifted"
					}
				}
			}
		}
		f = ref.Add(f, ref.One)
	}
}

// Curve returns any curve point (all eight cosets) and its class.
func Curve(t *pbt.T) (ref.Aff, string) {
	q, c := Even(t)
	switch t.Intn(4) {
	case 0:
		return ref.Tors[t.Intn(8)], "torsion"
	case 1:
		return q, c
	default:
		k := t.Intn(8)
		q = ref.AddA(q, ref.Tors[k])
		if k%2 == 1 {
			c = "odd-" + c
		}
		return q, c
	}
}

// Z returns an edge-biased non-zero projective scaling factor.
func Z(t *pbt.T) ref.Fe {
	if t.Intn(3) == 0 {
		return ref.One
	}
	return FeNonZero(t)
}

// --- fast reference multiplication of the base point ---

var comb [64][16]ref.Aff

func initBaseComb() {
	q := ref.Base
	for i := 0; i < 64; i++ {
		comb[i][0] = ref.Identity
		for j := 1; j < 16; j++ {
			comb[i][j] = ref.AddA(comb[i][j-1], q)
		}
		q = ref.AddA(comb[i][15], q)
	}
}

// MulBase returns k*B for 0 <= k < 2^256, by nibbles.
func MulBase(k *big.Int) ref.Aff {
	b := ref.BigToLE32(k)
	var ps []ref.Aff
	for i := 0; i < 64; i++ {
		d := b[i/2] >> (4 * uint(i%2)) & 15
		if d != 0 {
			ps = append(ps, comb[i][d])
		}
	}
	return ref.SumA(ps)
}

// Data returns hash input data of an interesting length.
func Data(t *pbt.T) ([]byte, string) {
	if v, ok := t.Recall("data"); ok {
		b := append([]byte{}, v.([]byte)...)
		switch t.Intn(5) {
		case 1, 2:
			if len(b) > 0 {
				b[t.Intn(len(b))] ^= 1 << uint(t.Intn(8))
			}
		case 3:
			b = append(b, make([]byte, t.Intn(70))...)
		case 4:
			b = b[:t.Intn(len(b)+1)]
		}
		t.Remember("data", append([]byte{}, b...))
		return b, "related"
	}
	b, c := data(t)
	t.Remember("data", append([]byte{}, b...))
	return b, c
}

func data(t *pbt.T) ([]byte, string) {
	var n int
	c := ""
	switch t.Weighted(120, 120, 40, 15, 12, 3) {
	case 4: // near a number in the source
		n, c = int(t.FromDict()%(1<<24))+t.Range(-1, 1), "dictionary"
		if n < 0 {
			n = 0
		}
		if n > 1<<20+1 {
			n %= 1 << 14
		}
	case 5:
		n, c = 1<<uint(t.Range(14, 20))+t.Range(-2, 2), "huge"
		if t.Bool() {
			n += t.Intn(1 << 14)
		}
	case 0:
		n, c = t.Intn(40), "short"
	case 1:
		// around SHA-512 block boundaries: 111/112/127/128...
		n, c = 128*t.Intn(5)+[]int{0, 1, 63, 64, 65, 110, 111, 112, 113, 126, 127}[t.Intn(11)], "block-edge"
	case 2:
		n, c = t.Intn(1200), "medium"
	default:
		n, c = 1<<uint(t.Range(8, 14))+t.Range(-2, 2), "large"
	}
	b := make([]byte, n, n+t.Intn(9))
	switch t.Intn(3) {
	case 0: // a short seed repeated
		v := byte(t.Intn(256))
		for i := range b {
			b[i] = v
		}
	case 1:
		s := t.Raw()
		for i := range b {
			s = s*6364136223846793005 + 1442695040888963407
			b[i] = byte(s >> 56)
		}
	default:
		k := n
		if k > 64 {
			k = 64
		}
		t.Fill(b[:k])
	}
	return b, c
}
