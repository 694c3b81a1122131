package ref

import "math/big"

// Aff is an affine point of -x^2 + y^2 = 1 + d x^2 y^2.
type Aff struct{ X, Y Fe }

// Identity is the neutral element of the curve.
var Identity = Aff{Zero, Fe{1}}

// Base is the edwards25519 base point (x >= 0, y = 4/5).
var Base Aff

// Tors8 is a point of order 8; Tors[i] = i*Tors8.
var Tors8 Aff
var Tors [8]Aff

// OnCurve reports whether a satisfies the curve equation.
func OnCurve(a Aff) bool {
	x2, y2 := Sq(a.X), Sq(a.Y)
	return Sub(y2, x2) == Add(One, Mul(D, Mul(x2, y2)))
}

// AddA is the complete affine addition law.
func AddA(a, b Aff) Aff {
	x1y2, x2y1 := Mul(a.X, b.Y), Mul(b.X, a.Y)
	y1y2, x1x2 := Mul(a.Y, b.Y), Mul(a.X, b.X)
	k := Mul(D, Mul(x1x2, y1y2))
	dx, dy := Add(One, k), Sub(One, k)
	inv := Inv(Mul(dx, dy))
	return Aff{Mul(Add(x1y2, x2y1), Mul(inv, dy)), Mul(Add(y1y2, x1x2), Mul(inv, dx))}
}

func NegA(a Aff) Aff    { return Aff{Neg(a.X), a.Y} }
func SubA(a, b Aff) Aff { return AddA(a, NegA(b)) }
func DoubleA(a Aff) Aff { return AddA(a, a) }

// proj is a projective point used only to make multiplication affordable; it
// uses the textbook projective (X:Y:Z) unified addition.
type proj struct{ X, Y, Z Fe }

func addP(p, q proj) proj {
	a := Mul(p.Z, q.Z)
	b := Sq(a)
	c := Mul(p.X, q.X)
	d := Mul(p.Y, q.Y)
	e := Mul(D, Mul(c, d))
	f := Sub(b, e)
	g := Add(b, e)
	x := Mul(Mul(a, f), Sub(Mul(Add(p.X, p.Y), Add(q.X, q.Y)), Add(c, d)))
	y := Mul(Mul(a, g), Add(d, c)) // a = -1: D - aC = D + C
	z := Mul(f, g)
	return proj{x, y, z}
}

func dblP(p proj) proj {
	b := Sq(Add(p.X, p.Y))
	c := Sq(p.X)
	d := Sq(p.Y)
	e := Neg(c)
	f := Add(e, d)
	h := Sq(p.Z)
	j := Sub(f, Add(h, h))
	return proj{Mul(Sub(Sub(b, c), d), j), Mul(f, Sub(e, d)), Mul(f, j)}
}

func (p proj) affine() Aff {
	zi := Inv(p.Z)
	return Aff{Mul(p.X, zi), Mul(p.Y, zi)}
}

// MulA returns k*a for any integer k.
func MulA(a Aff, k *big.Int) Aff {
	if k.Sign() < 0 {
		return MulA(NegA(a), new(big.Int).Neg(k))
	}
	r := proj{Zero, One, One}
	q := proj{a.X, a.Y, One}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = dblP(r)
		if k.Bit(i) == 1 {
			r = addP(r, q)
		}
	}
	return r.affine()
}

// IsEven reports whether a is in 2E (= the prime order subgroup plus E[4]).
func IsEven(a Aff) bool {
	// a in 2E iff l*a is in E[4] iff 4*l*a = 0.
	return MulA(a, new(big.Int).Lsh(L, 2)) == Identity
}

// IsEvenFast is IsEven by the criterion that 1-y^2 is a square (validated
// against IsEven in SelfTest).
func IsEvenFast(a Aff) bool { return IsSquare(Sub(One, Sq(a.Y))) }

// Encode is the RFC 9496 section 4.3.2 encoding of (x, y) with z = 1.
func Encode(a Aff) [32]byte {
	x0, y0, z0, t0 := a.X, a.Y, One, Mul(a.X, a.Y)
	u1 := Mul(Add(z0, y0), Sub(z0, y0))
	u2 := Mul(x0, y0)
	_, invsqrt := SqrtRatio(One, Mul(u1, Sq(u2)))
	den1 := Mul(invsqrt, u1)
	den2 := Mul(invsqrt, u2)
	zInv := Mul(Mul(den1, den2), t0)
	ix0 := Mul(x0, I)
	iy0 := Mul(y0, I)
	ench := Mul(den1, InvSqrtAMinusD)
	rotate := IsNeg(Mul(t0, zInv))
	x, y, z, den := x0, y0, z0, den2
	if rotate {
		x, y, den = iy0, ix0, ench
	}
	if IsNeg(Mul(x, zInv)) {
		y = Neg(y)
	}
	s := Abs(Mul(den, Sub(z, y)))
	return s.Bytes()
}

// Decode is the RFC 9496 section 4.3.1 decoding.
func Decode(b [32]byte) (Aff, bool) {
	s := FromBytesMod(b)
	if s.Bytes() != b || IsNeg(s) {
		return Aff{}, false
	}
	ss := Sq(s)
	u1 := Sub(One, ss)
	u2 := Add(One, ss)
	u2s := Sq(u2)
	v := Sub(Neg(Mul(D, Sq(u1))), u2s)
	ok, invsqrt := SqrtRatio(One, Mul(v, u2s))
	denX := Mul(invsqrt, u2)
	denY := Mul(Mul(invsqrt, denX), v)
	x := Abs(Mul(Add(s, s), denX))
	y := Mul(u1, denY)
	t := Mul(x, y)
	if !ok || IsNeg(t) || y == Zero {
		return Aff{}, false
	}
	return Aff{x, y}, true
}

// Map is MAP of RFC 9496 section 4.3.4, returning the even curve point.
func Map(t Fe) Aff {
	r := Mul(I, Sq(t))
	u := Mul(Add(r, One), OneMinusDSq)
	v := Mul(Sub(MinusOne, Mul(r, D)), Add(r, D))
	wasSquare, s := SqrtRatio(u, v)
	sPrime := Neg(Abs(Mul(s, t)))
	c := MinusOne
	if !wasSquare {
		s = sPrime
		c = r
	}
	n := Sub(Mul(Mul(c, Sub(r, One)), DMinusOneSq), v)
	ss := Sq(s)
	w0 := Mul(Add(s, s), v)
	w1 := Mul(n, SqrtADMinusOne)
	w2 := Sub(One, ss)
	w3 := Add(One, ss)
	// X = w0 w3, Y = w2 w1, Z = w1 w3
	z := Inv(Mul(w1, w3))
	return Aff{Mul(Mul(w0, w3), z), Mul(Mul(w2, w1), z)}
}

// Formal evaluates the map's equations at the parameter r, which for Map is i
// times a square, in the square (0) or the non-square (1) case, with the given
// sign of s.  It reports whether the equations have a solution there.
func Formal(r Fe, branch int, neg bool) (Aff, bool) {
	u := Mul(Add(r, One), OneMinusDSq)
	v := Mul(Sub(MinusOne, Mul(r, D)), Add(r, D))
	c := MinusOne
	if branch == 1 {
		u = Mul(u, r)
		c = r
	}
	if v == Zero {
		return Aff{}, false
	}
	s, ok := Sqrt(Mul(u, Inv(v)))
	if !ok {
		return Aff{}, false
	}
	if neg {
		s = Neg(s)
	}
	n := Sub(Mul(Mul(c, Sub(r, One)), DMinusOneSq), v)
	ss := Sq(s)
	w0 := Mul(Add(s, s), v)
	w1 := Mul(n, SqrtADMinusOne)
	w2 := Sub(One, ss)
	w3 := Add(One, ss)
	den := Mul(w1, w3)
	if den == Zero {
		return Aff{}, false
	}
	z := Inv(den)
	a := Aff{Mul(Mul(w0, w3), z), Mul(Mul(w2, w1), z)}
	return a, OnCurve(a) && IsEven(a)
}

// MapBytes is the one-way map of 32 bytes (top bit ignored).
func MapBytes(b [32]byte) Aff { return Map(FromBytesMod(b)) }

// Equal reports whether the even points a and b are the same Ristretto
// element: their difference is a 4-torsion point.
func Equal(a, b Aff) bool {
	d := SubA(a, b)
	return d == Tors[0] || d == Tors[2] || d == Tors[4] || d == Tors[6]
}

// Preimages returns all non-negative field elements t with Map(t) = a as a
// Ristretto element, in ascending byte order of discovery, without
// duplicates.  It solves the defining equations instead of inverting the
// Jacobi quartic: for each of the 4 representatives (x, y) the map yields
// y = (1-s^2)/(1+s^2), so s^2 = (1-y)/(1+y), and s^2 = u/v (square case) or
// s^2 = r u/v (non-square case, as sPrime^2 = s^2 t^2 with s^2 = i u/v), with
// u, v quadratic polynomials in r.  Each root r gives t = sqrt(r/i).  Every
// candidate is confirmed with the forward map.
func Preimages(a Aff) []Fe {
	var out []Fe
	seen := map[Fe]bool{}
	want := Encode(a)
	try := func(r Fe) {
		t, ok := Sqrt(Mul(r, Neg(I))) // 1/i = -i
		if !ok || seen[t] {
			return
		}
		if Encode(Map(t)) == want {
			seen[t] = true
			out = append(out, t)
		}
	}
	for k := 0; k < 8; k += 2 {
		q := AddA(a, Tors[k])
		den := Add(One, q.Y)
		if den == Zero {
			continue
		}
		s2 := Mul(Sub(One, q.Y), Inv(den))
		// v(r) = -(1 + d r)(r + d) = -(d r^2 + (1+d^2) r + d)
		// u(r) = (1-d^2)(r+1)
		dd := Add(One, Sq(D))
		// square case: s2*v(r) - u(r) = 0
		c2 := Neg(Mul(s2, D))
		c1 := Sub(Neg(Mul(s2, dd)), OneMinusDSq)
		c0 := Sub(Neg(Mul(s2, D)), OneMinusDSq)
		for _, r := range solveQuad(c2, c1, c0) {
			try(r)
		}
		// non-square case: s2*v(r) = r*u(r)   [(1-d^2)(r^2+r)]
		c2 = Sub(Neg(Mul(s2, D)), OneMinusDSq)
		c1 = Sub(Neg(Mul(s2, dd)), OneMinusDSq)
		c0 = Neg(Mul(s2, D))
		for _, r := range solveQuad(c2, c1, c0) {
			try(r)
		}
		if s2 == Zero {
			// u(r) = 0, r*u(r) = 0 and the exceptional v(r) = 0.
			for _, r := range []Fe{Zero, MinusOne, Neg(D), Neg(Inv(D))} {
				try(r)
			}
		}
	}
	return out
}

func solveQuad(a, b, c Fe) []Fe {
	if a == Zero {
		if b == Zero {
			return nil
		}
		return []Fe{Neg(Mul(c, Inv(b)))}
	}
	disc := Sub(Sq(b), Mul(FromU64(4), Mul(a, c)))
	s, ok := Sqrt(disc)
	if !ok {
		return nil
	}
	i2a := Inv(Add(a, a))
	return []Fe{Mul(Sub(s, b), i2a), Mul(Sub(Neg(s), b), i2a)}
}

func init() {
	initField()
	y := Mul(FromU64(4), Inv(FromU64(5)))
	y2 := Sq(y)
	x2 := Mul(Sub(y2, One), Inv(Add(Mul(D, y2), One)))
	x, ok := Sqrt(x2)
	if !ok {
		panic("base")
	}
	Base = Aff{x, y}
	// Order-8 point: 2T = (i, 0).  Search l*P over small curve points.
	for yy := uint64(2); ; yy++ {
		y := FromU64(yy)
		y2 := Sq(y)
		x, ok := Sqrt(Mul(Sub(y2, One), Inv(Add(Mul(D, y2), One))))
		if !ok {
			continue
		}
		t := MulA(Aff{x, y}, L)
		if MulA(t, big.NewInt(4)) != Identity {
			Tors8 = t
			break
		}
	}
	Tors[0] = Identity
	for i := 1; i < 8; i++ {
		Tors[i] = AddA(Tors[i-1], Tors8)
	}
}

// SumA adds points with one inversion at the end.
func SumA(ps []Aff) Aff {
	r := proj{Zero, One, One}
	for _, p := range ps {
		r = addP(r, proj{p.X, p.Y, One})
	}
	return r.affine()
}
