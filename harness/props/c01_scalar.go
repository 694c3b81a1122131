package props

import (
	"math/big"

	rist "github.com/bwesterb/go-ristretto"

	"vh/gen"
	"vh/pbt"
	"vh/ref"
)

// scalarArg draws a reduced scalar.
func scalarArg(t *pbt.T, name string) (*rist.Scalar, *big.Int, string) {
	x, c := gen.ScalarBig(t)
	t.Note("%s = %x [%s]", name, x, c)
	return scalarOf(x), x, c
}

var oneB = big.NewInt(1)

func init() {
	rule := "operands are reduced scalars: edge values (small, near k*l, near 2^k, extreme limbs for radix 4/5/8/21/32/51/64, runs, sparse, dense), l-1-x mirrors, uniform; in half of the cases one operand is solved so that the exact result is itself an edge value. Non-trivial: some operand or the result is not from the uniform class"
	reg("C01", &pbt.Law{Name: "ring", Rule: rule, Quick: 3000000, Thorough: 60000000, Run: func(t *pbt.T) {
		op := t.Intn(7)
		_, a, ca := scalarArg(t, "a")
		_, b, cb := scalarArg(t, "b")
		_, c, cc := scalarArg(t, "c")
		solve := t.Bool()
		nt := ca != "uniform" || cb != "uniform"
		if solve {
			// make the exact result equal to c
			t.Class("solved")
			nt = nt || cc != "uniform"
			target := new(big.Int).Set(c)
			switch op {
			case 0: // a + b = target
				b = modL(new(big.Int).Sub(target, a))
			case 1:
				b = modL(new(big.Int).Sub(a, target))
			case 2: // -a = target
				a = modL(new(big.Int).Neg(target))
			case 3: // a*b = target
				if a.Sign() != 0 {
					b = modL(new(big.Int).Mul(target, new(big.Int).ModInverse(a, ref.L)))
				}
			case 5: // a*b + c = target: choose c; a*b as drawn
				c = modL(new(big.Int).Sub(target, new(big.Int).Mul(a, b)))
			case 6:
				c = modL(new(big.Int).Sub(new(big.Int).Mul(a, b), target))
			}
			t.Note("solved for result %x: a=%x b=%x c=%x", target, a, b, c)
		}
		t.NonTrivialIf(nt)
		A, B, C := scalarOf(a), scalarOf(b), scalarOf(c)
		s := garbageScalar(t)
		want := new(big.Int)
		name := ""
		var ret *rist.Scalar
		switch op {
		case 0:
			name, ret = "Add", s.Add(A, B)
			want.Add(a, b)
		case 1:
			name, ret = "Sub", s.Sub(A, B)
			want.Sub(a, b)
		case 2:
			name, ret = "Neg", s.Neg(A)
			want.Neg(a)
		case 3:
			name, ret = "Mul", s.Mul(A, B)
			want.Mul(a, b)
		case 4:
			name, ret = "Square", s.Square(A)
			want.Mul(a, a)
		case 5:
			name, ret = "MulAdd", s.MulAdd(A, B, C)
			want.Add(want.Mul(a, b), c)
		case 6:
			name, ret = "MulSub", s.MulSub(A, B, C)
			want.Sub(want.Mul(a, b), c)
		}
		t.Note("op %s", name)
		t.Class(name)
		modL(want)
		sameScalar(t, name, s, want)
		if ret != s {
			t.Fatalf("%s did not return its receiver", name)
		}
		var buf [32]byte
		s.BytesInto(&buf)
		if buf != ref.BigToLE32(want) {
			t.Fatalf("%s: BytesInto = %x, want %x", name, buf, ref.BigToLE32(want))
		}
	}})
	reg("C01", &pbt.Law{Name: "inverse", Rule: "as ring; the argument or its inverse is an edge value; non-trivial: argument not 0 and not from the uniform class", Quick: 60000, Thorough: 1500000, Run: func(t *pbt.T) {
		_, a, c := scalarArg(t, "a")
		if a.Sign() == 0 {
			a.SetInt64(1)
		}
		if t.Bool() {
			a.ModInverse(a, ref.L)
			t.Class("inverse-is-edge")
			t.Note("a := 1/a = %x", a)
		}
		t.NonTrivialIf(c != "uniform")
		s := garbageScalar(t)
		s.Inverse(scalarOf(a))
		sameScalar(t, "Inverse", s, new(big.Int).ModInverse(a, ref.L))
		var m rist.Scalar
		m.Mul(s, scalarOf(a))
		sameScalar(t, "a * Inverse(a)", &m, oneB)
	}})
	reg("C01", &pbt.Law{Name: "chains", Rule: "2-12 random ring operations over three scalar registers (results feed later operands), each step compared with integers modulo l; non-trivial: at least two steps", Quick: 120000, Thorough: 3000000, Run: func(t *pbt.T) {
		var s [3]rist.Scalar
		var m [3]*big.Int
		for i := range s {
			S, x, _ := scalarArg(t, "r")
			s[i], m[i] = *S, x
		}
		n := t.Range(1, 12)
		t.NonTrivialIf(n > 1)
		for k := 0; k < n; k++ {
			d, i, j, l := t.Intn(3), t.Intn(3), t.Intn(3), t.Intn(3)
			w := new(big.Int)
			op := t.Intn(7)
			switch op {
			case 0:
				s[d].Add(&s[i], &s[j])
				w.Add(m[i], m[j])
			case 1:
				s[d].Sub(&s[i], &s[j])
				w.Sub(m[i], m[j])
			case 2:
				s[d].Neg(&s[i])
				w.Neg(m[i])
			case 3:
				s[d].Mul(&s[i], &s[j])
				w.Mul(m[i], m[j])
			case 4:
				s[d].Square(&s[i])
				w.Mul(m[i], m[i])
			case 5:
				s[d].MulAdd(&s[i], &s[j], &s[l])
				w.Add(w.Mul(m[i], m[j]), m[l])
			case 6:
				s[d].MulSub(&s[i], &s[j], &s[l])
				w.Sub(w.Mul(m[i], m[j]), m[l])
			}
			m[d] = modL(w)
			t.Note("step %d: op %d r%d <- r%d r%d r%d", k, op, d, i, j, l)
			for q := range s {
				sameScalar(t, "register", &s[q], m[q])
			}
		}
	}})
}
