// Package crefc holds the laws about the C functions of the reference that
// have no Go wrapper.  The C sources are compiled into this package.
package crefc

/*
#include "verif_cref_all.h"
#include <string.h>

// What follows gives Go uniform access to the functions in cref.h.
// A result that is not also an operand starts out as junk.
#define DIRTY(r) memset((r), 0xa5, sizeof *(r))
#define DIRTY1(r, x) do { if ((const void*)(r) != (const void*)(x)) DIRTY(r); } while (0)
#define DIRTY2(r, x, y) do { if ((const void*)(r) != (const void*)(y)) DIRTY1(r, x); } while (0)

static void v_fe_un(int op, fe25519 *r, const fe25519 *x) {
	DIRTY1(r, x);
	switch (op) {
	case 0: fe25519_neg(r, x); break;
	case 1: fe25519_double(r, x); break;
	case 2: fe25519_triple(r, x); break;
	case 3: fe25519_square(r, x); break;
	case 4: fe25519_square_double(r, x); break;
	case 5: fe25519_invert(r, x); break;
	case 6: fe25519_pow2523(r, x); break;
	case 7: fe25519_invsqrt(r, x); break;
	case 8: fe25519_sqrt(r, x); break;
	}
}
static void v_fe_bin(int op, fe25519 *r, const fe25519 *x, const fe25519 *y) {
	DIRTY2(r, x, y);
	switch (op) {
	case 0: fe25519_add(r, x, y); break;
	case 1: fe25519_sub(r, x, y); break;
	case 2: fe25519_mul(r, x, y); break;
	}
}
static int v_fe_pred(int op, const fe25519 *x, const fe25519 *y) {
	switch (op) {
	case 0: return fe25519_iszero(x);
	case 1: return fe25519_isone(x);
	case 2: return fe25519_isnegative(x);
	case 3: return fe25519_getparity(x);
	case 4: return fe25519_iseq(x, y);
	case 5: return fe25519_iseq_vartime(x, y);
	}
	return -1;
}
static void v_fe_const(int op, fe25519 *r) {
	DIRTY(r);
	switch (op) {
	case 0: *r = fe25519_zero; break;
	case 1: *r = fe25519_one; break;
	case 2: *r = fe25519_two; break;
	case 3: *r = fe25519_sqrtm1; break;
	case 4: *r = fe25519_msqrtm1; break;
	case 5: *r = fe25519_m1; break;
	case 6: fe25519_setzero(r); break;
	case 7: fe25519_setone(r); break;
	}
}
static void v_sc_bin(int op, group_scalar *r, const group_scalar *x, const group_scalar *y) {
	DIRTY2(r, x, y);
	switch (op) {
	case 0: group_scalar_add(r, x, y); break;
	case 1: group_scalar_sub(r, x, y); break;
	case 2: group_scalar_mul(r, x, y); break;
	case 3: group_scalar_negate(r, x); break;
	case 4: group_scalar_square(r, x); break;
	case 5: group_scalar_invert(r, x); break;
	}
}
static void v_sc_const(int op, group_scalar *r) {
	DIRTY(r);
	switch (op) {
	case 0: *r = group_scalar_zero; break;
	case 1: *r = group_scalar_one; break;
	case 2: group_scalar_setzero(r); break;
	case 3: group_scalar_setone(r); break;
	}
}
static int v_sc_pred(int op, const group_scalar *x, const group_scalar *y) {
	switch (op) {
	case 0: return group_scalar_iszero(x);
	case 1: return group_scalar_isone(x);
	case 2: return group_scalar_equals(x, y);
	}
	return -1;
}
static void v_ge_bin(int op, group_ge *r, const group_ge *x, const group_ge *y) {
	DIRTY2(r, x, y);
	switch (op) {
	case 0: group_ge_add(r, x, y); break;
	case 1: group_ge_add_publicinputs(r, x, y); break;
	case 2: group_ge_double(r, x); break;
	case 3: group_ge_double_publicinputs(r, x); break;
	case 4: group_ge_negate(r, x); break;
	case 5: group_ge_negate_publicinputs(r, x); break;
	}
}
static int v_ge_pred(int op, const group_ge *x, const group_ge *y) {
	switch (op) {
	case 0: return group_ge_equals(x, y);
	case 1: return group_ge_equals_publicinputs(x, y);
	case 2: return group_ge_isneutral(x);
	case 3: return group_ge_isneutral_publicinputs(x);
	}
	return -1;
}
static void v_ge_const(int op, group_ge *r) { *r = op ? group_ge_base : group_ge_neutral; }
static void v_ge_mult(int op, group_ge *r, const group_ge *x, const group_scalar *s) {
	DIRTY1(r, x);
	switch (op) {
	case 0: group_ge_scalarmult(r, x, s); break;
	case 1: group_ge_scalarmult_publicinputs(r, x, s); break;
	case 2: group_ge_scalarmult_base(r, s); break;
	case 3: group_ge_scalarmult_base_publicinputs(r, s); break;
	}
}
static void v_ge_multi(int op, group_ge *r, const group_ge *x, const group_scalar *s, unsigned long long n) {
	DIRTY(r);
	if (op) group_ge_multiscalarmult_publicinputs(r, x, s, n);
	else group_ge_multiscalarmult(r, x, s, n);
}
static void v_fe_cmov(fe25519 *r, const fe25519 *x, unsigned char b) { fe25519_cmov(r, x, b); }
static void v_fe_unpack(fe25519 *r, const unsigned char *x) { DIRTY(r); fe25519_unpack(r, x); }
static void v_fe_pack(unsigned char *r, const fe25519 *x) { memset(r, 0xa5, 32); fe25519_pack(r, x); }
static int v_fe_invsqrti(fe25519 *r, const fe25519 *x) { DIRTY1(r, x); return fe25519_invsqrti(r, x); }
static int v_fe_sqrti(fe25519 *r, const fe25519 *x) { DIRTY1(r, x); return fe25519_sqrti(r, x); }
static int v_sc_unpack(group_scalar *r, const unsigned char *x) { DIRTY(r); return group_scalar_unpack(r, x); }
static void v_sc_pack(unsigned char *r, const group_scalar *x) { memset(r, 0xa5, 32); group_scalar_pack(r, x); }
static void v_sc_from64(group_scalar *r, const unsigned char *x) { DIRTY(r); scalar_from64bytes(r, x); }
static int v_sc_bit(const group_scalar *x, unsigned int pos) { return scalar_tstbit(x, pos); }
static int v_sc_bitlen(const group_scalar *x) { return scalar_bitlen(x); }
static void v_sc_window(int op, signed char *r, const group_scalar *x) {
	// arrays of exactly the declared lengths
	signed char w3[85], w5[51], sl[256];
	memset(w3, 0xa5, sizeof w3); memset(w5, 0xa5, sizeof w5); memset(sl, 0xa5, sizeof sl);
	if (op == 3) { scalar_window3(w3, x); memcpy(r, w3, sizeof w3); }
	else if (op == 5) { scalar_window5(w5, x); memcpy(r, w5, sizeof w5); }
	else { scalar_slide(sl, x, op - 100); memcpy(r, sl, sizeof sl); }
}
static void v_ge_jacobi(group_ge *r, const fe25519 *s, const fe25519 *t) { DIRTY(r); group_ge_from_jacobi_quartic(r, s, t); }
static void v_ge_pack(unsigned char *r, const group_ge *x) { memset(r, 0xa5, 32); group_ge_pack(r, x); }
static int v_ge_unpack(group_ge *r, const unsigned char *x) { DIRTY(r); return group_ge_unpack(r, x); }
*/
import "C"

import (
	"math/big"

	"vh/ref"
)

type (
	cfe = C.fe25519
	csc = C.group_scalar
	cge = C.group_ge
)

func feUn(op int, r, x *cfe)     { C.v_fe_un(C.int(op), r, x) }
func feBin(op int, r, x, y *cfe) { C.v_fe_bin(C.int(op), r, x, y) }
func fePred(op int, x, y *cfe) int {
	return int(C.v_fe_pred(C.int(op), x, y))
}
func feConst(op int) *cfe { var r cfe; C.v_fe_const(C.int(op), &r); return &r }
func feCmov(r, x *cfe, b int) {
	C.v_fe_cmov(r, x, C.uchar(b))
}
func feInvSqrtI(r, x *cfe) int { return int(C.v_fe_invsqrti(r, x)) }
func feSqrtI(r, x *cfe) int    { return int(C.v_fe_sqrti(r, x)) }

func mkfe(v ref.Fe) *cfe {
	b := v.Bytes()
	var r cfe
	C.v_fe_unpack(&r, (*C.uchar)(&b[0]))
	return &r
}

func feOf(x *cfe) ref.Fe {
	var b [32]byte
	c := *x
	C.v_fe_pack((*C.uchar)(&b[0]), &c)
	return ref.FromBytesMod(b)
}

func scBin(op int, r, x, y *csc) { C.v_sc_bin(C.int(op), r, x, y) }
func scPred(op int, x, y *csc) int {
	return int(C.v_sc_pred(C.int(op), x, y))
}
func scConst(op int) *csc { var r csc; C.v_sc_const(C.int(op), &r); return &r }
func scFrom64(b *[64]byte) *csc {
	var r csc
	C.v_sc_from64(&r, (*C.uchar)(&b[0]))
	return &r
}
func scBit(x *csc, pos int) int { return int(C.v_sc_bit(x, C.uint(pos))) }
func scBitLen(x *csc) int       { return int(C.v_sc_bitlen(x)) }

func scWindow(op, n int, x *csc) []int {
	r := make([]int8, 256)
	C.v_sc_window(C.int(op), (*C.schar)(&r[0]), x)
	out := make([]int, n)
	for i := range out {
		out[i] = int(r[i])
	}
	return out
}

func mksc(x *big.Int) *csc {
	b := ref.BigToLE32(x)
	var r csc
	C.v_sc_unpack(&r, (*C.uchar)(&b[0]))
	return &r
}

func scOf(x *csc) *big.Int {
	var b [32]byte
	C.v_sc_pack((*C.uchar)(&b[0]), x)
	return ref.LEToBig(b[:])
}

func geBin(op int, r, x, y *cge) { C.v_ge_bin(C.int(op), r, x, y) }
func gePred(op int, x, y *cge) int {
	return int(C.v_ge_pred(C.int(op), x, y))
}
func geConst(op int) *cge              { var r cge; C.v_ge_const(C.int(op), &r); return &r }
func geMult(op int, r, x *cge, s *csc) { C.v_ge_mult(C.int(op), r, x, s) }
func geJacobi(r *cge, s, t *cfe)       { C.v_ge_jacobi(r, s, t) }
func geMulti(op int, r *cge, xs []cge, ss []csc) {
	if len(xs) == 0 {
		C.v_ge_multi(C.int(op), r, nil, nil, 0)
		return
	}
	C.v_ge_multi(C.int(op), r, &xs[0], &ss[0], C.ulonglong(len(xs)))
}

func gePack(x *cge) (b [32]byte) {
	C.v_ge_pack((*C.uchar)(&b[0]), x)
	return
}

func geUnpack(r *cge, b *[32]byte) int { return int(C.v_ge_unpack(r, (*C.uchar)(&b[0]))) }

func mkge(a ref.Aff, z ref.Fe) *cge {
	var g cge
	g.x = *mkfe(ref.Mul(a.X, z))
	g.y = *mkfe(ref.Mul(a.Y, z))
	g.z = *mkfe(z)
	g.t = *mkfe(ref.Mul(ref.Mul(a.X, a.Y), z))
	return &g
}

func geCoords(g *cge) (x, y, z, t ref.Fe) {
	return feOf(&g.x), feOf(&g.y), feOf(&g.z), feOf(&g.t)
}
