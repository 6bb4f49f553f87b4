// C06: predicates against their definition, on members, near misses and arbitrary matrices.
// All entries are dyadic, so products are exact and the definition can be decided exactly.
#include "../common.h"
#include "matrix/MatrixCheck.h"
using namespace h;

namespace {
template<class T> T iu() { return mk<T>(0, 1); }

template<class T> void addRow(Grid<T>& a, size_t i, size_t j, T f) { for(size_t k = 0; k < a.c; ++k) a(i, k) += f * a(j, k); }
template<class T> void addCol(Grid<T>& a, size_t i, size_t j, T f) { for(size_t k = 0; k < a.r; ++k) a(k, i) += f * a(k, j); }

// Unit entries: 1, -1 and for complex numbers i, -i
template<class T> T unit(Src& s) { T u = s.coin() ? mk<T>(1) : mk<T>(-1); if(Real<T>::cplx && s.coin()) u *= iu<T>(); return u; }

// from: first predicate which the numbers allow to decide exactly
template<class T> Grid<T> member(Ctx& c, size_t n, int kind, int& from)
{
	Src& s = c.s;
	Grid<T> a(n, n);
	switch(kind) {
	case 0: {// Signed permutation, real signs or phases
		std::vector<size_t> p = s.perm(n);
		const bool phases = s.coin();
		for(size_t i = 0; i < n; ++i) a(i, p[i]) = phases ? unit<T>(s) : (s.coin() ? mk<T>(1) : mk<T>(-1));
		c.label("permutation");
		break; }
	case 1: {// Hadamard blocks of order 4, identity for the rest
		for(size_t i = 0; i < n; ++i) a(i, i) = mk<T>(1);
		if(n >= 4) {
			static const int had[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, 1, -1, -1}, {1, -1, -1, 1}};
			for(size_t i = 0; i < 4; ++i) { const T u = unit<T>(s); for(size_t j = 0; j < 4; ++j) a(i, j) = u * mk<T>(had[i][j] * 0.5); }
			c.label("hadamard");
		}
		break; }
	case 2: {// Complex orthogonal, but not unitary
		for(size_t i = 0; i < n; ++i) a(i, i) = mk<T>(1);
		if(n >= 2 && Real<T>::cplx) {
			a(0, 0) = a(1, 1) = mk<T>(1.25); a(0, 1) = mk<T>(0, 0.75); a(1, 0) = mk<T>(0, -0.75);
			c.label("complex orthogonal");
		}
		break; }
	case 3: {// Projection: conjugated diagonal of zeros and ones
		for(size_t i = 0; i < n; ++i) if(s.coin()) a(i, i) = mk<T>(1);
		if(n > 1) { const size_t q = s.size(0, 3); for(size_t k = 0; k < q; ++k) {
			size_t i = s.raw(n), j = (i + 1 + s.raw(n - 1)) % n;
			const T f = unit<T>(s);
			addRow(a, i, j, f); addCol(a, j, i, -f); } }
		c.label("projection");
		break; }
	case 4: case 5: case 6: case 7: {// (Skew-)symmetric, (skew-)hermitian
		const unsigned zeros = (unsigned)s.raw(8);
		const bool skew = kind == 5 || kind == 7, herm = kind >= 6, any = s.chance(1, 3), ext = any && s.coin();
		if(ext) { from = 3; c.label("numbers of the whole range"); }
		for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) {
			T v = any && s.chance(10 - zeros, 10) ? (ext ? extreme<T>(s) : wide<T>(s)) : sval<T>(s, zeros);
			T w = herm ? cj(v) : v;
			if(skew) w = -w;
			if(i == j && v != w) v = w = skew ? (herm ? mk<T>(0, im(v)) : mk<T>(0)) : mk<T>(re(v));
			a(i, j) = v; a(j, i) = w;
		}
		c.label(kind == 4 ? "symmetric" : kind == 5 ? "skew symmetric" : kind == 6 ? "hermitian" : "skew hermitian");
		break; }
	default:
		a = genGrid<T>(s, n, n, (unsigned)s.raw(11));
	}
	return a;
}

struct Truth { bool v[7]; };
const char* const names[7] = {"matrixIsOrthogonal", "matrixIsUnitary", "matrixIsProjection", "matrixIsSymmetric", "matrixIsHermitian", "matrixIsSkewSymmetric", "matrixIsSkewHermitian"};
template<class T> Truth oracle(const Grid<T>& a)
{
	Truth t;
	if(a.r != a.c) { for(bool& b : t.v) b = false; return t; }
	Grid<T> at = transp(a), ah = conjg(at), nt(at), nh(ah);
	for(T& x : nt.v) x = -x;
	for(T& x : nh.v) x = -x;
	t.v[0] = mul(a, at) == ident<T>(a.r); t.v[1] = mul(a, ah) == ident<T>(a.r); t.v[2] = mul(a, a) == a;
	t.v[3] = at == a; t.v[4] = ah == a; t.v[5] = nt == a; t.v[6] = nh == a;
	return t;
}
template<class M> Truth ask(const M& m)
{
	Truth t;
	t.v[0] = NS::Check::matrixIsOrthogonal(m); t.v[1] = NS::Check::matrixIsUnitary(m); t.v[2] = NS::Check::matrixIsProjection(m);
	t.v[3] = NS::Check::matrixIsSymmetric(m); t.v[4] = NS::Check::matrixIsHermitian(m); t.v[5] = NS::Check::matrixIsSkewSymmetric(m); t.v[6] = NS::Check::matrixIsSkewHermitian(m);
	return t;
}
template<class M, class T> void decide(Ctx& c, const Grid<T>& g, int from)
{
	const M m = Make<M>::of(c.s, g);
	const Truth w = oracle(g), got = ask(m);
	bool any = false;
	for(int i = from; i < 7; ++i) {
		REQ(got.v[i] == w.v[i], names[i] << "(" << Make<M>::n() << ") is " << got.v[i] << " for " << g);
		any = any || w.v[i];
	}
	c.label(any, "has a property"); c.label(!any, "has none");
	REQ(grid(m) == g, "argument changed");
}
// One entry changed
template<class T> void miss(Ctx& c, Grid<T>& g, bool close)
{
	Src& s = c.s;
	const size_t k = s.raw(g.v.size());
	if(close && s.coin()) {// As close as possible. Not where rounding in products could decide.
		const T was = g.v[k];
		if(was == mk<T>(0)) g.v[k] = sh(s.coin() ? unit<T>(s) : mk<T>(1), -(int)s.size(20, 60)); else g.v[k] = other(s, was);
		NOTE("entry " << k << " changed from " << was << " to " << g.v[k]);
		c.label("smallest change");
		return;
	}
	static const double d[5] = {1, -1, 0.25, 0.00390625, 1.0 / (1 << 20)};
	const double x = d[s.raw(eps<T>() < 1e-10 ? 5 : 4)];
	const T old = g.v[k];
	switch(s.raw(3)) {
	case 0: g.v[k] += mk<T>(x); break;
	case 1: g.v[k] = g.v[k] == mk<T>(0) ? mk<T>(x) : mk<T>(0); break;
	default: g.v[k] += Real<T>::cplx ? mk<T>(0, x) : mk<T>(x);
	}
	NOTE("entry " << k << " changed from " << old << " to " << g.v[k]);
}
template<template<class> class MT, class T> void dynamicOf(Ctx& c, bool big)
{
	Src& s = c.s;
	const size_t n = big ? s.size(20, 110) : s.chance(1, 20) ? s.size(8, 20) : s.small(1, 7);
	Grid<T> g;
	int kind = 9, from = 0;
	if(s.chance(1, 12)) { g = genGrid<T>(s, n, n + 1 + s.raw(2), 5); if(s.coin()) g = transp(g); c.label("not square"); }
	else g = member<T>(c, n, kind = (int)s.raw(9), from);
	NOTE(Make<MT<T> >::n() << " " << g);
	decide<MT<T> >(c, g, from);
	miss(c, g, kind == 0 || (kind >= 4 && kind <= 7));
	decide<MT<T> >(c, g, from);
	c.nontrivial(g.v.size() > 1 && maxabs(g) > 0);
}
template<class T> void dynamic(Ctx& c) { if(c.s.coin()) dynamicOf<NS::SparseMatrix, T>(c, false); else dynamicOf<NS::DenseMatrix, T>(c, false); }
template<class T> void large(Ctx& c) { if(c.s.coin()) dynamicOf<NS::SparseMatrix, T>(c, true); else dynamicOf<NS::DenseMatrix, T>(c, true); }
template<class T, NS::Dimension K> void fixedOf(Ctx& c)
{
	const int kind = (int)c.s.raw(9);
	int from = 0;
	Grid<T> g = member<T>(c, K, kind, from);
	NOTE("fixed " << g);
	decide<NS::FixedMatrix<T, K, K> >(c, g, from);
	miss(c, g, kind == 0 || (kind >= 4 && kind <= 7));
	decide<NS::FixedMatrix<T, K, K> >(c, g, from);
	c.nontrivial(K > 1 && maxabs(g) > 0);
}
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(5)) {
	case 4: fixedOf<T, 7>(c); break;
	case 0: fixedOf<T, 1>(c); break;
	case 1: fixedOf<T, 2>(c); break;
	case 2: fixedOf<T, 3>(c); break;
	default: fixedOf<T, 4>(c); break;
	}
}
}
