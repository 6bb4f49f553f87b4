// Reference linear algebra in long double and generators of well conditioned matrices
#pragma once
#include "common.h"

namespace h {
typedef long double ld;
typedef std::complex<long double> cl;

template<class T> cl wide(const T& t) { return cl((ld)t, 0); }
template<class T> cl wide(const std::complex<T>& t) { return cl((ld)t.real(), (ld)t.imag()); }
template<class T> Grid<cl> wide(const Grid<T>& g)
{
	Grid<cl> r(g.r, g.c);
	for(size_t k = 0; k < g.v.size(); ++k) r.v[k] = wide(g.v[k]);
	return r;
}
template<class T> std::vector<cl> wide(const std::vector<T>& v)
{
	std::vector<cl> r(v.size());
	for(size_t k = 0; k < v.size(); ++k) r[k] = wide(v[k]);
	return r;
}
inline Grid<double> absg(const Grid<cl>& g)
{
	Grid<double> r(g.r, g.c);
	for(size_t k = 0; k < g.v.size(); ++k) r.v[k] = (double)std::abs(g.v[k]);
	return r;
}
template<class T> double frob(const Grid<T>& g)
{
	double s = 0;
	for(const T& t : g.v) s += mag(t) * mag(t);
	return std::sqrt(s);
}
template<class A> double norm2(const std::vector<A>& v)
{
	double s = 0;
	for(const A& t : v) s += mag(t) * mag(t);
	return std::sqrt(s);
}
template<class A> std::vector<A> mulv(const Grid<A>& g, const std::vector<A>& x)
{
	std::vector<A> r(g.r, A(0));
	for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) r[i] += g(i, j) * x[j];
	return r;
}

// Inverse by Gauss-Jordan elimination with partial pivoting; false if it is (nearly) singular.
inline bool refInverse(Grid<cl> a, Grid<cl>& inv)
{
	const size_t n = a.r;
	inv = ident<cl>(n);
	for(size_t k = 0; k < n; ++k) {
		size_t p = k;
		for(size_t i = k + 1; i < n; ++i) if(std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
		if(!(std::abs(a(p, k)) > 1e-12L)) return false;
		for(size_t j = 0; j < n; ++j) { std::swap(a(k, j), a(p, j)); std::swap(inv(k, j), inv(p, j)); }
		const cl d = a(k, k);
		for(size_t j = 0; j < n; ++j) { a(k, j) /= d; inv(k, j) /= d; }
		for(size_t i = 0; i < n; ++i) {
			if(i == k || a(i, k) == cl(0)) continue;
			const cl f = a(i, k);
			for(size_t j = 0; j < n; ++j) { a(i, j) -= f * a(k, j); inv(i, j) -= f * inv(k, j); }
		}
	}
	return true;
}

template<class T> void permuteRows(Src& s, Grid<T>& g)
{
	const std::vector<size_t> p = s.perm(g.r);
	Grid<T> o(g);
	for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) g(i, j) = o(p[i], j);
}
// Strictly diagonally dominant by rows, with the given share of zeros
template<class T> Grid<T> dominant(Src& s, size_t n, unsigned zeros)
{
	if(n > 44 && s.recorded()) { Src b = s.bulk(); return dominant<T>(b, n, zeros); }
	Grid<T> g(n, n);
	for(size_t i = 0; i < n; ++i) {
		double sum = 0;
		for(size_t j = 0; j < n; ++j) if(i != j) {
			g(i, j) = s.chance(10 - zeros, 10) ? mk<T>((double)s.num(4) / 2, Real<T>::cplx ? (double)s.num(4) / 2 : 0) : mk<T>(0);
			sum += mag(g(i, j));
		}
		const double d = std::ceil(sum) + 1 + (double)s.raw(4) / 2;
		switch(s.raw(Real<T>::cplx ? 3 : 2)) {
		case 0: g(i, i) = mk<T>(d); break;
		case 1: g(i, i) = mk<T>(-d); break;
		default: g(i, i) = mk<T>(0, d); break;
		}
	}
	return g;
}
// A regular matrix of limited condition; inv is its inverse, scale an exact power of two
template<class T> struct Reg {
	Grid<T> a;
	Grid<cl> inv;
	const char* kind;
	double cond() const { return frob(a) * frob(inv); }
};
template<class T> double condLimit() { return eps<T>() > 1e-10 ? 300 : 3e4; }
template<class T> Reg<T> regular(Src& s, size_t n)
{
	if(n > 44 && s.recorded()) { Src b = s.bulk(); return regular<T>(b, n); }
	Reg<T> r;
	const unsigned k = (unsigned)s.raw(7);
	switch(k) {
	case 0: r.kind = "permuted diagonally dominant"; r.a = dominant<T>(s, n, (unsigned)s.raw(10)); permuteRows(s, r.a); break;
	case 1: r.kind = "random dense"; r.a = genGrid<T>(s, n, n, 1); break;
	case 2: {
		r.kind = "permuted triangular"; r.a = Grid<T>(n, n);
		const bool up = s.coin();
		for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
			if(i == j) r.a(i, j) = mk<T>((double)(1u << s.raw(3)) * (s.coin() ? -1 : 1));
			else if((j > i) == up && s.coin()) r.a(i, j) = mk<T>((double)s.num(2) / 2, Real<T>::cplx ? (double)s.num(2) / 2 : 0);
		}
		permuteRows(s, r.a);
		break;
	}
	case 3: r.kind = "random sparse"; {
		r.a = genGrid<T>(s, n, n, 8);
		const std::vector<size_t> p = s.perm(n);
		for(size_t i = 0; i < n; ++i) r.a(i, p[i]) = nonzero<T>(s) * mk<T>(4);
		break;
	}
	case 4: { // Zero leading minors: every elimination step needs an exchange
		r.kind = "zero leading minors"; r.a = dominant<T>(s, n, 5);
		Grid<T> o(r.a);
		for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) r.a(i, j) = o((i + 1) % n, j);
		if(n > 1) r.a(0, 0) = mk<T>(0);
		break;
	}
	case 5: { // Many pivots of equal magnitude
		r.kind = "signs";
		r.a = Grid<T>(n, n);
		for(T& t : r.a.v) t = mk<T>(s.coin() ? -1 : 1);
		break;
	}
	default: r.kind = "permutation times diagonal"; {
		r.a = Grid<T>(n, n);
		const std::vector<size_t> p = s.perm(n);
		for(size_t i = 0; i < n; ++i) r.a(i, p[i]) = nonzero<T>(s);
		break;
	}
	}
	if(!refInverse(wide(r.a), r.inv) || r.cond() > condLimit<T>()) {
		r.kind = "diagonally dominant";
		r.a = dominant<T>(s, n, n > 44 ? 8 : 3);
		if(s.coin()) permuteRows(s, r.a);
		if(!refInverse(wide(r.a), r.inv) || r.cond() > 4 * condLimit<T>() * (n > 44 ? (double)n / 10 : 1)) throw pbt::Discard();
	}
	if(s.raw(4) == 3) { // Other magnitudes
		const double f = std::ldexp(1.0, (int)s.num(eps<T>() > 1e-10 ? 4 : 10));
		for(T& t : r.a.v) t *= mk<T>(f);
		for(cl& t : r.inv.v) t /= (ld)f;
	}
	return r;
}
// Larger magnitudes. Powers of two per column change neither the exchanges nor a rounding, so
// everything known about the matrix stays true; only enlarged, as pivots are compared with an absolute bound.
template<class T> bool enlarge(Src& s, Reg<T>& r, int lim, bool columns)
{
	if(!s.chance(1, 4)) return false;
	const int all = (int)s.raw(lim + 1);
	const bool each = columns && s.coin();
	for(size_t j = 0; j < r.a.c; ++j) {
		const int e = each ? (int)s.raw(lim + 1) : all;
		for(size_t i = 0; i < r.a.r; ++i) r.a(i, j) *= mk<T>(std::ldexp(1.0, e));
		for(size_t i = 0; i < r.inv.c; ++i) r.inv(j, i) *= std::ldexp((ld)1, -e);
	}
	return true;
}
// Powers of two per row and column; exponents from 0 to lim, so that no diagonal gets smaller
template<class T> bool graded(Src& s, Grid<T>& a, int lim)
{
	if(!s.chance(1, 5)) return false;
	std::vector<int> f(a.c);
	for(int& t : f) t = (int)s.raw(lim + 1);
	for(size_t i = 0; i < a.r; ++i) {
		const int e = (int)s.raw(lim + 1);
		for(size_t j = 0; j < a.c; ++j) a(i, j) = sh(a(i, j), e + f[j]);
	}
	return true;
}
template<class T> int gradeLimit() { return eps<T>() > 1e-10 ? 18 : 150; }
// Scales lower and upper triangular factors, and the right hand side of their system, by powers of two:
// all intermediate results are scaled alike and the diagonals do not get smaller
template<class T> bool gradeFactors(Src& s, Grid<T>& L, Grid<T>& U, bool unit)
{
	if(!s.chance(1, 5)) return false;
	const int lim = gradeLimit<T>();
	const size_t n = L.r;
	std::vector<int> d1(n), d2(n), d3(n);
	for(size_t i = 0; i < n; ++i) {
		d2[i] = (int)s.num(lim);
		d1[i] = -d2[i] + (unit ? 0 : (int)s.raw(lim + 1));
		d3[i] = d2[i] + (int)s.raw(lim + 1);
	}
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		L(i, j) = sh(L(i, j), d1[i] + d2[j]);
		U(i, j) = sh(U(i, j), d3[j] - d2[i]);
	}
	return true;
}
} // namespace h
