// C08: P A = L U with partial pivoting
#include "../linalg.h"
#include "LU.h"
using namespace h;

namespace {
// |det| of a matrix which is singular up to the rounding errors of LU
template<class T> double detTol(const Grid<T>& a)
{
	const size_t n = a.r;
	double sum = 0, m = std::max(1.0, maxabs(a));
	for(size_t i = 0; i < n; ++i) {
		double p = 1;
		for(size_t k = 0; k < n; ++k) {
			if(k == i) continue;
			double q = 0;
			for(size_t j = 0; j < n; ++j) q += mag(a(k, j)) * mag(a(k, j));
			p *= std::sqrt(q);
		}
		sum += p;
	}
	return 32.0 * n * n * eps<T>() * sum * std::sqrt((double)n) * m;
}

template<class T> void factors(const Grid<T>& a, const Grid<T>& L, const Grid<T>& U, const Grid<T>& P, const size_t* pivots)
{
	const size_t n = a.r;
	const double e = eps<T>();
	REQ(L.r == n && L.c == n && U.r == n && U.c == n && P.r == n && P.c == n, "wrong size of the factors of " << a);
	std::vector<size_t> row(n, n);
	std::vector<int> used(n, 0);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		const T p = P(i, j);
		REQ(p == mk<T>(0) || p == mk<T>(1), "P has the entry " << p << " for A = " << a << ", P = " << P);
		if(p == mk<T>(1)) {
			REQ(row[i] == n && !used[j], "P is no permutation: " << P << " for A = " << a);
			row[i] = j; used[j] = 1;
		}
	}
	for(size_t i = 0; i < n; ++i) REQ(row[i] < n, "P is no permutation: " << P << " for A = " << a);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		if(i == j) REQ(mag(L(i, i) - mk<T>(1)) <= 4 * e, "L(" << i << "," << i << ") is " << L(i, i) << " for A = " << a << ", L = " << L);
		else if(i < j) REQ(L(i, j) == mk<T>(0), "L is not lower triangular: " << L << " for A = " << a);
		else {
			REQ(mag(L(i, j)) <= 1 + 16 * e, "L(" << i << "," << j << ") = " << L(i, j) << " exceeds 1 for A = " << a << ", L = " << L);
			REQ(mag(U(i, j)) <= 64 * e * mag(U(j, j)), "U is not upper triangular: " << U << " for A = " << a);
		}
	}
	const Grid<cl> wl = wide(L);
	Grid<cl> wu = wide(U);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) wu(i, j) = 0;// Rounding residue
	const Grid<cl> lu = mul(wl, wu);
	const Grid<double> b = mul(absg(wl), absg(wu));
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j)
		REQ((double)std::abs(lu(i, j) - wide(a(row[i], j))) <= 16 * (n + 2) * e * b(i, j),
			"(LU)(" << i << "," << j << ") = " << lu(i, j) << ", but (PA) is " << a(row[i], j) << " for A = " << a << ", L = " << L << ", U = " << U << ", P = " << P);
	if(pivots) {
		size_t inv = 0;
		for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) inv += row[i] > row[j];
		REQ(*pivots % 2 == inv % 2, "pivot count " << *pivots << " has not the parity of the permutation " << P << " for A = " << a);
	}
}

template<class M> M dirty(Src& s, size_t n)
{
	typedef typename M::value_type T;
	Grid<T> g(n, n);
	if(s.coin()) g = genGrid<T>(s, n, n, 4);
	return Make<M>::of(s, g);
}

template<class M> void decompose(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	Reg<T> r = regular<T>(s, n);
	c.label(r.kind);
	const bool rows = graded(s, r.a, eps<T>() > 1e-10 ? 40 : 400);
	if(!rows) c.label(enlarge(s, r, eps<T>() > 1e-10 ? 100 : 900, true), "large magnitudes");
	c.label(rows, "rows and columns scaled");// May get numerically singular
	NOTE(Make<M>::n() << " A = " << r.a);
	const M A = Make<M>::of(s, r.a);
	M L = dirty<M>(s, n), U = dirty<M>(s, n), P = dirty<M>(s, n);
	const bool count = !s.chance(1, 8);
	size_t pivots = 77;
	try {
		if(count) NS::LU::serial::doolittle(A, L, U, P, &pivots);
		else NS::LU::serial::doolittle(A, L, U, P);
	}
	catch(const NS::SingularException&) {
		if(!rows) throw;
		throw pbt::Discard();
	}
	REQ(grid(A) == r.a, "the input matrix was changed");
	const Grid<T> gp = grid(P);
	factors(r.a, grid(L), grid(U), gp, count ? &pivots : NULL);
	bool moved = false;
	for(size_t i = 0; i < n; ++i) moved = moved || gp(i, i) != mk<T>(1);
	c.label(moved, "with exchanges");
	c.nontrivial(n > 1 && moved);
}

template<class M> void singular(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	Grid<T> a = genGrid<T>(s, n, n, 2);
	switch(s.raw(4)) {
	case 0: { const size_t j = s.raw(n); for(size_t i = 0; i < n; ++i) a(i, j) = mk<T>(0); c.label("zero column"); break; }
	case 1: { const size_t i = s.raw(n); for(size_t j = 0; j < n; ++j) a(i, j) = mk<T>(0); c.label("zero row"); break; }
	case 2: {
		std::vector<double> x(n), y(n);
		for(double& t : x) t = std::ldexp(s.coin() ? -1 : 1, (int)s.raw(4));
		for(double& t : y) t = std::ldexp(s.coin() ? -1 : 1, (int)s.raw(4));
		for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) a(i, j) = mk<T>(x[i] * y[j]);
		if(n == 1) a(0, 0) = mk<T>(0);
		c.label("rank one");
		break;
	}
	default: {
		if(n == 1) a(0, 0) = mk<T>(0);
		else {
			const size_t i = s.raw(n), k = (i + 1 + s.raw(n - 1)) % n;
			const T f = mk<T>((double)s.num(3));
			for(size_t j = 0; j < n; ++j) a(i, j) = a(k, j) * f;
		}
		c.label("dependent rows");
	}
	}
	NOTE(Make<M>::n() << " A = " << a);
	const M A = Make<M>::of(s, a);
	M L = dirty<M>(s, n), U = dirty<M>(s, n), P = dirty<M>(s, n);
	size_t pivots = 77;
	bool refused = false;
	try { NS::LU::serial::doolittle(A, L, U, P, &pivots); }
	catch(const NS::SingularException&) { refused = true; }
	c.label(refused, "refused");
	if(!refused) {
		const Grid<T> u = grid(U);
		factors(a, grid(L), u, grid(P), &pivots);
		cl d = 1;
		for(size_t i = 0; i < n; ++i) d *= wide(u(i, i));
		REQ((double)std::abs(d) <= detTol(a), "singular matrix " << a << " was factorised with the regular U = " << u);
	}
	c.nontrivial(n > 1);
}

template<class M> void law(Ctx& c)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const unsigned w = (unsigned)s.raw(8);
	if(w < 6) return decompose<M>(c, dim(s, 1, 7, 24));
	if(w == 6) return singular<M>(c, dim(s, 1, 6, 16));
	c.label("wrong shapes");
	const size_t r = s.size(1, 5), k = (r + s.size(0, 3)) % 5 + 1;
	if(r != k) {
		const M A = Make<M>::of(s, genGrid<T>(s, r, k, 2));
		M L = Make<M>::zero(r, k), U = Make<M>::zero(r, k), P = Make<M>::zero(r, k);
		size_t p;
		THROWS(NS::NotSquareException, "LU of a " << r << "x" << k << " matrix", NS::LU::serial::doolittle(A, L, U, P, &p));
	}
	c.nontrivial(r != k);
}
template<class T> void large(Ctx& c)
{
	if(c.s.coin()) decompose<NS::DenseMatrix<T> >(c, c.s.size(40, c.s.chance(1, 12) ? 280 : 150)); else decompose<NS::SparseMatrix<T> >(c, c.s.size(40, 110));
}
template<class T> void outputs(Ctx& c)
{
	Src& s = c.s;
	typedef NS::DenseMatrix<T> M;
	const size_t n = s.size(1, 5);
	const Reg<T> r = regular<T>(s, n);
	const M A = Make<M>::of(s, r.a);
	const size_t a = s.size(1, 5), b = s.size(1, 5);
	const bool bad = a != n || b != n;
	NOTE("output matrix " << a << "x" << b << " for a " << n << "x" << n << " matrix");
	M L(n, n), U(n, n), P(n, n), X(a, b);
	const bool first = s.coin();
	M& l = first ? X : L;
	M& p = first ? P : X;
	if(bad) THROWS(NS::InvalidOutputMatrixException, "output matrix " << a << "x" << b << " for a " << n << "x" << n << " matrix", NS::LU::serial::doolittle(A, l, U, p));
	else { NS::LU::serial::doolittle(A, l, U, p); factors<T>(r.a, grid(l), grid(U), grid(p), NULL); }
	c.nontrivial(bad);
}
template<class T> void fixed(Ctx& c)
{
	const bool sing = c.s.raw(8) == 7;
	switch(c.s.raw(7)) {
	case 5: return sing ? singular<NS::FixedMatrix<T, 7, 7> >(c, 7) : decompose<NS::FixedMatrix<T, 7, 7> >(c, 7);
	case 6: return sing ? singular<NS::FixedMatrix<T, 12, 12> >(c, 12) : decompose<NS::FixedMatrix<T, 12, 12> >(c, 12);
	case 0: return sing ? singular<NS::FixedMatrix<T, 2, 2> >(c, 2) : decompose<NS::FixedMatrix<T, 2, 2> >(c, 2);
	case 1: return sing ? singular<NS::FixedMatrix<T, 3, 3> >(c, 3) : decompose<NS::FixedMatrix<T, 3, 3> >(c, 3);
	case 2: return sing ? singular<NS::FixedMatrix<T, 5, 5> >(c, 5) : decompose<NS::FixedMatrix<T, 5, 5> >(c, 5);
	case 3: return sing ? singular<NS::FixedMatrix<T, 1, 1> >(c, 1) : decompose<NS::FixedMatrix<T, 1, 1> >(c, 1);
	default: {
		NS::FixedMatrix<T, 2, 3> a, l, u, p;
		for(size_t i = 0; i < 6; ++i) a.linear_set(i, val<T>(c.s));
		THROWS(NS::NotSquareException, "LU of a 2x3 matrix", NS::LU::serial::doolittle(a, l, u, p));
	}
	}
}
}
