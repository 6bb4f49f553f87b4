// C09: linear systems and inverses by LU
#include "../linalg.h"
#include "LU.h"
#include "matrix/MatrixOperations.h"
using namespace h;

namespace {
template<class T> std::vector<T> genVec(Src& s, size_t n, unsigned zeros = 2)
{
	std::vector<T> v(n);
	for(T& t : v) t = sval<T>(s, zeros);
	return v;
}
template<class V> struct MakeV;
template<class T> struct MakeV<NS::DynamicVector<T> > { static NS::DynamicVector<T> of(const std::vector<T>& v) { return dyn(v); } };
template<class T, NS::Dimension K> struct MakeV<NS::FixedVector<T, K> > {
	static NS::FixedVector<T, K> of(const std::vector<T>& v) { NS::FixedVector<T, K> r; for(size_t i = 0; i < K; ++i) r.set(i, v[i]); return r; }
};

// Triangular factor; the diagonal is kept away from zero
template<class T> Grid<T> triangle(Src& s, size_t n, bool upper, bool unit, unsigned zeros)
{
	if(n > 44 && s.recorded()) { Src b = s.bulk(); return triangle<T>(b, n, upper, unit, std::max(zeros, 8u)); }
	Grid<T> g(n, n);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		if(i == j) g(i, j) = unit ? mk<T>(1) : nonzero<T>(s);
		else if(n > 8 && (j > i) == upper) g(i, j) = s.chance(10 - zeros, 10) ? mk<T>((double)s.num(2) / 16, Real<T>::cplx ? (double)s.num(2) / 16 : 0) : mk<T>(0);// Keeps the inverse in range
		else if((j > i) == upper) g(i, j) = s.chance(10 - zeros, 10) ? mk<T>((double)s.num(8) / 2, Real<T>::cplx ? (double)s.num(4) / 2 : 0) : mk<T>(0);
	}
	return g;
}
// Forward and backward substitution are backward stable: |b - L U x| <= c n eps |L||U||x|
template<class T> void residual(const Grid<T>& L, const Grid<T>& U, const std::vector<T>& x, const std::vector<T>& b, const std::string& what)
{
	const size_t n = L.r;
	REQ(x.size() == n, what << ": solution has size " << x.size() << " for a system of " << n);
	const Grid<cl> wl = wide(L), wu = wide(U);
	const std::vector<cl> wx = wide(x);
	const std::vector<cl> r = mulv(wl, mulv(wu, wx));
	std::vector<double> ax(n);
	for(size_t i = 0; i < n; ++i) ax[i] = (double)std::abs(wx[i]);
	const std::vector<double> t = mulv(absg(wl), mulv(absg(wu), ax));
	for(size_t i = 0; i < n; ++i)
		REQ((double)std::abs(r[i] - wide(b[i])) <= 32 * (n + 2) * eps<T>() * t[i], what << ": component " << i << " of L U x is " << r[i] << " instead of " << b[i] << " for L = " << L << ", U = " << U << ", b = " << vs(b) << ", x = " << vs(x));
}
template<class M, class V> void substitution(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const unsigned z = (unsigned)s.raw(9);
	const bool unit = s.chance(2, 3);
	Grid<T> L = triangle<T>(s, n, false, unit, z), U = triangle<T>(s, n, true, false, z);
	std::vector<T> b = genVec<T>(s, n);
	c.label(gradeFactors(s, L, U, unit), "rows and columns scaled");
	NOTE(Make<M>::n() << " L = " << L << ", U = " << U << ", b = " << vs(b));
	const M l = Make<M>::of(s, L), u = Make<M>::of(s, U);
	const V vb = MakeV<V>::of(b);
	const V x = NS::LU::serial::solve_lu(l, u, vb);
	residual(L, U, vec(x), b, "solve_lu");
	REQ(vec(vb) == b && grid(l) == L && grid(u) == U, "solve_lu changed its arguments");
	c.nontrivial(n > 1 && norm2(b) > 0);
}
// Error bound: |x' - x| <= c n eps |A^-1| |L||U| |x'|; norms only
template<class T> double growth(const Reg<T>& r, const Grid<T>& L, const Grid<T>& U)
{
	const size_t n = r.a.r;
	const double lu = std::min(frob(mul(absg(wide(L)), absg(wide(U)))), frob(r.a) * n * std::ldexp(1.0, (int)n));
	return 64.0 * (n + 2) * eps<T>() * frob(r.inv) * lu;
}
template<class M, class V> void solve(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	Reg<T> r = regular<T>(s, n);
	c.label(enlarge(s, r, eps<T>() > 1e-10 ? 40 : 200, false), "large magnitudes");
	const std::vector<T> x = genVec<T>(s, n);
	const std::vector<cl> wb = mulv(wide(r.a), wide(x));
	std::vector<T> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = mk<T>((double)wb[i].real(), (double)wb[i].imag());// Exact
	NOTE(Make<M>::n() << " A = " << r.a << ", x = " << vs(x));
	c.label(r.kind);
	const M A = Make<M>::of(s, r.a);
	M L = A, U = A, P = A;
	NS::LU::serial::doolittle(A, L, U, P);
	const V pb = P.mul(MakeV<V>::of(b));
	const V y = NS::LU::serial::solve_lu(L, U, pb);
	const std::vector<T> vy = vec(y);
	const double tol = growth(r, grid(L), grid(U)) * (norm2(x) + norm2(vy));
	REQ(vy.size() == n, "wrong size of the solution");
	for(size_t i = 0; i < n; ++i)
		REQ(mag(vy[i] - x[i]) <= tol, "solution " << vs(vy) << " instead of " << vs(x) << " for A = " << r.a << ", b = " << vs(b));
	c.nontrivial(n > 1 && norm2(x) > 0);
}
template<class T> void nearInverse(const Grid<T>& got, const Grid<cl>& want, double tol, const std::string& what)
{
	REQ(got.r == want.r && got.c == want.c, what << ": wrong size");
	for(size_t i = 0; i < want.r; ++i) for(size_t j = 0; j < want.c; ++j)
		REQ((double)std::abs(wide(got(i, j)) - want(i, j)) <= tol, what << ": cell (" << i << "," << j << ") of " << got << " is not " << want(i, j));
}
template<class M> void inverses(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	Reg<T> r = regular<T>(s, n);
	c.label(enlarge(s, r, eps<T>() > 1e-10 ? 40 : 200, false), "large magnitudes");
	NOTE(Make<M>::n() << " A = " << r.a);
	c.label(r.kind);
	const M A = Make<M>::of(s, r.a);
	M L = A, U = A, P = A;
	NS::LU::serial::doolittle(A, L, U, P);
	const double tol = growth(r, grid(L), grid(U)) * frob(r.inv);
	const M inv = NS::Operations::inverse(A);
	REQ(grid(A) == r.a, "inverse changed its argument");
	std::ostringstream o; o << "inverse of " << r.a;
	nearInverse(grid(inv), r.inv, tol, o.str());
	const M inv2 = NS::Operations::inverse(L, U, P);
	nearInverse(grid(inv2), r.inv, tol, "from the LU factors, " + o.str());
	c.nontrivial(n > 1);
}
// inverse(L,U) from factors without permutation; L is unit lower triangular
template<class M> void fromFactors(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const unsigned z = (unsigned)s.raw(9);
	Grid<T> L = triangle<T>(s, n, false, true, z), U = triangle<T>(s, n, true, false, z);
	c.label(gradeFactors(s, L, U, true), "rows and columns scaled");
	NOTE(Make<M>::n() << " L = " << L << ", U = " << U);
	const M l = Make<M>::of(s, L), u = Make<M>::of(s, U);
	const M inv = NS::Operations::inverse(l, u);
	const Grid<T> g = grid(inv);
	REQ(g.r == n && g.c == n, "wrong size");
	std::vector<T> e(n, mk<T>(0)), x(n);
	for(size_t j = 0; j < n; ++j) {
		e[j] = mk<T>(1);
		for(size_t i = 0; i < n; ++i) x[i] = g(i, j);
		residual(L, U, x, e, "column of the inverse from L and U");
		e[j] = mk<T>(0);
	}
	c.nontrivial(n > 1 && !(L == ident<T>(n)));
}
template<class M> void refused(Ctx& c)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const size_t n = s.size(1, 5), m = (n + s.raw(4)) % 5 + 1;// != n
	const bool zl = s.coin();
	const size_t k = s.raw(n);
	Grid<T> gl = triangle<T>(s, n, false, true, 3), gu = triangle<T>(s, n, true, false, 3);
	const Grid<T> rect = genGrid<T>(s, n, m, 2);
	const M L = Make<M>::of(s, gl), U = Make<M>::of(s, gu), R = Make<M>::of(s, rect), Um = Make<M>::of(s, triangle<T>(s, m, true, false, 3)), Lm = Make<M>::of(s, triangle<T>(s, m, false, true, 3));
	const NS::DynamicVector<T> b = dyn(genVec<T>(s, n)), bm = dyn(genVec<T>(s, m));
	NOTE(Make<M>::n() << " L = " << gl << ", U = " << gu << ", other size " << m << ", rectangular " << rect);
	if(n != m) {
		using namespace NS;
		THROWS(NotSquareException, "inverse of a rectangular matrix", Operations::inverse(R));
		THROWS(NotSquareException, "solve_lu with rectangular L", LU::serial::solve_lu(R, U, b));
		THROWS(NotSquareException, "solve_lu with rectangular U", LU::serial::solve_lu(L, R, b));
		THROWS(MatrixSizeMismatchException, "solve_lu with different sizes", LU::serial::solve_lu(L, Um, b));
		THROWS(MatrixVectorMismatchException, "solve_lu with a vector of the wrong size", LU::serial::solve_lu(L, U, bm));
		THROWS(NotSquareException, "inverse(L,U) with rectangular L", Operations::inverse(R, U));
		THROWS(NotSquareException, "inverse(L,U) with rectangular U", Operations::inverse(L, R));
		THROWS(MatrixSizeMismatchException, "inverse(L,U) with different sizes", Operations::inverse(Lm, U));
		THROWS(NotSquareException, "inverse(L,U,P) with rectangular P", Operations::inverse(L, U, R));
		THROWS(MatrixSizeMismatchException, "inverse(L,U,P) with P of another size", Operations::inverse(L, U, Lm));
		THROWS(MatrixSizeMismatchException, "inverse(L,U,P) with U of another size", Operations::inverse(L, Um, Make<M>::plain(ident<T>(n))));
	}
	// A zero on the diagonal
	(zl ? gl : gu)(k, k) = mk<T>(0);
	const M L0 = Make<M>::of(s, gl), U0 = Make<M>::of(s, gu);
	THROWS(NS::SingularException, "solve_lu with a zero on the diagonal of " << (zl ? gl : gu), NS::LU::serial::solve_lu(L0, U0, b));
	if(!zl) THROWS(NS::SingularException, "inverse(L,U) with a zero on the diagonal of " << gu, NS::Operations::inverse(L0, U0));
	THROWS(NS::SingularException, "inverse(L,U,P) with a zero on the diagonal", NS::Operations::inverse(L0, U0, Make<M>::plain(ident<T>(n))));
	// Exactly singular matrix
	Grid<T> a = genGrid<T>(s, n, n, 2);
	const bool row = s.coin();
	for(size_t i = 0; i < n; ++i) (row ? a(k, i) : a(i, k)) = mk<T>(0);
	NOTE("singular " << a);
	const M A0 = Make<M>::of(s, a);
	THROWS(NS::SingularException, "inverse of the singular matrix " << a, NS::Operations::inverse(A0));
	c.nontrivial(n > 1);
}
template<class M> void law(Ctx& c)
{
	Src& s = c.s;
	typedef NS::DynamicVector<typename M::value_type> V;
	switch(s.raw(8)) {
	case 0: case 1: c.label("substitution"); return substitution<M, V>(c, dim(s, 1, 8, 30));
	case 2: case 3: c.label("solve"); return solve<M, V>(c, dim(s, 1, 7, 20));
	case 4: case 5: c.label("inverse"); return inverses<M>(c, dim(s, 1, 6, 16));
	case 6: c.label("inverse from factors"); return fromFactors<M>(c, dim(s, 1, 7, 16));
	default: c.label("refusals"); return refused<M>(c);
	}
}
template<class M> void largeIn(Ctx& c, size_t hi)
{
	Src& s = c.s;
	typedef NS::DynamicVector<typename M::value_type> V;
	const unsigned k = (unsigned)s.raw(4);
	const size_t n = s.size(30, k < 2 ? hi : hi / 2);
	switch(k) {
	case 0: c.label("large substitution"); return substitution<M, V>(c, n);
	case 1: c.label("large solve"); return solve<M, V>(c, n);
	case 2: c.label("large inverse"); return inverses<M>(c, n);
	default: c.label("large inverse from factors"); return fromFactors<M>(c, n);
	}
}
template<class T> void large(Ctx& c) { if(c.s.coin()) largeIn<NS::DenseMatrix<T> >(c, 150); else largeIn<NS::SparseMatrix<T> >(c, 120); }
template<class T, NS::Dimension K> void fixedK(Ctx& c)
{
	if(c.s.coin()) solve<NS::FixedMatrix<T, K, K>, NS::FixedVector<T, K> >(c, K);
	else substitution<NS::FixedMatrix<T, K, K>, NS::FixedVector<T, K> >(c, K);
}
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(5)) {
	case 4: return fixedK<T, 8>(c);
	case 0: return fixedK<T, 2>(c);
	case 1: return fixedK<T, 3>(c);
	case 2: return fixedK<T, 5>(c);
	default: return fixedK<T, 1>(c);
	}
}
}
