// C12: incomplete LU without fill-in and the inverse of triangular factors
#include "../linalg.h"
#include "LU.h"
using namespace h;

namespace {
template<class T> void factors(const Grid<T>& a, const Grid<T>& L, const Grid<T>& U)
{
	const size_t n = a.r;
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		if(i == j) REQ(L(i, i) == mk<T>(1), "L(" << i << "," << i << ") is " << L(i, i) << " for A = " << a);
		if(j > i) REQ(L(i, j) == mk<T>(0), "L is not lower triangular: " << L << " for A = " << a);
		if(j < i) REQ(U(i, j) == mk<T>(0), "U is not upper triangular: " << U << " for A = " << a);
		if(a(i, j) == mk<T>(0)) REQ((i == j || L(i, j) == mk<T>(0)) && U(i, j) == mk<T>(0), "fill-in at (" << i << "," << j << "): L = " << L << ", U = " << U << " for A = " << a);
	}
	const Grid<cl> wl = wide(L), wu = wide(U);
	const Grid<cl> p = mul(wl, wu);
	const Grid<double> b = mul(absg(wl), absg(wu));
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j)
		if(a(i, j) != mk<T>(0))
			REQ((double)std::abs(p(i, j) - wide(a(i, j))) <= 16 * (n + 2) * eps<T>() * (b(i, j) + mag(a(i, j))), "(LU)(" << i << "," << j << ") is " << p(i, j) << " for A = " << a << ", L = " << L << ", U = " << U);
}
template<class T> void iluOf(Ctx& c, size_t lo, size_t hi)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	const size_t n = hi ? s.size(lo, hi) : s.raw(20) == 19 ? s.size(10, s.chance(1, 8) ? 70 : 25) : s.size(1, 9);
	const unsigned z = (unsigned)s.raw(11);
	Grid<T> a = dominant<T>(s, n, std::min(hi ? std::max(8u, z) : z, 9u));
	if(z == 10) { // Five point stencil
		const size_t w = s.size(1, hi ? 15 : 4), h = s.size(1, hi ? 15 : 4);
		a = Grid<T>(w * h, w * h);
		for(size_t i = 0; i < w * h; ++i) for(size_t j = 0; j < w * h; ++j) {
			const size_t dx = i % w > j % w ? i % w - j % w : j % w - i % w, dy = i / w > j / w ? i / w - j / w : j / w - i / w;
			if(i == j) a(i, j) = mk<T>(4);
			else if(dx + dy == 1) a(i, j) = mk<T>(-1);
		}
		c.label("stencil");
	}
	// A row without anything on or left of the diagonal is allowed as long as no row below needs it
	if(s.raw(5) == 4) {
		const size_t k = s.raw(a.r);
		a(k, k) = mk<T>(0);
		for(size_t j = 0; j < a.r; ++j) if(j > k) a(j, k) = mk<T>(0);
		c.label("absent diagonal entry");
	}
	if(const int e = scaleExp(s, 12)) { a = sh(a, e); c.label("scaled"); }
	else c.label(graded(s, a, gradeLimit<T>()), "rows and columns scaled");// Commutes with the factorisation
	NOTE(a);
	const M A = Make<M>::of(s, a);
	M L(a.r, a.r), U(a.r, a.r);
	NS::LU::serial::ilu0(A, L, U);
	REQ(grid(A) == a, "ilu0 changed its argument");
	factors(a, grid(L), grid(U));
	// Any dropped fill-in?
	const Grid<T> p = mul(grid(L), grid(U));
	bool drop = false, low = false;
	for(size_t i = 0; i < a.r; ++i) for(size_t j = 0; j < a.r; ++j) {
		drop = drop || (a(i, j) == mk<T>(0) && mag(p(i, j)) > 1e-3 * maxabs(a));
		low = low || (j < i && a(i, j) != mk<T>(0));
	}
	c.label(drop, "fill-in dropped");
	c.nontrivial(low);
}
template<class T> void ilu(Ctx& c) { iluOf<T>(c, 0, 0); }
template<class T> void large(Ctx& c) { iluOf<T>(c, 70, 220); }
template<class T> void iluRefused(Ctx& c)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	const size_t n = s.size(2, 7);
	if(s.coin()) {
		Grid<T> a = dominant<T>(s, n, 3);
		const size_t k = s.raw(n - 1), i = k + 1 + s.raw(n - 1 - k);
		for(size_t j = 0; j <= k; ++j) a(k, j) = mk<T>(0);
		if(k > 0 && s.coin()) { // Pivot vanishes by elimination
			const size_t t = s.raw(k);
			for(size_t j = 0; j < n; ++j) { a(t, j) = mk<T>(0); }
			a(t, t) = mk<T>(2); a(t, k) = mk<T>(4); a(k, t) = mk<T>(1); a(k, k) = mk<T>(2);
		}
		a(i, k) = mk<T>(1);
		NOTE(a);
		const M A = Make<M>::of(s, a);
		M L(n, n), U(n, n);
		THROWS(NS::SingularException, "ilu0 with zero pivot " << k << " of " << a, NS::LU::serial::ilu0(A, L, U));
	} else {
		const size_t m = n + 1 + s.raw(3);
		const bool t = s.coin();
		const Grid<T> g = genGrid<T>(s, t ? n : m, t ? m : n, 5);
		NOTE(g);
		const M A = Make<M>::of(s, g);
		M L(g.r, g.c), U(g.r, g.c);
		THROWS(NS::NotSquareException, "ilu0 of a rectangular matrix", NS::LU::serial::ilu0(A, L, U));
	}
	c.nontrivial();
}
template<class T> Grid<T> triangle(Src& s, size_t n, bool upper, unsigned zeros)
{
	if(n > 44 && s.recorded()) { Src b = s.bulk(); return triangle<T>(b, n, upper, std::max(zeros, 8u)); }
	Grid<T> g(n, n);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		if(i == j) g(i, j) = upper ? nonzero<T>(s) : mk<T>(1);
		else if(n > 8 && (j > i) == upper) g(i, j) = s.chance(10 - zeros, 10) ? mk<T>((double)s.num(2) / 16, Real<T>::cplx ? (double)s.num(2) / 16 : 0) : mk<T>(0);// Keeps the inverse in range
		else if((j > i) == upper && s.chance(10 - zeros, 10)) g(i, j) = mk<T>((double)s.num(8) / 2, Real<T>::cplx ? (double)s.num(4) / 2 : 0);
	}
	return g;
}
// |I - R X| <= c n eps |R||X| for the columns of the inverse of a triangular matrix
template<class T> void inverseOf(const Grid<T>& r, const Grid<T>& x, bool upper, const char* who)
{
	const size_t n = r.r;
	REQ(x.r == n && x.c == n, who << ": wrong size");
	const Grid<cl> p = mul(wide(r), wide(x));
	const Grid<double> b = mul(absg(wide(r)), absg(wide(x)));
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		REQ((double)std::abs(p(i, j) - cl(i == j ? 1 : 0)) <= 16 * (n + 2) * eps<T>() * b(i, j), who << ": product with " << r << " is not the identity at (" << i << "," << j << "): " << x);
		if(i != j && (j > i) != upper) REQ(x(i, j) == mk<T>(0), who << ": inverse " << x << " of the triangular matrix " << r << " is not triangular");
	}
}
template<class M> void ainvOf(Ctx& c, size_t large)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const size_t n = std::is_same<M, NS::FixedMatrix<T, 3, 3> >::value ? 3 : std::is_same<M, NS::FixedMatrix<T, 7, 7> >::value ? 7 : large ? s.size(40, large) : dim(s, 1, 8, 20);
	const unsigned z = (unsigned)s.raw(10);
	Grid<T> L = triangle<T>(s, n, false, z), U = triangle<T>(s, n, true, z);
	c.label(gradeFactors(s, L, U, true), "rows and columns scaled");
	NOTE(Make<M>::n() << " L = " << L << ", U = " << U);
	const M l = Make<M>::of(s, L), u = Make<M>::of(s, U);
	M il = Make<M>::zero(n, n), iu = Make<M>::zero(n, n);
	NS::LU::serial::ainv_lu(l, u, il, iu);
	REQ(grid(l) == L && grid(u) == U, "ainv_lu changed its arguments");
	inverseOf(L, grid(il), false, "inverse of L");
	inverseOf(U, grid(iu), true, "inverse of U");
	// A zero on the diagonal of U
	const size_t k = s.raw(n);
	U(k, k) = mk<T>(0);
	const M u0 = Make<M>::of(s, U);
	M jl = Make<M>::zero(n, n), ju = Make<M>::zero(n, n);
	THROWS(NS::SingularException, "ainv_lu with U = " << U, NS::LU::serial::ainv_lu(l, u0, jl, ju));
	bool off = false;
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) off = off || L(i, j) != mk<T>(0) || U(j, i) != mk<T>(0);
	c.nontrivial(off);
}
template<class M> void ainv(Ctx& c) { ainvOf<M>(c, 0); }
template<class T> void largeInv(Ctx& c) { if(c.s.coin()) ainvOf<NS::DenseMatrix<T> >(c, 110); else ainvOf<NS::SparseMatrix<T> >(c, 90); }
template<class M> void ainvRefused(Ctx& c)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const size_t n = s.size(1, 5), m = n + 1 + s.raw(3);
	const bool rect = s.coin(), t = s.coin();
	const unsigned which = (unsigned)s.raw(4);
	const M I = Make<M>::plain(ident<T>(n)), J = rect ? Make<M>::zero(t ? n : m, t ? m : n) : Make<M>::plain(ident<T>(m));
	NOTE(Make<M>::n() << " argument " << which << " is " << J.rows() << "x" << J.columns() << ", the others " << n << "x" << n);
	const M& l = which == 0 ? J : I;
	const M& u = which == 1 ? J : I;
	M il = which == 2 ? J : Make<M>::zero(n, n), iu = which == 3 ? J : Make<M>::zero(n, n);
	if(rect) THROWS(NS::NotSquareException, "ainv_lu with a rectangular argument " << which, NS::LU::serial::ainv_lu(l, u, il, iu));
	else THROWS(NS::MatrixSizeMismatchException, "ainv_lu with different sizes, argument " << which, NS::LU::serial::ainv_lu(l, u, il, iu));
	c.nontrivial();
}
// The preconditioner built from ilu0 of a matrix without fill-in (full pattern) is the inverse
template<class T> void complete(Ctx& c)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	const size_t n = s.size(1, 6);
	const Grid<T> a = dominant<T>(s, n, 0);
	Grid<T> f(a);// Full pattern
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(f(i, j) == mk<T>(0)) f(i, j) = mk<T>(0.25);
	for(size_t i = 0; i < n; ++i) f(i, i) *= mk<T>(2);
	NOTE(f);
	const M A = Make<M>::of(s, f);
	M L(n, n), U(n, n), il(n, n), iu(n, n);
	NS::LU::serial::ilu0(A, L, U);
	factors(f, grid(L), grid(U));
	NS::LU::serial::ainv_lu(L, U, il, iu);
	const Grid<cl> p = mul(wide(grid(iu)), mul(wide(grid(il)), wide(f)));
	Grid<cl> inv;
	if(!refInverse(wide(f), inv)) throw pbt::Discard();
	const double tol = 200 * (n + 2) * eps<T>() * frob(inv) * frob(f) * frob(mul(absg(wide(grid(iu))), absg(wide(grid(il))))) * frob(f);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j)
		REQ((double)std::abs(p(i, j) - cl(i == j ? 1 : 0)) <= tol, "inverse from the complete factorisation of " << f << " is wrong");
	c.nontrivial(n > 1);
}
}
