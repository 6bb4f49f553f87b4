// C11: Cholesky factor of hermitian positive definite matrices
#include "../linalg.h"
#include "LU.h"
using namespace h;

namespace {
template<class T> Grid<T> lower(Src& s, size_t n, bool tame)
{
	if(n > 44 && s.recorded()) { Src b = s.bulk(); return lower<T>(b, n, tame); }
	const bool far = n > 40;
	Grid<T> g(n, n);
	const unsigned z = far ? 8 : (unsigned)s.raw(10);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) {
		if(far && i != j) g(i, j) = s.chance(10 - z, 10) ? mk<T>((double)s.num(2) / 16, Real<T>::cplx ? (double)s.num(2) / 16 : 0) : mk<T>(0);// Keeps the inverse in range
		else if(i == j) g(i, i) = mk<T>(tame ? (double)(1 + s.raw(3)) : 0.5 * (double)(1 + s.raw(10)));
		else if(s.chance(10 - z, 10)) g(i, j) = mk<T>((double)s.num(tame ? 1 : 6) / 2, Real<T>::cplx ? (double)s.num(tame ? 1 : 6) / 2 : 0);
	}
	return g;
}
template<class M> M dirty(Src& s, size_t n)
{
	typedef typename M::value_type T;
	Grid<T> g(n, n);
	if(s.coin()) g = genGrid<T>(s, n, n, 4);
	return Make<M>::of(s, g);
}
// Powers of two for the rows of the factor, so that the exact algorithm commutes with the scaling
template<class T> void scaleRows(Ctx& c, Grid<T>& l)
{
	Src& s = c.s;
	if(!s.chance(1, 3)) return;
	const int lim = eps<T>() > 1e-10 ? 12 : 100;
	const bool each = s.coin();
	int e = (int)s.num(lim);
	for(size_t i = 0; i < l.r; ++i) {
		if(each) e = (int)s.num(lim);
		for(size_t j = 0; j < l.c; ++j) l(i, j) = sh(l(i, j), e);
	}
	c.label(each ? "rows scaled" : "scaled");
}
template<class M> void decompose(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	Grid<T> l0 = lower<T>(s, n, false);
	Grid<cl> inv;
	const double limit = std::sqrt(eps<T>() > 1e-10 ? 1e3 : 1e8) * (n > 40 ? (double)n / 5 : 1);// Of the factor
	if(!refInverse(wide(l0), inv) || frob(l0) * frob(inv) > limit) {
		l0 = lower<T>(s, n, true);
		if(!refInverse(wide(l0), inv) || frob(l0) * frob(inv) > 3 * limit) throw pbt::Discard();
	}
	scaleRows(c, l0);
	const Grid<T> a = mul(l0, transp(conjg(l0)));// Exact
	NOTE(Make<M>::n() << " A = " << a << " from " << l0);
	const M A = Make<M>::of(s, a);
	M L = dirty<M>(s, n);
	NS::LU::serial::cholesky(A, L);
	REQ(grid(A) == a, "cholesky changed its argument");
	const Grid<T> l = grid(L);
	REQ(l.r == n && l.c == n, "wrong size of the factor");
	for(size_t i = 0; i < n; ++i) {
		REQ(re(l(i, i)) > 0 && im(l(i, i)) == 0, "diagonal entry " << l(i, i) << " of the factor " << l << " of " << a << " is not positive");
		for(size_t j = i + 1; j < n; ++j) REQ(l(i, j) == mk<T>(0), "factor " << l << " of " << a << " is not lower triangular");
	}
	const Grid<cl> w = wide(l);
	const Grid<cl> p = mul(w, transp(conjg(w)));
	const Grid<double> b = mul(absg(w), transp(absg(w)));
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j)
		REQ((double)std::abs(p(i, j) - wide(a(i, j))) <= 16 * (n + 2) * eps<T>() * b(i, j), "(L L*)(" << i << "," << j << ") is " << p(i, j) << " for L = " << l << ", A = " << a);
	bool off = false;
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) off = off || l0(i, j) != mk<T>(0);
	c.label(off, "with off-diagonal entries");
	c.nontrivial(n > 1 && off);
}
template<class M> void indefinite(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	Grid<T> l0 = lower<T>(s, n, true);
	for(size_t i = 0; i < n; ++i) l0(i, i) = mk<T>(1);
	Grid<T> d = ident<T>(n);
	const size_t k = s.raw(n);
	const bool diag = s.coin();
	if(!diag) for(size_t i = 0; i < n; ++i) d(i, i) = mk<T>(i == k || s.raw(4) == 3 ? -1 : 1);
	Grid<cl> inv;
	if(!refInverse(wide(l0), inv) || frob(l0) * frob(inv) > 30) throw pbt::Discard();
	scaleRows(c, l0);
	Grid<T> a = mul(mul(l0, d), transp(conjg(l0)));
	if(diag) a(k, k) = mk<T>(-(double)s.raw(3));// Zero or negative diagonal entry
	NOTE(Make<M>::n() << " " << a);
	const M A = Make<M>::of(s, a);
	M L = dirty<M>(s, n);
	THROWS(NS::NotPositiveDefiniteException, "cholesky of the indefinite matrix " << a, NS::LU::serial::cholesky(A, L));
	c.nontrivial();
}
template<class M> void shapes(Ctx& c)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const size_t r = s.size(1, 5), k = (r + s.size(0, 3)) % 5 + 1, n = s.size(1, 5), m = s.size(1, 5), q = s.size(1, 5);
	NOTE(r << "x" << k << ", " << q << "x" << q << " into " << n << "x" << m);
	if(r != k) {
		const M A = Make<M>::of(s, genGrid<T>(s, r, k, 2));
		M L = Make<M>::zero(r, k);
		THROWS(NS::NotSquareException, "cholesky of a " << r << "x" << k << " matrix", NS::LU::serial::cholesky(A, L));
		c.nontrivial();
	}
	if(n != q || m != q) {
		const M A = Make<M>::plain(ident<T>(q));
		M L = Make<M>::zero(n, m);
		THROWS(NS::InvalidOutputMatrixException, "cholesky of a " << q << "x" << q << " matrix into a " << n << "x" << m << " matrix", NS::LU::serial::cholesky(A, L));
		c.nontrivial();
	}
}
template<class M> void law(Ctx& c)
{
	Src& s = c.s;
	switch(s.raw(8)) {
	case 6: c.label("indefinite"); return indefinite<M>(c, dim(s, 1, 6, 12));
	case 7: c.label("shapes"); return shapes<M>(c);
	default: return decompose<M>(c, dim(s, 1, 8, 24));
	}
}
template<class T> void large(Ctx& c)
{
	if(c.s.coin()) decompose<NS::DenseMatrix<T> >(c, c.s.size(41, 150)); else decompose<NS::SparseMatrix<T> >(c, c.s.size(41, 110));
}
template<class T, NS::Dimension K> void fixedK(Ctx& c)
{
	if(c.s.raw(6) == 5) indefinite<NS::FixedMatrix<T, K, K> >(c, K);
	else decompose<NS::FixedMatrix<T, K, K> >(c, K);
}
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(5)) {
	case 4: return fixedK<T, 8>(c);
	case 0: return fixedK<T, 2>(c);
	case 1: return fixedK<T, 3>(c);
	case 2: return fixedK<T, 5>(c);
	default: return fixedK<T, 1>(c);
	}
}
}
