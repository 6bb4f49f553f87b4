#include "c28.h"
#include "../linalg.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "Iterative.h"
#include "CG.h"
#include "LU.h"

namespace {
using namespace NS;
template<class T> DynamicVector<T> rhs(Src& s, size_t n) { std::vector<T> v(n); for(T& t : v) t = val<T>(s); return dyn(v); }
template<class T> Grid<T> definite(Src& s, size_t n)
{
	Grid<T> l(n, n);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) l(i, j) = i == j ? mk<T>(1 + (double)s.raw(3)) : s.coin() ? mk<T>(0) : mk<T>((double)s.num(2) / 2, Real<T>::cplx ? (double)s.num(2) / 2 : 0);
	return mul(l, conjg(transp(l)));
}
template<class M> void lu(Src& s, Out& o)
{
	typedef typename M::value_type T;
	const size_t n = s.size(1, 8);
	const M a = Make<M>::of(s, regular<T>(s, n).a);
	M L(Make<M>::zero(n, n)), U(Make<M>::zero(n, n)), P(Make<M>::zero(n, n));
	size_t pivots = 0;
	LU::serial::doolittle(a, L, U, P, &pivots);
	o.m(L); o.m(U); o.m(P); o.n(pivots);
	o.v(LU::serial::solve_lu(L, U, rhs<T>(s, n)));
	o.m(Operations::inverse(a)); o.x(Operations::determinant(a));
}
template<class T> void fixedLu(Src& s, Out& o)
{
	typedef FixedMatrix<T, 4, 4> F;
	const F a = Make<F>::of(s, regular<T>(s, 4).a);
	F L, U, P;
	LU::serial::doolittle(a, L, U, P);
	o.m(L); o.m(U); o.m(P);
	o.x(Operations::determinant(a));
}
template<class M> void cholesky(Src& s, Out& o)
{
	typedef typename M::value_type T;
	const size_t n = s.size(1, 8);
	const M a = Make<M>::of(s, definite<T>(s, n));
	M L(Make<M>::zero(n, n));
	LU::serial::cholesky(a, L);
	o.m(L);
}
template<class T> void incomplete(Src& s, Out& o)
{
	typedef SparseMatrix<T> M;
	const size_t n = s.size(1, 10);
	const M a = Make<M>::of(s, dominant<T>(s, n, (unsigned)s.raw(10)));
	M L(n, n), U(n, n), il(n, n), iu(n, n);
	LU::serial::ilu0(a, L, U);
	o.m(L); o.m(U);
	LU::serial::ainv_lu(L, U, il, iu);
	o.m(il); o.m(iu);
}
// Weights and bounds of these are real
template<class M, class V> typename std::enable_if<!Real<typename M::value_type>::cplx>::type over(const M& a, const V& b, const V& x, double w, size_t most, Out& o)
{
	size_t it = 0;
	o.v(Iterative::serial::sor(a, b, x, w, most, 1e-5, &it)); o.n(it);
}
template<class M, class V> typename std::enable_if<Real<typename M::value_type>::cplx>::type over(const M&, const V&, const V&, double, size_t, Out&) {}
template<class M, class V> typename std::enable_if<!Real<typename M::value_type>::cplx>::type descend(const M& a, const V& b, const M& c, const V& x, size_t most, Out& o)
{
	size_t it = 0;
	o.v(CG::serial::cg(a, b, x, most, 1e-5, &it)); o.n(it);
	o.v(CG::serial::pcg(a, b, c, x, most, 1e-5, &it)); o.n(it);
}
template<class M, class V> typename std::enable_if<Real<typename M::value_type>::cplx>::type descend(const M&, const V&, const M&, const V&, size_t, Out&) {}
template<class M> void iterations(Src& s, Out& o)
{
	typedef typename M::value_type T;
	const size_t n = s.size(1, 10);
	const M a = Make<M>::of(s, dominant<T>(s, n, (unsigned)s.raw(10)));
	const DynamicVector<T> b = rhs<T>(s, n), x = rhs<T>(s, n);
	const size_t most = s.coin() ? 1024 : s.size(0, 6);
	size_t it = 0;
	o.v(Iterative::serial::jacobi(a, b, x, most, 1e-5, &it)); o.n(it);
	over(a, b, x, 0.5 + (double)s.raw(8) / 8, most, o);
}
template<class M> void gradients(Src& s, Out& o)
{
	typedef typename M::value_type T;
	const size_t n = s.size(1, 10);
	const M a = Make<M>::of(s, definite<T>(s, n));
	const DynamicVector<T> b = rhs<T>(s, n), x = rhs<T>(s, n);
	const size_t most = s.coin() ? 1024 : s.size(0, 6);
	M c(Make<M>::zero(n, n));
	CG::serial::jacobi(a, c);
	o.m(c);
	descend(a, b, c, x, most, o);
}
// Refusals leave nothing behind
template<class M> void refused(Src& s, Out& o)
{
	typedef typename M::value_type T;
	const size_t n = s.size(2, 6);
	Grid<T> g = dominant<T>(s, n, 3), z(g), d(g);
	const size_t r = s.raw(n);
	for(size_t j = 0; j < n; ++j) z(r, j) = mk<T>(0);
	d(r, r) = mk<T>(0);
	const M a = Make<M>::of(s, g), sing = Make<M>::of(s, z), zd = Make<M>::of(s, d), rect = Make<M>::of(s, genGrid<T>(s, n, n + 1, 2));
	M L(Make<M>::zero(n, n)), U(L), P(L), small(Make<M>::zero(n - 1, n - 1));
	const DynamicVector<T> b = rhs<T>(s, n), shorter = rhs<T>(s, n - 1);
	for(size_t k = s.size(1, 5); k; --k) {
		const size_t what = s.raw(9);
		try { switch(what) {
		case 0: LU::serial::doolittle(sing, L, U, P); break;
		case 1: LU::serial::doolittle(rect, L, U, P); break;
		case 2: LU::serial::cholesky(sing, L); break;
		case 3: LU::serial::cholesky(a, small); break;
		case 4: Iterative::serial::jacobi(zd, b, b); break;
		case 5: Iterative::serial::jacobi(a, shorter, b); break;
		case 6: o.m(Operations::inverse(sing)); break;
		case 7: CG::serial::jacobi(zd, L); break;
		default: LU::serial::solve_lu(a, a, shorter); break;
		} } catch(...) { o.n(what); }
	}
	M l(Make<M>::zero(n, n)), u(l), p(l);
	LU::serial::doolittle(a, l, u, p);
	o.m(l); o.m(u); o.m(p); o.v(LU::serial::solve_lu(l, u, b));
	o.v(Iterative::serial::jacobi(a, b, b, 20));
}
template<class T> void orderings(Src& s, Out& o)
{
	const size_t n = s.size(1, 14);
	Grid<T> g(n, n);
	const unsigned z = (unsigned)s.raw(10);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) if(i == j || s.chance(10 - z, 10)) { g(i, j) = nonzero<T>(s); g(j, i) = cj(g(i, j)); }
	for(size_t i = 0; i < n; ++i) g(i, i) = mk<T>(1);
	const SparseMatrix<T> a = Make<SparseMatrix<T> >::of(s, g);
	const DynamicVector<Index> p = s.coin() ? cuthill_mckee(a) : r_cuthill_mckee(a);
	o.idx(p); o.idx(inverse_permutation(p));
	o.m(permutation_matrix<T>(p)); o.m(permutate(a, p)); o.v(permutate(rhs<T>(s, n), p));
}
// Objects that are only read
template<class M> struct System { M a, L, U, c; DynamicVector<typename M::value_type> b, x; };
template<class M> System<M> genSystem(Src& s)
{
	typedef typename M::value_type T;
	const size_t n = s.size(1, 8);
	const M z(Make<M>::zero(n, n));
	System<M> y{Make<M>::of(s, definite<T>(s, n)), z, z, z, rhs<T>(s, n), rhs<T>(s, n)};
	M P(z);
	LU::serial::doolittle(y.a, y.L, y.U, P);
	CG::serial::jacobi(y.a, y.c);
	return y;
}
template<class M> void readSystem(const System<M>& y, Src& s, Out& o)
{
	typedef typename M::value_type T;
	const size_t n = y.a.rows();
	M L(Make<M>::zero(n, n)), U(L), P(L);
	for(size_t k = s.size(1, 4); k; --k) switch(s.raw(7)) {
	case 0: LU::serial::doolittle(y.a, L, U, P); o.m(L); o.m(U); o.m(P); break;
	case 1: o.v(LU::serial::solve_lu(y.L, y.U, y.b)); break;
	case 2: o.m(Operations::inverse(y.a)); o.x(Operations::determinant(y.a)); break;
	case 3: descend(y.a, y.b, y.c, y.x, 100, o); break;
	case 4: o.v(Iterative::serial::jacobi(y.a, y.b, y.x, 30)); over(y.a, y.b, y.x, 1.2, 30, o); break;
	case 5: LU::serial::cholesky(y.a, L); o.m(L); break;
	default: o.v(y.a.mul(y.b)); break;
	}
}
}
#define SOLVERS(T, n) \
	TASK("solvers", "refused sparse systems " n, refused<SparseMatrix<T> >); TASK("solvers", "refused dense systems " n, refused<DenseMatrix<T> >); \
	TASK("solvers", "LU of sparse matrices " n, lu<SparseMatrix<T> >); TASK("solvers", "LU of dense matrices " n, lu<DenseMatrix<T> >); TASK("solvers", "LU of fixed matrices " n, fixedLu<T>); \
	TASK("solvers", "Cholesky of sparse matrices " n, cholesky<SparseMatrix<T> >); TASK("solvers", "Cholesky of dense matrices " n, cholesky<DenseMatrix<T> >); TASK("solvers", "incomplete factors " n, incomplete<T>); \
	TASK("solvers", "Jacobi and SOR sparse " n, iterations<SparseMatrix<T> >); TASK("solvers", "Jacobi and SOR dense " n, iterations<DenseMatrix<T> >); \
	TASK("solvers", "conjugate gradients sparse " n, gradients<SparseMatrix<T> >); TASK("solvers", "conjugate gradients dense " n, gradients<DenseMatrix<T> >); TASK("solvers", "orderings " n, orderings<T>); \
	READERS("sparse system " n, System<SparseMatrix<T> >, genSystem<SparseMatrix<T> >, readSystem<SparseMatrix<T> >); READERS("dense system " n, System<DenseMatrix<T> >, genSystem<DenseMatrix<T> >, readSystem<DenseMatrix<T> >);
