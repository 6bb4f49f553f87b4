#include "c28.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"

namespace {
using namespace NS;
template<class T> DynamicVector<T> genV(Src& s, size_t n) { std::vector<T> v(n); for(T& t : v) t = sval<T>(s, 2); return dyn(v); }
template<class M> void text(Out& o, const M& m) { Text t; t.precision(17); t << m; o.str(t.str()); }
template<class T> typename std::enable_if<!Real<T>::cplx>::type order(Out& o, const SparseMatrix<T>& a) { o.x(a.max()); o.x(a.min()); }
template<class T> typename std::enable_if<Real<T>::cplx>::type order(Out&, const SparseMatrix<T>&) {}
template<class T> typename std::enable_if<!Real<T>::cplx>::type order(Out& o, const DenseMatrix<T>& a) { o.x(a.max()); o.x(a.min()); }
template<class T> typename std::enable_if<Real<T>::cplx>::type order(Out&, const DenseMatrix<T>&) {}

template<class M> void readMatrix(const M& a, Src& s, Out& o)
{
	typedef typename M::value_type T;
	o.m(a); o.x(a.sum()); o.x(a.avg()); o.x(a.trace()); order(o, a);
	o.n(a.has_nan()); o.n(a.has_inf()); o.n(a.has_zero());
	o.v(a.mul(genV<T>(s, a.columns()))); o.v(a.mul_left(genV<T>(s, a.rows())));
	const M t = a.transpose();
	o.m(t); o.m(a.conjugate()); o.m(a.adjugate()); o.m(a.mul(t)); o.m(t.mul(a));
	for(auto it = a.begin(); it != a.end(); ++it) { o.n(it.row()); o.n(it.column()); o.x(*it); }
	const size_t i = s.raw(a.rows()), j = s.raw(a.columns());
	for(auto it = a.row_begin(i); it != a.row_end(i); ++it) o.x(*it);
	for(auto it = a.column_begin(j); it != a.column_end(j); ++it) o.x(*it);
	M c(a);
	c += a; o.m(c); c -= a; o.n(c == a); c *= a; o.m(c); c *= mk<T>(3); o.m(c);
	text(o, a);
	o.n(Check::matrixIsSymmetric(a)); o.n(Check::matrixIsHermitian(a)); o.n(Check::matrixIsSkewSymmetric(a)); o.n(Check::matrixIsSkewHermitian(a));
	o.n(Check::matrixIsOrthogonal(a)); o.n(Check::matrixIsUnitary(a)); o.n(Check::matrixIsProjection(a));
	o.m(Construct::tril(a, (int)s.num(2))); o.m(Construct::triu(a, (int)s.num(2))); o.v(Construct::diag(a));
}
template<class M> M genM(Src& s)
{
	typedef typename M::value_type T;
	const size_t r = dim(s, 1, 6, 12);
	return Make<M>::of(s, genGrid<T>(s, r, s.coin() ? r : dim(s, 1, 6, 12), (unsigned)s.raw(9)));
}
template<class T> SparseMatrix<T> genS(Src& s) { return genM<SparseMatrix<T> >(s); }
template<class T> DenseMatrix<T> genD(Src& s) { return genM<DenseMatrix<T> >(s); }
template<class T> void sparse(Src& s, Out& o)
{
	SparseMatrix<T> a = genS<T>(s);
	for(size_t k = s.raw(20); k; --k) {
		const size_t i = s.raw(a.rows()), j = s.raw(a.columns());
		if(s.coin()) a.set(i, j, sval<T>(s, 4)); else o.x(a.at(i, j));
	}
	for(auto it = a.begin(); it != a.end();) { if(s.chance(1, 6)) it = a.erase(it); else ++it; }
	o.n(a.filled_count());
	readMatrix(a, s, o);
	o.m(Convert::toDenseMatrix(a));
}
template<class T> void dense(Src& s, Out& o)
{
	DenseMatrix<T> a = genD<T>(s);
	for(size_t k = s.raw(10); k; --k) a.set(s.raw(a.rows()), s.raw(a.columns()), sval<T>(s, 4));
	readMatrix(a, s, o);
	o.m(Convert::toSparseMatrix(a));
	text(o, a);
}
template<class T> void fixed(Src& s, Out& o)
{
	typedef FixedMatrix<T, 3, 3> F;
	const F a = Make<F>::of(s, genGrid<T>(s, 3, 3, 2)), b = Make<F>::of(s, genGrid<T>(s, 3, 3, 2));
	o.m(a.mul(b)); o.m(a.transpose()); o.m(a + b); o.m(a - b); o.m(a * b); o.x(a.trace()); o.x(Operations::determinant(a));
	FixedVector<T, 3> v;
	for(size_t i = 0; i < 3; ++i) v.set(i, val<T>(s));
	o.v(a.mul(v)); o.v(a.mul_left(v)); o.n(a == b); o.x(v.dot(v)); o.x(v.mag());
	F e; o.m(e);// Zero from the start
	FixedVector<T, 3> z; o.v(z);
}
template<class T> void vectors(Src& s, Out& o)
{
	const size_t n = dim(s, 1, 8, 40);
	DynamicVector<T> a = genV<T>(s, n), b = genV<T>(s, n);
	o.v(a + b); o.v(a - b); o.v(a * b); o.x(a.dot(b)); o.x(a.mag()); o.x(a.sum()); o.x(a.avg()); o.v(a * mk<T>(2)); o.v(-a); o.v(a.normalized());
	const size_t i = s.raw(n);
	o.v(a.left(i)); o.v(a.right(i)); o.v(a.mid(s.raw(i + 1), i + 1)); o.n(a.has(0, n - 1, b[i])); o.n(a == b);
	DynamicVector<T> r(n); o.v(r);
	r.resize(n + s.raw(9)); o.v(r); r.swap(a); o.v(r); r.fill(b[i]); o.v(r);
	text(o, b);
}
template<class T> void constructors(Src& s, Out& o)
{
	const size_t r = dim(s, 1, 7, 12), k = dim(s, 1, 7, 12);
	o.m((Construct::eye<DenseMatrix, T>(r, k))); o.m((Construct::eye<SparseMatrix, T>(r, k)));
	o.m((Construct::diag<SparseMatrix>(genV<T>(s, r)))); o.m((Construct::hilbert<DenseMatrix, T>(r))); o.m((Construct::inv_hilbert<DenseMatrix, T>(std::min<size_t>(r, 6))));
	const DenseMatrix<T> d(r, k); o.m(d);
	const SparseMatrix<T> e(r, k); o.m(e);
	o.n(Math::factorial(r)); o.n(Math::binom(r, r / 2));
}
// Defined values from the start
template<class T> void fresh(Src& s, Out& o)
{
	{ FixedVector<T, 5> v; o.v(v); }
	{ FixedMatrix<T, 2, 3> m; o.m(m); }
	{ const size_t n = s.size(1, 9); const DynamicVector<T> v(n); o.v(v); const DenseMatrix<T> m(n, 3); o.m(m); const SparseMatrix<T> a(2, n); o.m(a); o.n(a.filled_count()); o.n(a.empty()); o.x(a.sum()); }
	{ std::unique_ptr<FixedVector<T, 9> > v(new FixedVector<T, 9>()); o.v(*v); }
	{ std::unique_ptr<FixedMatrix<T, 4, 2> > m(new FixedMatrix<T, 4, 2>()); o.m(*m); }
	{ FixedVector<T, 4> v{val<T>(s), val<T>(s)}; o.v(v); }
	{ DynamicVector<T> v; o.n(v.size()); v.resize(s.size(1, 9)); o.v(v); }
}
template<class T> void refused(Src& s, Out& o)
{
	const size_t n = s.size(1, 4), m = n + s.size(1, 3);
	const DenseMatrix<T> a = Make<DenseMatrix<T> >::of(s, genGrid<T>(s, n, m, 2)), b = Make<DenseMatrix<T> >::of(s, genGrid<T>(s, n, m, 2));
	const SparseMatrix<T> sa = Convert::toSparseMatrix(a), sb = Convert::toSparseMatrix(b);
	try { o.m(a.mul(b)); } catch(const MatrixMulMismatchException&) { o.n(7); }
	try { o.m(sa.mul(sb)); } catch(const MatrixMulMismatchException&) { o.n(8); }
	try { o.m(sa + sb.transpose()); } catch(const MatrixSizeMismatchException&) { o.n(9); }
	try { o.m(Operations::inverse(a)); } catch(const NotSquareException&) { o.n(10); }
	o.m(a); o.m(sb);
}
}
#define MATRICES(T, n) \
	TASK("matrices", "new objects " n, fresh<T>); \
	TASK("matrices", "sparse matrices " n, sparse<T>); TASK("matrices", "dense matrices " n, dense<T>); TASK("matrices", "fixed matrices " n, fixed<T>); \
	TASK("matrices", "vectors " n, vectors<T>); TASK("matrices", "constructors " n, constructors<T>); TASK("matrices", "refused operations " n, refused<T>); \
	READERS("sparse matrix " n, SparseMatrix<T>, genS<T>, readMatrix<SparseMatrix<T> >); READERS("dense matrix " n, DenseMatrix<T>, genD<T>, readMatrix<DenseMatrix<T> >);
