// The library with its optional checks, in a namespace of its own
#define NS NSchecked
#define NS_ALLOW_CHECKS
#include "c11.inl"

namespace {
// Hermitian but for one pair of entries (or a diagonal entry that is not real)
template<class M> void skew(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	if(n < 2 && !Real<T>::cplx) throw pbt::Discard();
	const Grid<T> l0 = lower<T>(s, n, true);
	Grid<T> a = mul(l0, transp(conjg(l0)));
	size_t i = s.raw(n), j = s.raw(n);
	if(i == j && !Real<T>::cplx) j = (i + 1) % n;
	const double d = (double)(1 + s.raw(8)) / 4 * (s.coin() ? 1 : -1);
	a(i, j) += i == j || (Real<T>::cplx && s.coin()) ? mk<T>(0, d) : mk<T>(d);
	NOTE(Make<M>::n() << " " << a << " at " << i << "," << j);
	const M A = Make<M>::of(s, a);
	M L = dirty<M>(s, n);
	THROWS(NS::NotHermitianException, "cholesky of the matrix " << a << " that is not hermitian", NS::LU::serial::cholesky(A, L));
	REQ(grid(A) == a, "the matrix was changed");
	c.nontrivial(n > 1);
}
template<class M> void checked(Ctx& c)
{
	if(c.s.coin()) { c.label("not hermitian"); skew<M>(c, dim(c.s, 1, 8, 24)); } else law<M>(c);
}
template<class T> void checkedFixed(Ctx& c)
{
	if(c.s.coin()) fixed<T>(c);
	else { c.label("not hermitian"); skew<NS::FixedMatrix<T, 4, 4> >(c, 4); }
}
}
INST(600, std::string("with checks, dense ") + TN<double>::n(), checked<NS::DenseMatrix<double> >);
INST(600, std::string("with checks, sparse ") + TN<double>::n(), checked<NS::SparseMatrix<double> >);
INST(300, std::string("with checks, fixed ") + TN<double>::n(), checkedFixed<double>);
INST(600, std::string("with checks, dense ") + TN<cd>::n(), checked<NS::DenseMatrix<cd> >);
INST(600, std::string("with checks, sparse ") + TN<cd>::n(), checked<NS::SparseMatrix<cd> >);
INST(300, std::string("with checks, fixed ") + TN<cd>::n(), checkedFixed<cd>);
