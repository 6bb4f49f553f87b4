// The library with its optional checks, in a namespace of its own
#define NS NSchecked
#define NS_ALLOW_CHECKS
#include "c14.inl"

namespace {
// Symmetric but for one entry
template<class M, class V> void skew(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	if(n < 2) throw pbt::Discard();
	System<T> y = gen<M>(c, n);
	const size_t i = s.raw(n), j = (i + 1 + s.raw(n - 1)) % n;
	y.a(i, j) += sh(mk<T>((double)(1 + s.raw(8)) / 4 * (s.coin() ? 1 : -1)), y.ea);
	NOTE("changed at " << i << "," << j);
	THROWS(NS::NotHermitianException, "the matrix " << y.a << " is not symmetric", run<M, V>(s, y, MakeV<V>::of(y.x0), 16, 1e-3, (size_t*)NULL));
	c.nontrivial();
}
template<class M> void checked(Ctx& c)
{
	typedef NS::DynamicVector<typename M::value_type> V;
	if(c.s.coin()) { c.label("not symmetric"); skew<M, V>(c, dim(c.s, 2, 8, 24)); } else law<M>(c);
}
template<class T> void checkedFixed(Ctx& c)
{
	if(c.s.coin()) fixed<T>(c);
	else { c.label("not symmetric"); skew<NS::FixedMatrix<T, 4, 4>, NS::FixedVector<T, 4> >(c, 4); }
}
}
INST(600, std::string("with checks, dense ") + TN<double>::n(), checked<NS::DenseMatrix<double> >);
INST(600, std::string("with checks, sparse ") + TN<double>::n(), checked<NS::SparseMatrix<double> >);
INST(400, std::string("with checks, fixed ") + TN<double>::n(), checkedFixed<double>);
