// C04: products, transpose, conjugate and adjoint against their definition and across the storage kinds
#include "../common.h"
using namespace h;

namespace {
template<class T> std::vector<T> genVec(Src& s, size_t n)
{
	std::vector<T> v(n);
	for(T& t : v) t = sval<T>(s, 3);
	if(const int e = scaleExp(s, 30)) for(T& t : v) t = sh(t, e);
	return v;
}
template<class T> Grid<T> col(const std::vector<T>& v) { Grid<T> g(v.size(), 1); g.v = v; return g; }
template<class T> Grid<T> row(const std::vector<T>& v) { Grid<T> g(1, v.size()); g.v = v; return g; }

// Random operand: sometimes with empty rows and columns, sometimes structured
template<class T> Grid<T> operand(Ctx& c, size_t r, size_t k)
{
	Src& s = c.s;
	Grid<T> g = genGrid<T>(s, r, k, (unsigned)s.raw(9));
	if(s.chance(1, 4)) { const size_t i = s.raw(r); for(size_t j = 0; j < k; ++j) g(i, j) = mk<T>(0); c.label("cleared row"); }
	if(s.chance(1, 4)) { const size_t j = s.raw(k); for(size_t i = 0; i < r; ++i) g(i, j) = mk<T>(0); c.label("cleared column"); }
	if(r > 1 && s.chance(1, 6)) for(size_t j = 0; j < k; ++j) g(0, j) = -g(r - 1, j);// Cancelling sums
	if(s.chance(1, 10)) { const T f = val<T>(s); for(size_t i = 0; i < std::min(r, k); ++i) for(size_t j = 0; j < k; ++j) g(i, j) = i == j ? f : mk<T>(0); c.label("diagonal"); }
	if(s.chance(1, 10)) { for(size_t i = 0; i < r; ++i) for(size_t j = 0; j < k; ++j) if(j < i) g(i, j) = mk<T>(0); c.label("triangular"); }
	if(const int e = scaleExp(s, 30)) { g = sh(g, e); c.label("tiny or huge"); }
	return g;
}
template<class M, class T> void equal(const M& m, const Grid<T>& want, const char* what, const char* kind)
{
	const Grid<T> got = grid(m);
	REQ(got == want, kind << " " << what << ": " << got << " instead of " << want);
}
// Sparse results hold no explicit zeros and no lost entries
template<class T> void counts(const NS::SparseMatrix<T>& m, const Grid<T>& g, const char* what)
{
	size_t n = 0;
	for(const T& t : g.v) if(t != mk<T>(0)) ++n;
	REQ(m.filled_count() == n, "sparse " << what << ": filled_count() is " << m.filled_count() << " instead of " << n << " for " << g);
	size_t w = 0;
	for(auto it = m.begin(); it != m.end(); ++it) { REQ(w++ < n, what << ": too many entries"); REQ(*it == g(it.row(), it.column()), what << ": entry at " << it.row() << "," << it.column() << " is " << *it); }
	REQ(w == n, what << ": walk visits " << w << " entries instead of " << n);
}
template<class T> void counts(const NS::DenseMatrix<T>&, const Grid<T>&, const char*) {}

template<class M> void oneKind(Ctx& c, const Grid<typename M::value_type>& a, const Grid<typename M::value_type>& b,
		const std::vector<typename M::value_type>& v, const std::vector<typename M::value_type>& w)
{
	typedef typename M::value_type T;
	const char* kind = Make<M>::n();
	M A = Make<M>::of(c.s, a), B = Make<M>::of(c.s, b);
	const Grid<T> at = transp(a), ac = conjg(a), ah = conjg(at), ab = mul(a, b);
	M X = A.mul(B); equal(X, ab, "mul", kind); counts(X, ab, "mul");
	M Y = A.transpose(); equal(Y, at, "transpose", kind); counts(Y, at, "transpose");
	M Z = A.conjugate(); equal(Z, ac, "conjugate", kind); counts(Z, ac, "conjugate");
	M W = A.adjugate(); equal(W, ah, "adjugate", kind); counts(W, ah, "adjugate");
	equal(Y.mul(A), mul(at, a), "A^T A", kind);
	equal(A.mul(W), mul(a, ah), "A A^*", kind);
	if(a.r == a.c) equal(A.mul(A), mul(a, a), "A A", kind);
	NS::DynamicVector<T> dv = dyn(v), dw = dyn(w);
	const std::vector<T> av = vec(A.mul(dv)), wa = vec(A.mul_left(dw));
	REQ(av == mul(a, col(v)).v, kind << " mul(vector): " << vs(av) << " instead of " << vs(mul(a, col(v)).v));
	REQ(wa == mul(row(w), a).v, kind << " mul_left(vector): " << vs(wa) << " instead of " << vs(mul(row(w), a).v));
	if(a.c == 3) {
		NS::FixedVector<T, 3> f; for(size_t i = 0; i < 3; ++i) f.set(i, v[i]);
		REQ(vec(A.mul(f)) == av, kind << " mul(fixed vector): " << vs(vec(A.mul(f))) << " instead of " << vs(av));
		c.label("fixed vector");
	}
	if(a.r == 3) {
		NS::FixedVector<T, 3> f; for(size_t i = 0; i < 3; ++i) f.set(i, w[i]);
		REQ(vec(A.mul_left(f)) == wa, kind << " mul_left(fixed vector): " << vs(vec(A.mul_left(f))) << " instead of " << vs(wa));
	}
	// Refusals
	const size_t bad = b.r + 1 + c.s.raw(2);
	M N = Make<M>::zero(bad, b.c);
	if(c.s.coin()) N.set(0, 0, mk<T>(1));
	THROWS(NS::MatrixMulMismatchException, kind << " mul", A.mul(N));
	if(b.c != a.r) { THROWS(NS::MatrixMulMismatchException, kind << " mul", B.mul(A)); c.label("mismatch by order"); }
	if(a.r != a.c) { THROWS(NS::MatrixMulMismatchException, kind << " mul", A.mul(A)); }
	NS::DynamicVector<T> lv(a.c + 1), sv(a.c > 1 ? a.c - 1 : 4), lw(a.r + 1), sw(a.r > 1 ? a.r - 1 : 4);
	THROWS(NS::MatrixMulMismatchException, kind << " mul(longer vector)", A.mul(lv));
	THROWS(NS::MatrixMulMismatchException, kind << " mul(vector of wrong size)", A.mul(sv));
	THROWS(NS::MatrixMulMismatchException, kind << " mul_left(longer vector)", A.mul_left(lw));
	THROWS(NS::MatrixMulMismatchException, kind << " mul_left(vector of wrong size)", A.mul_left(sw));
	// Operands stay
	equal(A, a, "left operand after the operations", kind);
	equal(B, b, "right operand after the operations", kind);
	REQ(vec(dv) == v && vec(dw) == w, kind << ": vector operand changed");
}

template<class T> void dynamic(Ctx& c)
{
	Src& s = c.s;
	size_t n = s.small(1, 6), m = s.coin() ? n : s.small(1, 6), k = s.coin() ? n : s.small(1, 6);
	if(s.chance(1, 12)) {// One side much longer
		const size_t l = s.size(7, 40);
		switch(s.raw(4)) { case 0: m = l; break; case 1: n = l; break; case 2: k = l; break; default: n = m = k = s.size(7, s.chance(1, 40) ? 70 : 18); break; }
	}
	const Grid<T> a = operand<T>(c, n, m), b = operand<T>(c, m, k);
	const std::vector<T> v = genVec<T>(s, m), w = genVec<T>(s, n);
	c.label(n > 8 || m > 8 || k > 8, "larger than 8");
	NOTE("A = " << a << ", B = " << b << ", v = " << vs(v) << ", w = " << vs(w));
	oneKind<NS::DenseMatrix<T> >(c, a, b, v, w);
	oneKind<NS::SparseMatrix<T> >(c, a, b, v, w);
	size_t f = 0, g = 0;
	for(const T& t : a.v) if(t != mk<T>(0)) ++f;
	for(const T& t : b.v) if(t != mk<T>(0)) ++g;
	c.label(n != m || m != k, "not square");
	c.nontrivial(f > 0 && g > 0 && n * m > 1);
}

template<class T, NS::Dimension N, NS::Dimension M, NS::Dimension K> void fixedOf(Ctx& c)
{
	Src& s = c.s;
	const Grid<T> a = operand<T>(c, N, M), b = operand<T>(c, M, K);
	const std::vector<T> v = genVec<T>(s, M), w = genVec<T>(s, N);
	NOTE("fixed A = " << a << ", B = " << b << ", v = " << vs(v) << ", w = " << vs(w));
	typedef NS::FixedMatrix<T, N, M> FA;
	typedef NS::FixedMatrix<T, M, K> FB;
	FA A = Make<FA>::plain(a);
	FB B = Make<FB>::plain(b);
	equal(A.mul(B), mul(a, b), "mul", "fixed");
	equal(A.transpose(), transp(a), "transpose", "fixed");
	equal(A.conjugate(), conjg(a), "conjugate", "fixed");
	equal(A.adjugate(), conjg(transp(a)), "adjugate", "fixed");
	equal(A.adjugate().mul(A), mul(conjg(transp(a)), a), "A^* A", "fixed");
	NS::FixedVector<T, M> fv; for(size_t i = 0; i < M; ++i) fv.set(i, v[i]);
	NS::FixedVector<T, N> fw; for(size_t i = 0; i < N; ++i) fw.set(i, w[i]);
	REQ(vec(A.mul(fv)) == mul(a, col(v)).v, "fixed mul(vector): " << vs(vec(A.mul(fv))) << " instead of " << vs(mul(a, col(v)).v));
	REQ(vec(A.mul_left(fw)) == mul(row(w), a).v, "fixed mul_left(vector): " << vs(vec(A.mul_left(fw))) << " instead of " << vs(mul(row(w), a).v));
	equal(A, a, "operand after the operations", "fixed");
	equal(B, b, "operand after the operations", "fixed");
	c.nontrivial(maxabs(a) > 0 && maxabs(b) > 0);
}
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(8)) {
	case 5: fixedOf<T, 6, 6, 6>(c); break;
	case 6: fixedOf<T, 9, 9, 2>(c); break;
	case 7: fixedOf<T, 5, 5, 7>(c); break;
	case 0: fixedOf<T, 2, 2, 2>(c); break;
	case 1: fixedOf<T, 3, 3, 3>(c); break;
	case 2: fixedOf<T, 2, 3, 4>(c); break;
	case 3: fixedOf<T, 4, 1, 3>(c); break;
	default: fixedOf<T, 1, 5, 2>(c); break;
	}
}

// Full or nearly empty matrices of any size, of both kinds
template<class T> void huge(Ctx& c)
{
	Src& s = c.s;
	const size_t n = s.size(40, 160), m = s.size(40, s.chance(1, 5) ? 300 : 160), k = s.size(1, 160);
	const unsigned z = s.coin() ? 9 : 2;
	const Grid<T> a = genGrid<T>(s, n, m, z), b = genGrid<T>(s, m, k, z);
	const std::vector<T> v = genGrid<T>(s, m, 1, 2).v, w = genGrid<T>(s, n, 1, 2).v;
	NOTE(n << "x" << m << " times " << m << "x" << k << ", zeros " << z);
	const Grid<T> ab = mul(a, b), av = mul(a, col(v)), wa = mul(row(w), a);
	const NS::SparseMatrix<T> A = Make<NS::SparseMatrix<T> >::of(s, a), B = Make<NS::SparseMatrix<T> >::of(s, b);
	const NS::DenseMatrix<T> C = Make<NS::DenseMatrix<T> >::plain(a), D = Make<NS::DenseMatrix<T> >::plain(b);
	equal(A.mul(B), ab, "mul", "sparse"); equal(C.mul(D), ab, "mul", "dense");
	REQ(vec(A.mul(dyn(v))) == av.v && vec(C.mul(dyn(v))) == av.v, "product with a vector is wrong");
	REQ(vec(A.mul_left(dyn(w))) == wa.v && vec(C.mul_left(dyn(w))) == wa.v, "product with a vector from the left is wrong");
	equal(A.transpose(), transp(a), "transpose", "sparse"); equal(C.transpose(), transp(a), "transpose", "dense");
	equal(A.adjugate(), conjg(transp(a)), "adjugate", "sparse"); equal(C.adjugate(), conjg(transp(a)), "adjugate", "dense");
	c.nontrivial(maxabs(ab) > 0);
}
// Bigger sparse matrices
template<class T> void large(Ctx& c)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	const size_t big = s.chance(1, 10) ? 110 : 40, n = s.size(8, big), m = s.size(8, big), k = s.size(8, big);
	Grid<T> a(n, m), b(m, k);
	const size_t na = s.size(1, 80), nb = s.size(1, 80);
	for(size_t q = 0; q < na; ++q) a.v[s.raw(a.v.size())] = nonzero<T>(s);
	for(size_t q = 0; q < nb; ++q) b.v[s.raw(b.v.size())] = nonzero<T>(s);
	NOTE("A = " << a << ", B = " << b);
	M A = Make<M>::of(s, a), B = Make<M>::of(s, b);
	equal(A.mul(B), mul(a, b), "mul", "sparse");
	equal(A.transpose(), transp(a), "transpose", "sparse");
	equal(A.adjugate(), conjg(transp(a)), "adjugate", "sparse");
	equal(B.transpose().mul(A.transpose()), transp(mul(a, b)), "B^T A^T", "sparse");
	c.nontrivial(maxabs(mul(a, b)) > 0);
}
// Only moved or conjugated: any number survives
template<class M> void movedIn(Ctx& c, size_t r, size_t k)
{
	typedef typename M::value_type T;
	const bool sp = c.s.chance(1, 8);
	const unsigned z = (unsigned)c.s.raw(9);
	const Grid<T> a = sp ? specialGrid<T>(c.s, r, k, z) : anyGrid<T>(c.s, r, k, z);
	NOTE(Make<M>::n() << " " << a);
	c.label(!finite(a), "infinity or NaN");
	const M A = Make<M>::of(c.s, a);
	const auto X = A.transpose(), Y = A.adjugate(); const M Z = A.conjugate();
	equal(X, transp(a), "transpose", Make<M>::n()); equal(Y, conjg(transp(a)), "adjugate", Make<M>::n()); equal(Z, conjg(a), "conjugate", Make<M>::n());
	equal(X.transpose(), a, "transpose twice", Make<M>::n()); equal(Y.adjugate(), a, "adjugate twice", Make<M>::n());
	if(r == k && !sp) {// Times the identity. Zero times anything finite is zero.
		M E = Make<M>::of(c.s, ident<T>(r));
		if(!Real<T>::cplx || maxabs(a) < 1e30) { equal(E.mul(A), a, "E A", Make<M>::n()); equal(A.mul(E), a, "A E", Make<M>::n()); }
	}
	c.nontrivial(r * k > 1 && !(maxabs(a) == 0));
}
template<class T> void moved(Ctx& c)
{
	const size_t r = dim(c.s, 1, 6, 30), k = c.s.chance(1, 3) ? r : dim(c.s, 1, 6, 30);
	switch(c.s.raw(4)) {
	case 0: movedIn<NS::SparseMatrix<T> >(c, r, k); break;
	case 1: movedIn<NS::DenseMatrix<T> >(c, r, k); break;
	case 2: movedIn<NS::FixedMatrix<T, 3, 3> >(c, 3, 3); break;
	default: movedIn<NS::FixedMatrix<T, 2, 2> >(c, 2, 2); break;
	}
}

// Numbers of different magnitude in one product: the rounding errors are bounded
template<class T> void near(const Grid<T>& got, const Grid<T>& a, const Grid<T>& b, const char* what, const char* kind)
{
	REQ(got.r == a.r && got.c == b.c, kind << " " << what << " has " << got.r << "x" << got.c << " cells");
	for(size_t i = 0; i < a.r; ++i) for(size_t j = 0; j < b.c; ++j) {
		T v = mk<T>(0);
		double abs = 0;
		for(size_t q = 0; q < a.c; ++q) { v += a(i, q) * b(q, j); abs += mag(a(i, q)) * mag(b(q, j)); }
		REQ(mag(got(i, j) - v) <= 4 * (double)(a.c + 2) * eps<T>() * abs, kind << " " << what << ": " << got(i, j) << " instead of " << v << " at " << i << "," << j);
	}
}
// Also with infinity and NaN: the kind of the sum is the same in any order
template<class T> void alike(const Grid<T>& got, const Grid<T>& a, const Grid<T>& b, const char* what, const char* kind)
{
	REQ(got.r == a.r && got.c == b.c, kind << " " << what << " has " << got.r << "x" << got.c << " cells");
	for(size_t i = 0; i < a.r; ++i) for(size_t j = 0; j < b.c; ++j) {
		T v = mk<T>(0);
		for(size_t q = 0; q < a.c; ++q) v += a(i, q) * b(q, j);
		REQ(same(got(i, j), v), kind << " " << what << ": " << got(i, j) << " instead of " << v << " at " << i << "," << j << " of " << a << " times " << b);
	}
}
template<class M> NS::DynamicVector<typename M::value_type> vecFor(const M&, const std::vector<typename M::value_type>& v) { return dyn(v); }
template<class T> NS::FixedVector<T, 3> vecFor(const NS::FixedMatrix<T, 3, 3>&, const std::vector<T>& v) { NS::FixedVector<T, 3> r; for(size_t i = 0; i < 3; ++i) r[i] = v[i]; return r; }
template<class M, class MB> void numbersIn(Ctx& c, size_t n, size_t m, size_t k)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const unsigned z = (unsigned)s.raw(9);
	const char* kind = Make<M>::n();
	// Zeros of a sparse matrix do not take part, and complex products of infinities are not defined
	const bool special = !Real<T>::cplx && std::string(kind) != "Sparse" && s.coin();
	c.label(special, "special values");
	Grid<T> a = special ? genGrid<T>(s, n, m, z) : wideGrid<T>(s, n, m, z), b = special ? genGrid<T>(s, m, k, z) : wideGrid<T>(s, m, k, z);
	if(special) for(size_t q = 1 + s.raw(3); q; --q) {
		const double sv[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
		Grid<T>& g = s.coin() ? a : b;
		g.v[s.raw(g.v.size())] = mk<T>(sv[s.raw(3)]);
	}
	std::vector<T> v(m), w(n);
	for(T& x : v) x = s.chance(1, 3) ? mk<T>(0) : wide<T>(s);
	for(T& x : w) x = s.chance(1, 3) ? mk<T>(0) : wide<T>(s);
	if(special && s.coin()) v[s.raw(m)] = w[s.raw(n)] = mk<T>(std::numeric_limits<double>::infinity());
	NOTE(kind << " A = " << a << ", B = " << b << ", v = " << vs(v) << ", w = " << vs(w));
	const M A = Make<M>::of(s, a); const MB B = Make<MB>::of(s, b);
	const Grid<T> ab = grid(A.mul(B)), av = col(vec(A.mul(vecFor(A, v)))), wa = row(vec(A.mul_left(vecFor(A, w))));
	if(special) { alike(ab, a, b, "mul", kind); alike(av, a, col(v), "mul(vector)", kind); alike(wa, row(w), a, "mul_left(vector)", kind); }
	else { near(ab, a, b, "mul", kind); near(av, a, col(v), "mul(vector)", kind); near(wa, row(w), a, "mul_left(vector)", kind); }
	c.nontrivial(maxabs(ab) > 0 || special);
}
template<class T> void numbers(Ctx& c)
{
	Src& s = c.s;
	const size_t n = s.small(1, 6), m = s.small(1, 6), k = s.small(1, 6);
	switch(s.raw(3)) {
	case 0: numbersIn<NS::SparseMatrix<T>, NS::SparseMatrix<T> >(c, n, m, k); break;
	case 1: numbersIn<NS::DenseMatrix<T>, NS::DenseMatrix<T> >(c, n, m, k); break;
	default: numbersIn<NS::FixedMatrix<T, 3, 3>, NS::FixedMatrix<T, 3, 3> >(c, 3, 3, 3); break;
	}
}
}
