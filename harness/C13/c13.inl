// C13: Jacobi and SOR against known solutions and a reference iteration
#include "../linalg.h"
#include "Iterative.h"
using namespace h;

namespace {
template<class V> struct MakeV;
template<class T> struct MakeV<NS::DynamicVector<T> > { static NS::DynamicVector<T> of(const std::vector<T>& v) { return dyn(v); } };
template<class T, NS::Dimension K> struct MakeV<NS::FixedVector<T, K> > {
	static NS::FixedVector<T, K> of(const std::vector<T>& v) { NS::FixedVector<T, K> r; for(size_t i = 0; i < K; ++i) r.set(i, v[i]); return r; }
};
template<class T> std::vector<T> genVec(Src& s, size_t n)
{
	std::vector<T> v(n);
	for(T& t : v) t = sval<T>(s, 2);
	return v;
}
template<class T> double rowRatio(const Grid<T>& a)
{
	double q = 0;
	for(size_t i = 0; i < a.r; ++i) {
		double t = 0;
		for(size_t j = 0; j < a.c; ++j) if(j != i) t += mag(a(i, j));
		q = std::max(q, t / mag(a(i, i)));
	}
	return q;
}
// One reference sweep; w < 0 means Jacobi
inline std::vector<cl> sweep(const Grid<cl>& a, const std::vector<cl>& b, const std::vector<cl>& x, double w)
{
	std::vector<cl> y(x);
	const size_t n = a.r;
	for(size_t i = 0; i < n; ++i) {
		cl t = b[i];
		for(size_t j = 0; j < n; ++j) if(j != i) t -= a(i, j) * (w < 0 || j > i ? x[j] : y[j]);
		t /= a(i, i);
		y[i] = w < 0 ? t : (cl)(ld)(1 - w) * x[i] + (cl)(ld)w * t;
	}
	return y;
}
inline double maxv(const std::vector<cl>& v) { double m = 0; for(cl c : v) m = std::max(m, (double)std::abs(c)); return m; }

// Jacobi and SOR behind one face; SOR is not available for every type
template<class T> struct HasSor { static const bool value = true; };
template<> struct HasSor<cf> { static const bool value = false; };
template<bool Sor> struct Call {
	template<class M, class V> static V run(const M& a, const V& b, const V& x, double w, size_t m, double e, size_t* st)
	{
		if(w < 0) return NS::Iterative::serial::jacobi(a, b, x, m, e, st);
		return NS::Iterative::serial::sor(a, b, x, w, m, e, st);
	}
};
template<> struct Call<false> {
	template<class M, class V> static V run(const M& a, const V& b, const V& x, double, size_t m, double e, size_t* st) { return NS::Iterative::serial::jacobi(a, b, x, m, e, st); }
};

template<class T> struct System {
	Grid<T> a; Grid<cl> inv;
	std::vector<T> x, b, x0;
	Grid<T> ga; std::vector<T> gb;// The same system, rows scaled by powers of two: no step and no rounding changes
	double w, q;
	size_t n;
	int ex;// Binary exponent of the solution
	bool dom;
};
template<class T> System<T> gen(Ctx& c, size_t n)
{
	Src& s = c.s;
	System<T> y;
	y.n = n;
	y.w = HasSor<T>::value && s.chance(3, 5) ? 1.0 : -1.0;
	y.dom = true;
	const unsigned z = n > 44 ? 9 : (unsigned)s.raw(10);
	y.a = dominant<T>(s, n, z);
	if(y.w > 0) {
		switch(s.raw(4)) {
		case 0: break;
		case 1: y.w = (double)(1 + s.raw(15)) / 16; break;
		default: {
			// Hermitian positive definite: any relaxation between 0 and 2
			y.dom = false;
			Grid<T> l(n, n);
			auto fill = [&](Src& f) {
				for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) {
					if(i == j) l(i, i) = mk<T>((double)(2 + f.raw(4)) / 2);
					else if(f.chance(10 - z, n > 44 ? 100 : 10)) l(i, j) = mk<T>((double)f.num(2) / 2, Real<T>::cplx ? (double)f.num(2) / 2 : 0);
				}
			};
			if(n > 44) { Src f = s.bulk(); fill(f); } else fill(s);
			y.a = mul(l, transp(conjg(l)));
			for(size_t i = 0; i < n; ++i) y.a(i, i) += mk<T>(2);
			y.w = (double)(4 + s.raw(25)) / 16;
			c.label("hermitian positive definite");
		}
		}
	}
	c.label(y.w < 0, "jacobi"); c.label(y.w > 0, "sor");
	if(!refInverse(wide(y.a), y.inv)) throw pbt::Discard();
	y.q = rowRatio(y.a);
	const int ea = scaleExp(s, s.chance(1, 3) ? eps<T>() > 1e-10 ? 40 : 200 : 12);
	y.ex = scaleExp(s, 20);
	if(ea) { y.a = sh(y.a, ea); for(cl& t : y.inv.v) t = cl(std::ldexp(t.real(), -ea), std::ldexp(t.imag(), -ea)); }
	c.label(ea || y.ex, "scaled");
	y.x = genVec<T>(s, n);
	for(T& t : y.x) t = sh(t, y.ex);
	const std::vector<cl> wb = mulv(wide(y.a), wide(y.x));
	y.b.resize(n);
	for(size_t i = 0; i < n; ++i) y.b[i] = mk<T>((double)wb[i].real(), (double)wb[i].imag());// Exact
	y.x0 = s.coin() ? genVec<T>(s, n) : std::vector<T>(n, mk<T>(0));
	for(T& t : y.x0) t = sh(t, y.ex);
	y.ga = y.a; y.gb = y.b;
	if(s.chance(1, 5)) {
		const int lim = eps<T>() > 1e-10 ? 20 : 200;
		for(size_t i = 0; i < n; ++i) {
			const int e = (int)s.num(lim);
			for(size_t j = 0; j < n; ++j) y.ga(i, j) = sh(y.ga(i, j), e);
			y.gb[i] = sh(y.gb[i], e);
		}
		c.label("rows scaled");
	}
	NOTE("A = " << y.ga << ", b = " << vs(y.gb) << ", solution " << vs(y.x) << ", start " << vs(y.x0) << ", relaxation " << y.w << " (negative: Jacobi)");
	return y;
}
template<class M, class V> void converge(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	typedef Call<HasSor<T>::value> F;
	Src& s = c.s;
	System<T> y = gen<T>(c, n);
	const bool flt = eps<T>() > 1e-10;
	const double e = std::ldexp(1.0, flt ? -(int)s.raw(9) : -(int)s.raw(30)) * std::ldexp(flt ? 0.25 : 0.125, y.ex);
	const bool atSolution = s.raw(6) == 5;
	if(atSolution) { y.x0 = y.x; c.label("start at the solution"); }
	const M A = Make<M>::of(s, y.ga);
	const V b = MakeV<V>::of(y.gb), x0 = MakeV<V>::of(y.x0);
	size_t st = 12345678;
	const bool stat = !s.chance(1, 8);
	const size_t maxIter = y.dom ? 1024 : 50000;
	NOTE("eps " << e << ", at most " << maxIter << " iterations, " << Make<M>::n());
	const V r = F::run(A, b, x0, y.w, maxIter, e, stat ? &st : NULL);
	REQ(grid(A) == y.ga && vec(b) == y.gb && vec(x0) == y.x0, "an argument was changed");
	const std::vector<T> got = vec(r);
	REQ(got.size() == n, "the result has size " << got.size());
	// Stopped when the last step was not longer than e: b - A x_k = (D + w L)/w step
	const double w = y.w < 0 ? 1 : y.w;
	Grid<double> dl(n, n);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) dl(i, j) = (i == j ? 1 : y.w < 0 ? 0 : w) * mag(y.a(i, j));
	const double big = std::max(maxv(wide(y.x)), maxv(wide(y.x0)));
	const double round = frob(y.inv) * frob(y.a) * 32 * (n + 3) * eps<T>() * big * std::sqrt((double)n) / w;
	const double tol = e + frob(y.inv) * frob(dl) / w * e + round;
	double err = 0;
	for(size_t i = 0; i < n; ++i) { const double d = mag(got[i] - y.x[i]); if(!(d <= err)) err = d; }
	if(stat) REQ(st >= 1 && st <= maxIter, "reported " << st << " iterations");
	REQ(!(err > tol) && err == err, "result " << vs(got) << " is " << err << " away from the solution, allowed is " << tol);
	// The limit only cuts the iteration off
	if(stat) {
		size_t again = 87654321;
		const size_t limit = st + (s.chance(1, 3) ? 1 + s.raw(3) : 0);
		const std::vector<T> g2 = vec(F::run(A, b, x0, y.w, limit, e, &again));
		REQ(again == st, "took " << st << " iterations with a limit of " << maxIter << ", but " << again << " with a limit of " << limit);
		for(size_t i = 0; i < n; ++i)
			REQ(mag(g2[i] - got[i]) <= round, "result " << vs(got) << " after " << st << " iterations, but " << vs(g2) << " with a limit of " << limit);
	}
	if(atSolution && stat) REQ(st == 1 || round * 4 > e, "started at the solution, but took " << st << " iterations");
	// Contraction in the maximum norm
	if(stat && y.dom && round < e / 16) {
		double e0 = 0;
		for(size_t i = 0; i < n; ++i) e0 = std::max(e0, mag(y.x0[i] - y.x[i]));
		const double q = 1 - w * (1 - y.q);
		double step = 2 * e0 * std::sqrt((double)n);
		size_t k = 1;
		while(step > e * 0.75 && k < 100000) { step *= q; ++k; }
		REQ(st <= k + 1, "took " << st << " iterations, but the step length has to fall below the limit within " << k + 1);
	}
	c.nontrivial(n > 1 && (!stat || st > 2));
}
// A few sweeps, cut off by the iteration limit
template<class M, class V> void sweeps(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	typedef Call<HasSor<T>::value> F;
	Src& s = c.s;
	System<T> y = gen<T>(c, n);
	const size_t k = s.chance(1, 16) ? 0 : s.size(1, 4);
	const M A = Make<M>::of(s, y.ga);
	const V b = MakeV<V>::of(y.gb), x0 = MakeV<V>::of(y.x0);
	NOTE(k << " sweeps, " << Make<M>::n());
	size_t st = 12345678;
	const V r = F::run(A, b, x0, y.w, k, 0.0, &st);
	const std::vector<T> got = vec(r);
	const Grid<cl> wa = wide(y.a);
	const std::vector<cl> wb = wide(y.b);
	std::vector<cl> x = wide(y.x0);
	std::vector<double> E(n, 0.0);// Bound of the rounding errors of each component
	bool still = false;
	const double w = y.w < 0 ? 1 : y.w;
	for(size_t i = 0; i < k; ++i) {
		const std::vector<cl> o = x;
		std::vector<double> N(E);
		x = sweep(wa, wb, x, y.w);
		double d = 0, t = 0;
		for(size_t j = 0; j < n; ++j) {
			double p = 0, m = mag(y.b[j]);
			for(size_t l = 0; l < n; ++l) if(l != j) {
				const bool old = y.w < 0 || l > j;
				p += mag(y.a(j, l)) * (old ? E[l] : N[l]);
				m += mag(y.a(j, l)) * (double)std::abs(old ? o[l] : x[l]);
			}
			N[j] = std::abs(1 - w) * E[j] + w * p / mag(y.a(j, j)) + 4 * (n + 4) * eps<T>() * ((double)std::abs(o[j]) + (double)std::abs(x[j]) + w * m / mag(y.a(j, j)));
			t = std::max(t, N[j]);
			d = std::max(d, (double)std::abs(x[j] - o[j]));
		}
		E = N;
		still = still || d <= 4 * t + (eps<T>() > 1e-10 ? 1e-18 : 1e-150);
	}
	for(size_t i = 0; i < n; ++i)
		REQ((double)std::abs(wide(got[i]) - x[i]) <= E[i], "component " << i << " after " << k << " sweeps is " << got[i] << " instead of " << x[i]);
	if(!still) REQ(st == k, "reported " << st << " iterations after " << k << " sweeps");
	REQ((k == 0 || st >= 1) && st <= k, "reported " << st << " iterations with a limit of " << k);
	c.nontrivial(n > 1 && !still);
}
template<class M> void refused(Ctx& c)
{
	typedef typename M::value_type T;
	typedef Call<HasSor<T>::value> F;
	Src& s = c.s;
	const size_t n = s.size(1, 6), m = n + 1 + s.raw(3);
	const double w = s.coin() ? -1 : 1.25;
	Grid<T> a = dominant<T>(s, n, 4);
	const NS::DynamicVector<T> b = dyn(genVec<T>(s, n)), bm = dyn(genVec<T>(s, m));
	using namespace NS;
	const M A = Make<M>::of(s, a), R = Make<M>::of(s, genGrid<T>(s, n, m, 2)), R2 = Make<M>::of(s, genGrid<T>(s, m, n, 2));
	NOTE(Make<M>::n() << " " << n << ", " << m);
	THROWS(NotSquareException, "rectangular matrix", F::run(R, b, b, w, 10, 1e-3, NULL));
	THROWS(NotSquareException, "rectangular matrix", F::run(R2, b, b, w, 10, 1e-3, NULL));
	THROWS(MatrixVectorMismatchException, "right hand side of the wrong size", F::run(A, bm, b, w, 10, 1e-3, NULL));
	THROWS(MatrixVectorMismatchException, "start of the wrong size", F::run(A, b, bm, w, 10, 1e-3, NULL));
	a(s.raw(n), 0) = mk<T>(1);
	const size_t k = s.raw(n);
	a(k, k) = mk<T>(0);
	NOTE("zero on the diagonal: " << a);
	const M Z = Make<M>::of(s, a);
	THROWS(MatrixHasZeroInDiagException, "zero on the diagonal of " << a, F::run(Z, b, b, w, 10, 1e-3, NULL));
	c.nontrivial();
}
template<class M> void law(Ctx& c)
{
	typedef NS::DynamicVector<typename M::value_type> V;
	Src& s = c.s;
	switch(s.raw(10)) {
	case 9: c.label("refusals"); return refused<M>(c);
	case 6: case 7: case 8: c.label("single sweeps"); return sweeps<M, V>(c, dim(s, 1, 8, 24));
	default: return converge<M, V>(c, dim(s, 1, 8, 24));
	}
}
template<class M> void largeIn(Ctx& c)
{
	typedef NS::DynamicVector<typename M::value_type> V;
	const size_t n = c.s.size(40, 180);
	if(c.s.coin()) sweeps<M, V>(c, n); else converge<M, V>(c, n);
}
template<class T> void large(Ctx& c) { if(c.s.coin()) largeIn<NS::DenseMatrix<T> >(c); else largeIn<NS::SparseMatrix<T> >(c); }
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(6)) {
	case 4: return converge<NS::FixedMatrix<T, 8, 8>, NS::FixedVector<T, 8> >(c, 8);
	case 5: return sweeps<NS::FixedMatrix<T, 8, 8>, NS::FixedVector<T, 8> >(c, 8);
	case 0: return converge<NS::FixedMatrix<T, 3, 3>, NS::FixedVector<T, 3> >(c, 3);
	case 1: return sweeps<NS::FixedMatrix<T, 3, 3>, NS::FixedVector<T, 3> >(c, 3);
	case 2: return converge<NS::FixedMatrix<T, 5, 5>, NS::FixedVector<T, 5> >(c, 5);
	default: return sweeps<NS::FixedMatrix<T, 2, 2>, NS::FixedVector<T, 2> >(c, 2);
	}
}
// Default arguments
template<class T> void defaults(Ctx& c)
{
	Src& s = c.s;
	const size_t n = s.size(1, 6);
	const Grid<double> a = dominant<double>(s, n, 3);
	if(rowRatio(a) > 0.9) throw pbt::Discard();
	const std::vector<double> x = genVec<double>(s, n);
	const std::vector<cl> wb = mulv(wide(a), wide(x));
	std::vector<double> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = (double)wb[i].real();
	const bool jac = s.coin();
	NOTE((jac ? "jacobi " : "sor ") << a << ", x = " << vs(x));
	const NS::SparseMatrix<double> A = Make<NS::SparseMatrix<double> >::of(s, a);
	const NS::DynamicVector<double> vb = dyn(b), z = dyn(std::vector<double>(n, 0.0));
	const std::vector<double> got = vec(jac ? NS::Iterative::serial::jacobi(A, vb, z) : NS::Iterative::serial::sor(A, vb, z));
	for(size_t i = 0; i < n; ++i) REQ(std::abs(got[i] - x[i]) <= 1e-5 * 0.9 / 0.1 * 1.01 + 1e-9, "component " << i << " is " << got[i] << " instead of " << x[i] << " for " << a);
	c.nontrivial(n > 1);
}
}
