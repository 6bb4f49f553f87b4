// C14: conjugate gradients against known solutions and a reference iteration
#include "../linalg.h"
#include "CG.h"
using namespace h;

namespace {
template<class V> struct MakeV;
template<class T> struct MakeV<NS::DynamicVector<T> > { static NS::DynamicVector<T> of(const std::vector<T>& v) { return dyn(v); } };
template<class T, NS::Dimension K> struct MakeV<NS::FixedVector<T, K> > {
	static NS::FixedVector<T, K> of(const std::vector<T>& v) { NS::FixedVector<T, K> r; for(size_t i = 0; i < K; ++i) r.set(i, v[i]); return r; }
};
template<class T> std::vector<T> genVec(Src& s, size_t n)
{
	std::vector<T> v(n);
	for(T& t : v) t = sval<T>(s, 2);
	return v;
}
// Symmetric positive definite with a condition number of about 100 at most
template<class T> Grid<T> spd(Src& s, size_t n, Grid<cl>& inv, const char*& kind)
{
	if(n > 44 && s.recorded()) { Src b = s.bulk(); return spd<T>(b, n, inv, kind); }
	for(int tries = 0; tries < 3; ++tries) {
		Grid<T> a(n, n);
		switch(tries == 2 ? 1 : s.raw(4)) {
		case 0: {
			kind = "from a random factor";
			Grid<T> l(n, n);
			for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) l(i, j) = i == j ? mk<T>((double)(2 + s.raw(4)) / 2) : s.coin() ? mk<T>((double)s.num(2) / 2) : mk<T>(0);
			a = mul(l, transp(l));
			for(size_t i = 0; i < n; ++i) a(i, i) += mk<T>(1);
			break;
		}
		case 1: {
			kind = "diagonally dominant";
			const unsigned z = n > 44 ? 8 + (unsigned)s.raw(2) : (unsigned)s.raw(10);
			for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) if(s.chance(10 - z, 10)) a(i, j) = a(j, i) = mk<T>((double)s.num(4) / 2);
			for(size_t i = 0; i < n; ++i) {
				double t = 0;
				for(size_t j = 0; j < n; ++j) t += mag(a(i, j));
				a(i, i) = mk<T>(std::ceil(t) + 1 + (double)s.raw(4));
			}
			break;
		}
		case 2:
			kind = "diagonal";
			for(size_t i = 0; i < n; ++i) a(i, i) = mk<T>((double)(1 + s.raw(12)));
			break;
		default:
			kind = "chain laplacian";
			for(size_t i = 0; i < n; ++i) {
				a(i, i) = mk<T>(2);
				if(i + 1 < n) a(i, i + 1) = a(i + 1, i) = mk<T>(-1);
			}
		}
		if(refInverse(wide(a), inv) && frob(a) * frob(inv) <= 200 * (n > 44 ? (double)n / 20 : 1)) return a;
	}
	throw pbt::Discard();
}
template<class T> struct System {
	Grid<T> a; Grid<cl> inv;
	std::vector<T> x, b, x0;
	Grid<T> c; // Preconditioner
	bool pre, exact;
	int ea, ex;// Binary exponents of the matrix and the solution
	const char* preKind;
};
template<class M> System<typename M::value_type> gen(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	System<T> y;
	const char* kind = "";
	y.a = spd<T>(s, n, y.inv, kind);
	c.label(kind);
	const bool far = s.chance(1, 3), flt = eps<T>() > 1e-10;
	y.ea = scaleExp(s, far ? flt ? 10 : 100 : 6); y.ex = scaleExp(s, far ? flt ? 14 : 60 : 12);
	c.label(y.ea || y.ex, "scaled");
	y.a = sh(y.a, y.ea);
	for(cl& t : y.inv.v) t = cl(std::ldexp(t.real(), -y.ea), std::ldexp(t.imag(), -y.ea));
	y.x = genVec<T>(s, n);
	for(T& t : y.x) t = sh(t, y.ex);
	const std::vector<cl> wb = mulv(wide(y.a), wide(y.x));
	y.b.resize(n);
	for(size_t i = 0; i < n; ++i) y.b[i] = mk<T>((double)wb[i].real());// Exact
	y.x0 = s.coin() ? genVec<T>(s, n) : std::vector<T>(n, mk<T>(0));
	for(T& t : y.x0) t = sh(t, y.ex);
	y.pre = s.coin();
	y.exact = false;
	y.preKind = "none";
	y.c = ident<T>(n);
	if(y.pre) {
		size_t k = s.raw(4);
		if(k == 1 && y.ea < -40) k = 0;// The jacobi preconditioner takes such diagonals as zero
		switch(k) {
		case 0: y.preKind = "identity"; break;
		case 1: {
			y.preKind = "jacobi";
			const M A = Make<M>::of(s, y.a);
			M C = Make<M>::zero(n, n);
			NS::CG::serial::jacobi(A, C);
			y.c = grid(C);
			for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j)
				REQ(i == j ? mag(y.c(i, i) * y.a(i, i) - mk<T>(1)) <= 2 * eps<T>() : y.c(i, j) == mk<T>(0), "Jacobi preconditioner of " << y.a << " is " << y.c);
			break;
		}
		case 2: {
			y.preKind = "inverse";
			y.exact = true;
			for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) y.c(i, j) = mk<T>((double)y.inv(i, j).real());
			break;
		}
		default: {
			y.preKind = "positive definite matrix";
			Grid<cl> inv; const char* kd = "";
			y.c = spd<T>(s, n, inv, kd);
		}
		}
		c.label(y.preKind);
		y.c = sh(y.c, scaleExp(s, 8));// Of no influence
	}
	NOTE(Make<M>::n() << " A = " << y.a << ", b = " << vs(y.b) << ", solution " << vs(y.x) << ", start " << vs(y.x0) << ", preconditioner " << y.preKind << (y.pre ? " " : ""));
	return y;
}
template<class M, class V, class T> V run(Src& s, const System<T>& y, const V& x0, size_t maxIter, double e, size_t* st)
{
	const M A = Make<M>::of(s, y.a), C = Make<M>::of(s, y.c);
	const V b = MakeV<V>::of(y.b);
	const V r = y.pre ? NS::CG::serial::pcg(A, b, C, x0, maxIter, e, st) : NS::CG::serial::cg(A, b, x0, maxIter, e, st);
	REQ(grid(A) == y.a && grid(C) == y.c && vec(b) == y.b, "an argument was changed");
	return r;
}
template<class M, class V> void converge(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	System<T> y = gen<M>(c, n);
	const bool flt = eps<T>() > 1e-10;
	const double scale = frob(y.a) * (norm2(y.x) + norm2(y.x0)) + std::ldexp(1e-3, y.ea + y.ex);
	// Requested length of the residual, well above the rounding errors
	const double e = flt ? scale * std::ldexp(1.0, -4 - (int)s.raw(8)) : scale * std::ldexp(1.0, -4 - (int)s.raw(27));
	const bool at = s.raw(6) == 5;
	if(at) { y.x0 = y.x; c.label("start at the solution"); }
	const V x0 = MakeV<V>::of(y.x0);
	size_t st = 12345678;
	const bool stat = at || !s.chance(1, 8);
	NOTE("eps " << e);
	const V r = run<M, V>(s, y, x0, 1024, e, stat ? &st : NULL);
	REQ(vec(x0) == y.x0, "the start vector was changed");
	const std::vector<T> got = vec(r);
	REQ(got.size() == n, "the result has size " << got.size());
	if(at) {
		REQ(st == 0, "started at the solution, but took " << st << " steps");
		REQ(got == y.x0, "started at the solution " << vs(y.x0) << ", but returned " << vs(got));
		return;
	}
	const double gap = 64.0 * (n + 4) * (n + 4) * eps<T>() * scale * (y.pre ? 4 : 1);
	// |A (x - got)| <= e
	std::vector<cl> d(n);
	for(size_t i = 0; i < n; ++i) d[i] = wide(y.x[i]) - wide(got[i]);
	const double res = norm2(mulv(wide(y.a), d));
	REQ(res <= e * (1 + 1e-3) + gap && res == res, "the residual of " << vs(got) << " has length " << res << ", requested was " << e);
	if(stat) {
		const size_t limit = y.exact ? 3 : n + 2 + (flt || n > 8 ? n : 0);// Rounding delays larger systems
		REQ(st >= 1 || norm2(y.b) <= e || res <= e * (1 + 1e-3), "no step reported");
		REQ(st <= limit, "took " << st << " steps for " << n << " unknowns");
	}
	// The limit only cuts the iteration off
	if(stat && st >= 1) {
		size_t again = 87654321;
		const size_t more = st + (s.chance(1, 3) ? 1 + s.raw(3) : 0);
		const std::vector<T> g2 = vec(run<M, V>(s, y, x0, more, e, &again));
		REQ(again == st, "took " << st << " steps with a limit of 1024, but " << again << " with a limit of " << more);
		for(size_t i = 0; i < n; ++i) d[i] = wide(g2[i]) - wide(got[i]);
		const double off = norm2(mulv(wide(y.a), d));
		REQ(off <= gap && off == off, "result " << vs(got) << " after " << st << " steps, but " << vs(g2) << " with a limit of " << more);
	}
	c.nontrivial(n > 1 && (!stat || st > 1));
}
typedef std::vector<ld> lv;
ld dot(const lv& a, const lv& b) { ld r = 0; for(size_t i = 0; i < a.size(); ++i) r += a[i] * b[i]; return r; }
template<class T> lv apply(const Grid<T>& g, const lv& x)
{
	lv r(g.r, 0);
	for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) r[i] += (ld)g(i, j) * x[j];
	return r;
}
// The first steps, cut off by the iteration limit
template<class M, class V> void steps(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const System<T> y = gen<M>(c, n);
	const size_t k = s.chance(1, 16) ? 0 : s.size(1, std::max<size_t>(1, std::min<size_t>(3, n - 1)));
	lv x(y.x0.begin(), y.x0.end()), b(y.b.begin(), y.b.end());
	lv r = apply(y.a, x);
	for(size_t i = 0; i < n; ++i) r[i] = b[i] - r[i];
	const ld r0 = dot(r, r);
	lv z = apply(y.c, r), p = z;
	ld l1 = dot(r, z);
	bool small = r0 < std::ldexp(1e-2L, 2 * (y.ea + y.ex));
	for(size_t q = 0; q < k && !small; ++q) {
		const lv t = apply(y.a, p);
		const ld ak = l1 / dot(t, p);
		for(size_t i = 0; i < n; ++i) { x[i] += ak * p[i]; r[i] -= ak * t[i]; }
		small = dot(r, r) < r0 * 1e-2;// Steps after (nearly) converging are sensitive to rounding
		z = apply(y.c, r);
		const ld l2 = dot(r, z);
		for(size_t i = 0; i < n; ++i) p[i] = z[i] + l2 / l1 * p[i];
		l1 = l2;
	}
	NOTE(k << " steps");
	size_t st = 12345678;
	const std::vector<T> got = vec(run<M, V>(s, y, MakeV<V>::of(y.x0), k, std::ldexp(1e-12, y.ea + y.ex), &st));
	if(small) {
		REQ(st <= k, "reported " << st << " steps with a limit of " << k);
		return;
	}
	REQ(st == k, "reported " << st << " steps after " << k);
	const double tol = 1e5 * eps<T>() * (norm2(y.x) + norm2(y.x0) + std::ldexp(1.0, y.ex));
	for(size_t i = 0; i < n; ++i)
		REQ((double)std::abs((ld)got[i] - x[i]) <= tol, "component " << i << " after " << k << " steps is " << got[i] << " instead of " << x[i]);
	c.nontrivial(n > 1);
}
template<class M> void refused(Ctx& c)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const size_t n = s.size(1, 6), m = n + 1 + s.raw(3);
	using namespace NS;
	const M A = Make<M>::of(s, ident<T>(n)), B = Make<M>::of(s, ident<T>(m)), R = Make<M>::of(s, genGrid<T>(s, n, m, 2)), R2 = Make<M>::of(s, genGrid<T>(s, m, n, 2));
	std::vector<T> on(n, mk<T>(1)), om(m, mk<T>(1));
	const DynamicVector<T> b = dyn(on), bm = dyn(om), z = dyn(std::vector<T>(n, mk<T>(0))), zm = dyn(std::vector<T>(m, mk<T>(0)));
	NOTE(Make<M>::n() << " " << n << ", " << m);
	namespace S = CG::serial;
	THROWS(NotSquareException, "cg with a rectangular matrix", S::cg(R, b, z));
	THROWS(NotSquareException, "cg with a rectangular matrix", S::cg(R2, b, z));
	THROWS(NotSquareException, "pcg with a rectangular matrix", S::pcg(R, b, A, z));
	THROWS(NotSquareException, "pcg with a rectangular preconditioner", S::pcg(A, b, R, z));
	THROWS(MatrixSizeMismatchException, "pcg with a preconditioner of another size", S::pcg(A, b, B, z));
	THROWS(DimensionException, "cg with a right hand side of another size", S::cg(A, bm, z));
	THROWS(DimensionException, "cg with a start of another size", S::cg(A, b, zm));
	THROWS(DimensionException, "pcg with a right hand side of another size", S::pcg(A, bm, A, z));
	THROWS(DimensionException, "pcg with a start of another size", S::pcg(A, b, A, zm));
	M C = Make<M>::zero(n, n), Cm = Make<M>::zero(m, m), Cr = Make<M>::zero(n, m);
	THROWS(NotSquareException, "jacobi of a rectangular matrix", S::jacobi(R, C));
	THROWS(NotSquareException, "jacobi into a rectangular matrix", S::jacobi(A, Cr));
	THROWS(MatrixSizeMismatchException, "jacobi into a matrix of another size", S::jacobi(A, Cm));
	Grid<T> a = genGrid<T>(s, n, n, 2);
	const size_t k = s.raw(n);
	a(k, k) = mk<T>(0);
	const M Z = Make<M>::of(s, a);
	THROWS(SingularException, "jacobi of a matrix with a zero on the diagonal", S::jacobi(Z, C));
	c.nontrivial();
}
template<class M> void law(Ctx& c)
{
	typedef NS::DynamicVector<typename M::value_type> V;
	Src& s = c.s;
	switch(s.raw(10)) {
	case 9: c.label("refusals"); return refused<M>(c);
	case 6: case 7: case 8: c.label("first steps"); return steps<M, V>(c, dim(s, 1, 8, 24));
	default: return converge<M, V>(c, dim(s, 1, 10, 24));
	}
}
template<class M> void largeIn(Ctx& c)
{
	typedef NS::DynamicVector<typename M::value_type> V;
	const size_t n = c.s.size(40, 180);
	if(c.s.coin()) steps<M, V>(c, n); else converge<M, V>(c, n);
}
template<class T> void large(Ctx& c) { if(c.s.coin()) largeIn<NS::DenseMatrix<T> >(c); else largeIn<NS::SparseMatrix<T> >(c); }
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(6)) {
	case 4: return converge<NS::FixedMatrix<T, 9, 9>, NS::FixedVector<T, 9> >(c, 9);
	case 5: return steps<NS::FixedMatrix<T, 9, 9>, NS::FixedVector<T, 9> >(c, 9);
	case 0: return converge<NS::FixedMatrix<T, 3, 3>, NS::FixedVector<T, 3> >(c, 3);
	case 1: return steps<NS::FixedMatrix<T, 3, 3>, NS::FixedVector<T, 3> >(c, 3);
	case 2: return converge<NS::FixedMatrix<T, 5, 5>, NS::FixedVector<T, 5> >(c, 5);
	default: return steps<NS::FixedMatrix<T, 5, 5>, NS::FixedVector<T, 5> >(c, 5);
	}
}
// Five point Laplacians with the default arguments
template<class T> void grids(Ctx& c)
{
	Src& s = c.s;
	const size_t w = s.size(2, 7), h = s.size(2, 7), n = w * h;
	Grid<T> a(n, n);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
		const size_t dx = i % w > j % w ? i % w - j % w : j % w - i % w, dy = i / w > j / w ? i / w - j / w : j / w - i / w;
		if(i == j) a(i, j) = mk<T>(4);
		else if(dx + dy == 1) a(i, j) = mk<T>(-1);
	}
	const std::vector<T> x = genVec<T>(s, n);
	std::vector<T> b(n);
	const std::vector<cl> wb = mulv(wide(a), wide(x));
	for(size_t i = 0; i < n; ++i) b[i] = mk<T>((double)wb[i].real());
	typedef NS::SparseMatrix<T> M;
	const M A = Make<M>::plain(a);
	M C(n, n);
	NS::CG::serial::jacobi(A, C);
	const bool pre = s.coin();
	NOTE(w << "x" << h << " grid, " << (pre ? "pcg" : "cg"));
	size_t st = 9999;
	const NS::DynamicVector<T> vb = dyn(b), z = dyn(std::vector<T>(n, mk<T>(0)));
	const std::vector<T> got = vec(pre ? NS::CG::serial::pcg(A, vb, C, z, 1024, 10e-6, &st) : NS::CG::serial::cg(A, vb, z, 1024, 10e-6, &st));
	const std::vector<T> got2 = vec(pre ? NS::CG::serial::pcg(A, vb, C, z) : NS::CG::serial::cg(A, vb, z));
	REQ(got == got2, "default arguments give another result");
	std::vector<cl> d(n);
	for(size_t i = 0; i < n; ++i) d[i] = wide(x[i]) - wide(got[i]);
	const double res = norm2(mulv(wide(a), d));
	REQ(res <= 1e-5 * 1.001 + 1e-9, "residual " << res << " of the result");
	REQ(st <= n + 2, "took " << st << " steps for " << n << " unknowns");
	c.nontrivial(norm2(x) > 0);
}
// Long runs: the error of a chain has to travel through all of it
template<class T> void chain(Ctx& c)
{
	Src& s = c.s;
	const size_t n = s.size(20, 160);
	const double extra = s.coin() ? 0 : std::ldexp(1.0, -4 - (int)s.raw(5));
	typedef NS::SparseMatrix<T> M;
	M A(n, n), C(n, n);
	Grid<T> a(n, n);
	for(size_t i = 0; i < n; ++i) {
		a(i, i) = mk<T>(2 + extra);
		if(i + 1 < n) a(i, i + 1) = a(i + 1, i) = mk<T>(-1);
	}
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(a(i, j) != mk<T>(0)) A.set(i, j, a(i, j));
	std::vector<T> x(n), b(n);
	{ Src q = s.bulk(); x = genVec<T>(q, n); }
	const std::vector<cl> wb = mulv(wide(a), wide(x));
	for(size_t i = 0; i < n; ++i) b[i] = mk<T>((double)wb[i].real());
	const bool pre = s.coin();
	if(pre) NS::CG::serial::jacobi(A, C);
	const double e = std::ldexp(1.0, -(int)s.raw(30));
	NOTE("chain of " << n << " with " << extra << " added, " << (pre ? "pcg" : "cg") << ", eps " << e << ", solution " << vs(x));
	size_t st = 9999;
	const NS::DynamicVector<T> vb = dyn(b), z = dyn(std::vector<T>(n, mk<T>(0)));
	const std::vector<T> got = vec(pre ? NS::CG::serial::pcg(A, vb, C, z, 4096, e, &st) : NS::CG::serial::cg(A, vb, z, 4096, e, &st));
	std::vector<cl> d(n);
	for(size_t i = 0; i < n; ++i) d[i] = wide(x[i]) - wide(got[i]);
	const double res = norm2(mulv(wide(a), d));
	REQ(res <= e * 1.001 + 1e-10 * n, "residual " << res << " of the result, requested was " << e);
	REQ(st <= n + n / 2 + 4, "took " << st << " steps for " << n << " unknowns");
	c.label(st > 50, "more than 50 steps");
	c.nontrivial(st > 10);
}
}
