// C10: determinants against exact fraction-free elimination
#include "../linalg.h"
#include "matrix/MatrixOperations.h"
using namespace h;

namespace {
// Gaussian integers
typedef __int128 I;
struct G { I a, b; };
G operator*(G x, G y) { return G{x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a}; }
G operator-(G x, G y) { return G{x.a - y.a, x.b - y.b}; }
bool zero(G x) { return x.a == 0 && x.b == 0; }
G exactDiv(G x, G y)
{
	// x / y without remainder; conj(y) x might overflow, so divide by the norm stepwise only if complex
	if(y.b == 0) return G{x.a / y.a, x.b / y.a};
	if(y.a == 0) return G{x.b / y.b, -x.a / y.b};
	// Long double is not enough: reduce by the gcd of the parts first
	I g = y.a < 0 ? -y.a : y.a, k = y.b < 0 ? -y.b : y.b;
	while(k) { const I t = g % k; g = k; k = t; }
	x.a /= g; x.b /= g; y.a /= g; y.b /= g;
	const I n = y.a * y.a + y.b * y.b;
	// (x.a + i x.b)(y.a - i y.b) / n, done modulo n to stay in range: q = round(x.re part)
	const long double ra = ((long double)x.a * (long double)y.a + (long double)x.b * (long double)y.b) / (long double)n;
	const long double rb = ((long double)x.b * (long double)y.a - (long double)x.a * (long double)y.b) / (long double)n;
	G q{(I)std::llround(ra), (I)std::llround(rb)};
	// Correct the estimate until the remainder vanishes
	for(int it = 0; it < 8; ++it) {
		const G rem = x - q * y;
		if(zero(rem)) return q;
		const long double ca = ((long double)rem.a * (long double)y.a + (long double)rem.b * (long double)y.b) / (long double)n;
		const long double cb = ((long double)rem.b * (long double)y.a - (long double)rem.a * (long double)y.b) / (long double)n;
		q.a += (I)std::llround(ca); q.b += (I)std::llround(cb);
	}
	throw pbt::Discard();
}
// Bareiss; entries are multiples of 1/4
template<class T> cl exactDet(const Grid<T>& a)
{
	const size_t n = a.r;
	std::vector<std::vector<G> > m(n, std::vector<G>(n));
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) m[i][j] = G{(I)std::llround(re(a(i, j)) * 4), (I)std::llround(im(a(i, j)) * 4)};
	G prev{1, 0};
	int sign = 1;
	for(size_t k = 0; k + 1 < n; ++k) {
		size_t p = k;
		while(p < n && zero(m[p][k])) ++p;
		if(p == n) return cl(0);
		if(p != k) { std::swap(m[p], m[k]); sign = -sign; }
		for(size_t i = k + 1; i < n; ++i) {
			for(size_t j = k + 1; j < n; ++j) m[i][j] = exactDiv(m[i][j] * m[k][k] - m[i][k] * m[k][j], prev);
			m[i][k] = G{0, 0};
		}
		prev = m[k][k];
	}
	const G d = m[n - 1][n - 1];
	const ld f = sign * std::ldexp(1.0L, -2 * (int)n);
	return cl((ld)d.a * f, (ld)d.b * f);
}

template<class T> double detTol(const Grid<T>& a)
{
	const size_t n = a.r;
	double sum = 0, m = std::max(1.0, maxabs(a));
	for(size_t i = 0; i < n; ++i) {
		double p = 1;
		for(size_t k = 0; k < n; ++k) {
			if(k == i) continue;
			double q = 0;
			for(size_t j = 0; j < n; ++j) q += mag(a(k, j)) * mag(a(k, j));
			p *= std::sqrt(q);
		}
		sum += p;
	}
	return 16.0 * (n + 1) * (n + 1) * eps<T>() * sum * std::sqrt((double)n) * m;
}

template<class M> void value(Ctx& c, size_t n)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	Grid<T> a(n, n);
	bool structured = false;
	const unsigned k = (unsigned)s.raw(8);
	switch(k) {
	case 0: case 1: a = genGrid<T>(s, n, n, (unsigned)s.raw(7)); c.label("random"); break;
	case 2: for(T& t : a.v) t = mk<T>((double)s.num(2), Real<T>::cplx && s.coin() ? (double)s.num(1) : 0); c.label("small integers"); break;
	case 3: {
		const std::vector<size_t> p = s.perm(n);
		for(size_t i = 0; i < n; ++i) a(i, p[i]) = nonzero<T>(s);
		structured = true;
		c.label("permutation times diagonal");
		break;
	}
	case 4: {
		const bool up = s.coin();
		for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(i == j || (j > i) == up) a(i, j) = i == j ? nonzero<T>(s) : sval<T>(s, 3);
		structured = up;
		c.label(up ? "upper triangular" : "lower triangular");
		break;
	}
	case 5: a = dominant<T>(s, n, (unsigned)s.raw(10)); permuteRows(s, a); c.label("permuted diagonally dominant"); break;
	case 6: { // Dependent rows or columns
		a = genGrid<T>(s, n, n, 2);
		if(n > 1) {
			const size_t i = s.raw(n), o = (i + 1 + s.raw(n - 1)) % n;
			const T f = mk<T>((double)s.num(2));
			const bool row = s.coin();
			for(size_t j = 0; j < n; ++j) { if(row) a(i, j) = a(o, j) * f; else a(j, i) = a(j, o) * f; }
		} else a(0, 0) = mk<T>(0);
		c.label("singular");
		break;
	}
	default: {
		a = ident<T>(n);
		permuteRows(s, a);
		structured = true;
		c.label("permutation");
	}
	}
	NOTE(Make<M>::n() << " " << a);
	cl want = exactDet(a);
	double tol = detTol(a);
	if(s.chance(1, 6)) {// Columns times powers of two, which change no rounding
		int all = 0;
		for(size_t j = 0; j < n; ++j) {
			const int e = (int)s.raw((eps<T>() < 1e-10 ? 900 : 80) / n);
			for(size_t i = 0; i < n; ++i) a(i, j) = a(i, j) * mk<T>(std::ldexp(1.0, e));
			all += e;
		}
		want *= std::ldexp((ld)1, all); tol = std::ldexp(tol, all);
		c.label("large magnitudes");
		NOTE("scaled: " << a);
	}
	const M m = Make<M>::of(s, a);
	const T got = NS::Operations::determinant(m);
	if(structured) tol = 16 * (n + 1) * eps<T>() * (double)std::abs(want);
	REQ((double)std::abs(wide(got) - want) <= tol, "determinant is " << got << " instead of " << want << " for " << a);
	REQ(grid(m) == a, "determinant changed its argument");
	c.nontrivial(n > 1 && ((double)std::abs(want) > tol || k == 6));
	c.label(want == cl(0), "zero determinant");
}
// Beyond the reach of exact elimination: known factors, or the reference elimination
template<class M> void largeValue(Ctx& c, size_t lo, size_t hi)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const size_t n = s.size(lo, hi);
	Grid<T> a(n, n);
	cl want = 1;
	double tol;
	c.label("larger than 6");
	if(s.coin()) {// Permuted upper triangular: elimination has nothing to do
		Grid<T> u(n, n);
		const unsigned z = (unsigned)s.raw(11);
		Src bulk = s;
		if(hi > 24) bulk = s.bulk();
		Src& v = hi > 24 ? bulk : s;
		// Pivots of very different size. Partial products may be tiny or huge, but stay within range in any order.
		const int spread = s.coin() ? 1 : (int)s.size(2, eps<T>() < 1e-10 ? 45 : 20), lim = Lim<typename Real<T>::type>::max_exponent - 2;
		int above = 0, below = 0;
		c.label(spread > 1, "pivots of different size");
		for(size_t i = 0; i < n; ++i) for(size_t j = i; j < n; ++j) {
			if(i == j) {
				int e = (int)s.num(spread);
				if(s.coin()) e = e < 0 ? -spread : spread;
				if(above + e > lim || below - e > lim) e = 0;
				(e > 0 ? above : below) += std::abs(e);
				u(i, i) = mk<T>((s.coin() ? -1 : 1) * std::ldexp(1.0, e)); want *= wide(u(i, i));
			}
			else if(v.chance(10 - z, 10)) u(i, j) = val<T>(v);
		}
		const std::vector<size_t> p = s.perm(n);
		for(size_t i = 0; i < n; ++i) {
			for(size_t j = 0; j < n; ++j) a(p[i], j) = u(i, j);
			for(size_t k = 0; k < i; ++k) if(p[k] > p[i]) want = -want;
		}
		tol = 16 * (n + 1) * eps<T>() * (double)std::abs(want);
	} else {
		a = dominant<T>(s, n, (unsigned)s.size(3, 9));
		if(hi > 24) {// Keeps the value in range
			double l = 0;
			for(size_t i = 0; i < n; ++i) l += std::log2(mag(a(i, i)));
			a = sh(a, -(int)std::lround(l / n));
		} else for(T& t : a.v) t = t * mk<T>(0.125);
		double above = 0, below = 0;// Of the partial products in any order
		permuteRows(s, a);
		Grid<cl> w = wide(a), inv;
		if(!refInverse(w, inv)) throw pbt::Discard();
		for(size_t k = 0; k < n; ++k) {
			size_t p = k;
			for(size_t i = k + 1; i < n; ++i) if(std::abs(w(i, k)) > std::abs(w(p, k))) p = i;
			if(p != k) { want = -want; for(size_t j = 0; j < n; ++j) std::swap(w(k, j), w(p, j)); }
			want *= w(k, k);
			const double e = std::log2((double)std::abs(w(k, k)));
			(e > 0 ? above : below) += std::fabs(e);
			for(size_t i = k + 1; i < n; ++i) { const cl f = w(i, k) / w(k, k); for(size_t j = k; j < n; ++j) w(i, j) -= f * w(k, j); }
		}
		if(std::max(above, below) > Lim<typename Real<T>::type>::max_exponent - 4) throw pbt::Discard();
		tol = 64.0 * n * n * eps<T>() * frob(a) * frob(inv) * (double)std::abs(want);
	}
	NOTE(Make<M>::n() << " " << a);
	const M m = Make<M>::of(s, a);
	const T got = NS::Operations::determinant(m);
	REQ((double)std::abs(wide(got) - want) <= tol, "determinant is " << got << " instead of " << want << " for " << a);
	c.nontrivial();
}
template<class M> void law(Ctx& c)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	if(s.chance(1, 12)) return largeValue<M>(c, 7, 24);
	if(s.raw(12) != 11) return value<M>(c, s.size(1, 6));
	const size_t r = s.size(1, 5), k = (r + s.size(0, 3)) % 5 + 1;
	if(r == k) throw pbt::Discard();
	c.label("not square");
	const Grid<T> g = genGrid<T>(s, r, k, 2);
	NOTE(Make<M>::n() << " " << g);
	const M m = Make<M>::of(s, g);
	const T got = NS::Operations::determinant(m);
	REQ(got == mk<T>(0), "determinant of a " << r << "x" << k << " matrix is " << got);
	c.nontrivial();
}
template<class T> void large(Ctx& c) { if(c.s.coin()) largeValue<NS::DenseMatrix<T> >(c, 25, 130); else largeValue<NS::SparseMatrix<T> >(c, 25, 90); }
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(7)) {
	case 6: return value<NS::FixedMatrix<T, 7, 7> >(c, 7);
	case 0: return value<NS::FixedMatrix<T, 2, 2> >(c, 2);
	case 1: return value<NS::FixedMatrix<T, 3, 3> >(c, 3);
	case 2: return value<NS::FixedMatrix<T, 4, 4> >(c, 4);
	case 3: return value<NS::FixedMatrix<T, 5, 5> >(c, 5);
	case 4: return value<NS::FixedMatrix<T, 1, 1> >(c, 1);
	default: {
		const Grid<T> g = genGrid<T>(c.s, 2, 3, 2);
		NOTE(g);
		const T got = NS::Operations::determinant(Make<NS::FixedMatrix<T, 2, 3> >::plain(g));
		REQ(got == mk<T>(0), "determinant of a 2x3 matrix is " << got);
	}
	}
}
}
