// C17: quadrature rules against exact integrals of random polynomials
#include "../linalg.h"
#include "Simplex.h"
#include "quadrature/Quadrature.h"
using namespace h;

namespace {
// Polynomial in two variables (one: j = 0), coefficient of x^i y^j
struct Poly {
	ld c[6][6];
	Poly() { for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) c[i][j] = 0; }
	ld operator()(ld x, ld y) const
	{
		ld r = 0;
		for(int i = 5; i >= 0; --i) { ld t = 0; for(int j = 5; j >= 0; --j) t = t * y + c[i][j]; r = r * x + t; }
		return r;
	}
	ld abs() const { ld r = 0; for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) r += std::abs(c[i][j]); return r; }
};
Poly operator*(const Poly& a, const Poly& b)
{
	Poly r;
	for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) if(a.c[i][j] != 0)
		for(int k = 0; k < 6; ++k) for(int l = 0; l < 6; ++l) if(b.c[k][l] != 0) {
			if(i + k > 5 || j + l > 5) throw pbt::Discard();
			r.c[i + k][j + l] += a.c[i][j] * b.c[k][l];
		}
	return r;
}
// p(x(u,v), y(u,v)) for affine x and y
Poly compose(const Poly& p, const Poly& x, const Poly& y)
{
	Poly r, px[6], py[6];
	px[0].c[0][0] = py[0].c[0][0] = 1;
	int dx = 0, dy = 0;
	for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) if(p.c[i][j] != 0) { dx = std::max(dx, i); dy = std::max(dy, j); }
	for(int i = 1; i <= dx; ++i) px[i] = px[i - 1] * x;
	for(int i = 1; i <= dy; ++i) py[i] = py[i - 1] * y;
	for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) if(p.c[i][j] != 0) {
		const Poly t = px[i] * py[j];
		for(int k = 0; k < 6; ++k) for(int l = 0; l < 6; ++l) r.c[k][l] += p.c[i][j] * t.c[k][l];
	}
	return r;
}
ld fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
ld integral(const Poly& p, int K)
{
	ld r = 0;
	for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) if(p.c[i][j] != 0)
		r += K == 1 ? p.c[i][j] / (i + 1) : p.c[i][j] * fact(i) * fact(j) / fact(i + j + 2);
	return r;
}
template<int K, int Order> struct Rule { static const int degree = K == 1 ? 2 * Order - 1 : Order, points = K == 1 ? Order : Order == 1 ? 1 : Order == 2 ? 3 : 4; };

Poly gen(Src& s, int K, int degree)
{
	Poly p;
	for(int i = 0; i <= degree; ++i) for(int j = 0; i + j <= degree; ++j) if(K == 2 || j == 0) if(s.chance(2, 3)) p.c[i][j] = (ld)s.num(16) / 4;
	return p;
}
template<class T, NS::Dimension K, NS::Dimension Order> struct Test {
	typedef NS::FixedVector<T, K> V;
	typedef Rule<K, Order> R;
	static ld y(const V& v) { return K == 2 ? (ld)v[K - 1] : 0; }

	static void law(Ctx& c)
	{
		Src& s = c.s;
		const ld e = 8 * (ld)std::max(1e-15, eps<T>());
		const NS::GaussLegendreQuadrature<T, K, Order> Q;
		const NS::GaussLegendreQuadratureFactory<T, K, Order> F;
		// The rule
		const std::vector<V> pts = F.getQuadraturePoints();
		const std::vector<T> w = F.getQuadratureWeights();
		REQ(pts.size() == (size_t)R::points && w.size() == pts.size(), "rule has " << pts.size() << " points and " << w.size() << " weights instead of " << R::points);
		ld sum = 0;
		for(size_t i = 0; i < pts.size(); ++i) {
			sum += w[i];
			const ld a = (ld)pts[i][0], b = y(pts[i]);
			REQ(a >= 0 && b >= 0 && a + b <= 1 + e, "point " << i << " (" << (double)a << ", " << (double)b << ") is outside");
		}
		REQ(std::abs(sum - (K == 1 ? 1.0L : 0.5L)) <= e, "weights sum to " << (double)sum);
		// A polynomial on the unit simplex
		Poly p = gen(s, K, R::degree), p2 = gen(s, K, R::degree);
		ld scale = 1;
		if(s.chance(1, 3)) {// Integrands of any magnitude
			const int top = eps<T>() < 1e-10 ? 900 : 100;
			scale = std::ldexp((ld)1, (int)s.range(-top, top));
			for(auto& row : p.c) for(auto& x : row) x *= scale;
			for(auto& row : p2.c) for(auto& x : row) x *= scale;
			c.label("scaled");
		}
		const T start = s.coin() ? (T)0 : (T)(scale * (ld)s.num(8) / 2);
		const ld want = integral(p, K);
		std::ostringstream os; os.precision(17);
		for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) if(p.c[i][j] != 0) os << " + " << (double)p.c[i][j] << " x^" << i << " y^" << j;
		NOTE("integrand" << os.str() << ", start " << start);
		const auto f = [&](const V& v) -> T { return (T)p((ld)v[0], y(v)); };
		const ld tol = e * (p.abs() + std::abs((ld)start));
		const ld got = (ld)(start == 0 ? Q.eval(f) : Q.eval(f, start));
		REQ(std::abs(got - want - (ld)start) <= tol, "integral of" << os.str() << " is " << (double)(got - (ld)start) << " instead of " << (double)want);
		// With index: every point once, in order
		std::vector<size_t> idx;
		std::vector<V> seen;
		const ld goti = (ld)Q.eval_index([&](NS::Index i, const V& v) -> T { idx.push_back(i); seen.push_back(v); return f(v); }, start);
		REQ(std::abs(goti - want - (ld)start) <= tol, "indexed integral of" << os.str() << " is " << (double)(goti - (ld)start) << " instead of " << (double)want);
		REQ(idx.size() == pts.size(), "indexed evaluation calls the function " << idx.size() << " times");
		for(size_t i = 0; i < idx.size(); ++i) REQ(idx[i] == i && seen[i] == pts[i], "indexed evaluation visits index " << idx[i] << " at call " << i);
		// Precomputed values by index
		std::vector<T> pre(pts.size());
		for(size_t i = 0; i < pts.size(); ++i) pre[i] = f(pts[i]);
		const ld gotp = (ld)Q.eval_index([&](NS::Index i, const V&) -> T { return pre[i]; });
		REQ(std::abs(gotp - want) <= tol, "integral from precomputed values of" << os.str() << " is " << (double)gotp << " instead of " << (double)want);
		// Linear in the integrand, also for vectors of values
		NS::FixedVector<T, 2> zero;
		zero[0] = start; zero[1] = s.coin() ? (T)0 : (T)(scale * (ld)s.num(8) / 4);
		const NS::FixedVector<T, 2> both = Q.eval([&](const V& v) -> NS::FixedVector<T, 2> { NS::FixedVector<T, 2> r; r[0] = f(v); r[1] = (T)p2((ld)v[0], y(v)); return r; }, zero);
		REQ(std::abs((ld)both[0] - want - (ld)start) <= tol && std::abs((ld)both[1] - integral(p2, K) - (ld)zero[1]) <= e * (p2.abs() + std::abs((ld)zero[1])), "vector valued integral is wrong for" << os.str());
		mapped(c, Q, p, os.str());
		c.nontrivial(p.abs() > 0);
	}
	// Any interval or triangle
	static void mapped(Ctx& c, const NS::GaussLegendreQuadrature<T, K, Order>& Q, const Poly& p, const std::string& name)
	{
		Src& s = c.s;
		const ld e = 64 * (ld)std::max(1e-15, eps<T>());
		ld x0 = (ld)s.num(6) / 2, y0 = (ld)s.num(6) / 2, ax = (ld)s.num(6) / 2, ay = (ld)s.num(6) / 2, bx = (ld)s.num(6) / 2, by = (ld)s.num(6) / 2;
		if(K == 1) { if(ax == 0) ax = 1; y0 = ay = bx = 0; by = 1; }
		ld det = ax * by - ay * bx;
		if(det == 0) { ax = 1; ay = 0; bx = 0.5L; by = 2; det = 2; }
		Poly X, Y;
		X.c[0][0] = x0; X.c[1][0] = ax; X.c[0][1] = K == 2 ? bx : 0;
		Y.c[0][0] = y0; Y.c[1][0] = ay; Y.c[0][1] = K == 2 ? by : 0;
		const Poly q = compose(p, X, Y);
		const ld want = std::abs(det) * integral(q, K);
		NOTE("mapped by x = " << (double)x0 << " + " << (double)ax << " u + " << (double)bx << " v, y = " << (double)y0 << " + " << (double)ay << " u + " << (double)by << " v");
		const ld got = std::abs(det) * (ld)Q.eval([&](const V& v) -> T {
			const T a = (T)x0 + (T)ax * v[0] + (K == 2 ? (T)bx * v[K - 1] : (T)0), b = (T)y0 + (T)ay * v[0] + (K == 2 ? (T)by * v[K - 1] : (T)0);
			return (T)p((ld)a, (ld)b);
		});
		ld size = 0;
		for(int i = 0; i < 6; ++i) for(int j = 0; j < 6; ++j) size += std::abs(p.c[i][j]) * std::pow(std::abs(x0) + std::abs(ax) + std::abs(bx), (ld)i) * std::pow(std::abs(y0) + std::abs(ay) + std::abs(by), (ld)j);
		REQ(std::abs(got - want) <= e * std::abs(det) * size, "mapped integral of" << name << " is " << (double)got << " instead of " << (double)want);
	}
};
}
