// C18: shape functions. Oracle: interpolation at the nodes and exact derivatives by
// evaluating the polynomials of low degree on a line.
#include "../linalg.h"
#include "sf/PolyShapeFunction.h"
using namespace h;

namespace {
template<class T, NS::Dimension K, NS::Dimension Order> struct Test {
	typedef NS::PolyShapeFunction<T, K, Order> S;
	typedef NS::FixedVector<T, K> V;
	static const size_t N = S::DOF;
	typedef NS::FixedVector<T, N> W;

	// Documented node order; weights of the vertices times Order
	static std::vector<std::vector<double> > nodes()
	{
		std::vector<std::vector<double> > r;
		const auto add = [&](double x, double y, double z) { std::vector<double> v; v.push_back(x); if(K > 1) v.push_back(y); if(K > 2) v.push_back(z); r.push_back(v); };
		add(0, 0, 0); add(1, 0, 0);
		if(K > 1) add(0, 1, 0);
		if(K > 2) add(0, 0, 1);
		if(Order == 2) {
			if(K == 1) add(0.5, 0, 0);
			if(K == 2) { add(0.5, 0, 0); add(0.5, 0.5, 0); add(0, 0.5, 0); }
			if(K == 3) { add(0.5, 0, 0); add(0.5, 0.5, 0); add(0, 0.5, 0); add(0.5, 0, 0.5); add(0, 0, 0.5); add(0, 0.5, 0.5); }
		}
		if(Order == 3 && K == 2) {
			const double t = 1.0 / 3;
			add(t, 0, 0); add(2 * t, 0, 0); add(2 * t, t, 0); add(t, 2 * t, 0); add(0, 2 * t, 0); add(0, t, 0); add(t, t, 0);
		}
		return r;
	}
	static V vec(const std::vector<double>& x) { V v; for(size_t i = 0; i < K; ++i) v[i] = (T)x[i]; return v; }
	static std::string str(const std::vector<double>& x) { return vs(x); }

	static void law(Ctx& c)
	{
		Src& s = c.s;
		const S f = S();
		const double e = 256 * eps<T>();
		const std::vector<std::vector<double> > nd = nodes();
		REQ(nd.size() == N, "documented nodes and DOF differ: " << nd.size() << " and " << N);
		// Nodal
		const size_t i = s.raw(N), j = s.raw(N);
		REQ(std::abs(re(f.value(i, vec(nd[j]))) - (i == j)) <= e, "shape function " << i << " is " << f.value(i, vec(nd[j])) << " at node " << j);
		// A point in (or around) the simplex
		std::vector<double> x(K);
		const bool inside = s.chance(2, 3);
		double rest = 1;
		const double far = s.chance(1, 4) ? std::ldexp(1.0, (int)s.range(-3, 8)) : 1;
		for(size_t k = 0; k < K; ++k) {
			x[k] = inside ? rest * (double)s.raw(65) / 64 : (double)s.num(64) / 32 * far;
			x[k] = re((T)x[k]);
			rest -= x[k];
		}
		c.label(!inside, "outside");
		NOTE("point " << str(x) << ", functions " << i << " and " << j);
		const V v = vec(x);
		double big = 1;
		for(size_t k = 0; k < K; ++k) big = std::max(big, std::abs(x[k]));
		const double tol = e * std::pow(big, (double)Order);
		// Sum to one, gradients sum to zero
		double sum = 0;
		std::vector<double> gs(K, 0), hs(K, 0);
		for(size_t a = 0; a < N; ++a) {
			sum += re(f.value(a, v));
			const V g = f.gradient(a, v), h = f.gradient2(a, v);
			for(size_t k = 0; k < K; ++k) { gs[k] += re(g[k]); hs[k] += re(h[k]); }
		}
		REQ(std::abs(sum - 1) <= tol, "shape functions sum to " << sum << " at " << str(x));
		for(size_t k = 0; k < K; ++k) REQ(std::abs(gs[k]) <= tol && std::abs(hs[k]) <= tol, "derivatives sum to " << gs[k] << " and " << hs[k] << " at " << str(x));
		// Reproduce any monomial of the order
		size_t ex[3] = {0, 0, 0};
		for(size_t k = 0, left = Order; k < K; ++k) { ex[k] = s.raw(left + 1); left -= ex[k]; }
		const auto mono = [&](const std::vector<double>& p) { double r = 1; for(size_t k = 0; k < K; ++k) for(size_t q = 0; q < ex[k]; ++q) r *= p[k]; return r; };
		double ip = 0;
		std::vector<double> ig(K, 0), ih(K, 0);
		for(size_t a = 0; a < N; ++a) {
			const double m = mono(nd[a]);
			ip += m * re(f.value(a, v));
			const V g = f.gradient(a, v), h = f.gradient2(a, v);
			for(size_t k = 0; k < K; ++k) { ig[k] += m * re(g[k]); ih[k] += m * re(h[k]); }
		}
		REQ(std::abs(ip - mono(x)) <= tol, "interpolation of the monomial with exponents " << ex[0] << " " << ex[1] << " " << ex[2] << " at " << str(x) << " is " << ip << " instead of " << mono(x));
		for(size_t k = 0; k < K; ++k) {
			double d1 = 0, d2 = 0;
			if(ex[k] >= 1) { std::vector<double> p(x); --ex[k]; d1 = (double)(ex[k] + 1) * mono(p); ++ex[k]; }
			if(ex[k] >= 2) { ex[k] -= 2; d2 = (double)((ex[k] + 2) * (ex[k] + 1)) * mono(x); ex[k] += 2; }
			REQ(std::abs(ig[k] - d1) <= tol, "derivative in direction " << k << " of the interpolated monomial with exponents " << ex[0] << " " << ex[1] << " " << ex[2] << " at " << str(x) << " is " << ig[k] << " instead of " << d1);
			REQ(std::abs(ih[k] - d2) <= tol, "second derivative in direction " << k << " of the interpolated monomial with exponents " << ex[0] << " " << ex[1] << " " << ex[2] << " at " << str(x) << " is " << ih[k] << " instead of " << d2);
		}
		// Derivatives of each function, with and without weights. A cubic is determined by four values on a line.
		W w, one, u;
		const double scale = s.chance(1, 3) ? std::ldexp(1.0, (int)s.range(-60, 60)) : 1;
		for(size_t a = 0; a < N; ++a) { w[a] = (T)((double)s.num(8) / 2 * scale); u[a] = (T)((double)s.num(8) / 2 * scale); one[a] = (T)1; }
		const size_t k = s.raw(K);
		const double hstep = 0.5;
		const auto line = [&](const W* ww, double t) { std::vector<double> p(x); p[k] += t; const V q = vec(p); return re(ww ? f.value(i, q, *ww) : f.value(i, q)); };
		for(int weighted = 0; weighted < 2; ++weighted) {
			const W* ww = weighted ? &w : NULL;
			const double m2 = line(ww, -2 * hstep), m1 = line(ww, -hstep), p1 = line(ww, hstep), p2 = line(ww, 2 * hstep), z = line(ww, 0);
			const double d1 = (m2 - 8 * m1 + 8 * p1 - p2) / (12 * hstep), d2 = (m1 - 2 * z + p1) / (hstep * hstep);
			const V g = ww ? f.gradient(i, v, *ww) : f.gradient(i, v), h = ww ? f.gradient2(i, v, *ww) : f.gradient2(i, v);
			const double t2 = 64 * e * std::pow(big + 1, (double)Order) * (weighted ? 8 * scale : 1);
			REQ(std::abs(re(g[k]) - d1) <= t2, (weighted ? "weighted " : "") << "gradient of function " << i << " in direction " << k << " at " << str(x) << " is " << g[k] << " instead of " << d1);
			REQ(std::abs(re(h[k]) - d2) <= t2, (weighted ? "weighted " : "") << "second derivative of function " << i << " in direction " << k << " at " << str(x) << " is " << h[k] << " instead of " << d2);
		}
		// Linear in the weights, weights of one change nothing
		const T lam = (T)((double)s.num(8) / 2);
		W mix;
		for(size_t a = 0; a < N; ++a) mix[a] = w[a] + lam * u[a];
		const double t3 = 64 * tol;
		REQ(std::abs(re(f.value(i, v, one)) - re(f.value(i, v))) <= t3, "weights of one change the value of function " << i);
		REQ(std::abs(re(f.value(i, v, mix)) - re(f.value(i, v, w)) - re(lam) * re(f.value(i, v, u))) <= 32 * t3 * scale, "value of function " << i << " is not linear in the weights at " << str(x));
		const V g1 = f.gradient(i, v, one), g0 = f.gradient(i, v), gm = f.gradient(i, v, mix), gw = f.gradient(i, v, w), gu = f.gradient(i, v, u);
		const V h1 = f.gradient2(i, v, one), h0 = f.gradient2(i, v), hm = f.gradient2(i, v, mix), hw = f.gradient2(i, v, w), hu = f.gradient2(i, v, u);
		for(size_t d = 0; d < K; ++d) {
			REQ(std::abs(re(g1[d]) - re(g0[d])) <= t3 && std::abs(re(h1[d]) - re(h0[d])) <= t3, "weights of one change the derivatives of function " << i);
			REQ(std::abs(re(gm[d]) - re(gw[d]) - re(lam) * re(gu[d])) <= 32 * t3 * scale && std::abs(re(hm[d]) - re(hw[d]) - re(lam) * re(hu[d])) <= 32 * t3 * scale, "derivatives of function " << i << " are not linear in the weights");
		}
		c.nontrivial(sum != re(f.value(0, v)) || N < 3);
	}
};
}
