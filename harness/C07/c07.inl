// C07: vectors and countable sets against plain arrays
#include "../common.h"
using namespace h;

namespace {
template<class T> T divBy(const T& a, const T& b) { return a / b; }
// max and min go by magnitude for complex numbers
template<class T> T key(const T& t) { return t; }
template<class T> T key(const std::complex<T>& t) { return std::abs(t); }
template<class T> bool finiteAll(const std::vector<T>& v)
{
	for(const T& t : v) if(!std::isfinite(re(t)) || !std::isfinite(im(t))) return false;
	return true;
}
template<class T> double big(const std::vector<T>& v) { double d = 0; for(const T& t : v) d = std::max(d, mag(t)); return d; }
template<class T> bool close(const T& a, const T& b, double tol) { return a == b || mag(a - b) <= tol; }

template<class V, class T> void verify(const V& m, const std::vector<T>& g, const char* who)
{
	REQ(m.size() == g.size(), who << ": size() is " << m.size() << " instead of " << g.size());
	T sum = mk<T>(0);
	double abs = 0;
	bool zero = false;
	for(size_t i = 0; i < g.size(); ++i) {
		REQ(m.at(i) == g[i] && m.linear_at(i) == g[i] && m[i] == g[i], who << ": element " << i << " is " << m.at(i) << "/" << m.linear_at(i) << "/" << m[i] << " instead of " << g[i] << " in " << vs(g));
		sum += g[i]; abs += mag(g[i]);
		if(g[i] == mk<T>(0)) zero = true;
	}
	size_t n = 0;
	for(auto it = m.begin(); it != m.end(); ++it, ++n) {
		REQ(n < g.size(), who << ": walk does not end");
		REQ(it.isValid() && *it == g[n], who << ": walk sees " << *it << " instead of " << g[n] << " at " << n);
	}
	REQ(n == g.size() && !m.end().isValid(), who << ": walk ends after " << n << " elements");
	const double tol = std::is_integral<T>::value ? 0 : 4 * eps<T>() * abs * (g.size() + 1);
	REQ(close(m.sum(), sum, tol), who << ": sum() is " << m.sum() << " instead of " << sum);
	REQ((bool)m.hasZero() == zero, who << ": hasZero() is " << m.hasZero() << " for " << vs(g));
	REQ(!m.hasNaN() && !m.hasInf(), who << ": hasNaN/hasInf on finite values");
	if(g.empty()) return;
	const T avg = sum / (T)g.size();
	REQ(close(m.avg(), avg, tol), who << ": avg() is " << m.avg() << " instead of " << avg);
	typedef typename Real<T>::type R;
	R lo = key(g[0]), hi = key(g[0]);
	for(const T& t : g) { lo = std::min(lo, key(t)); hi = std::max(hi, key(t)); }
	REQ(close(m.min(), (T)lo, 4 * eps<T>() * std::fabs((double)lo)), who << ": min() is " << m.min() << " instead of " << lo << " for " << vs(g));
	REQ(close(m.max(), (T)hi, 4 * eps<T>() * std::fabs((double)hi)), who << ": max() is " << m.max() << " instead of " << hi << " for " << vs(g));
}

template<class T> bool noDivisor(double x, const std::vector<T>& v, bool wideNums)
{
	for(const T& t : v) if(wideNums ? !(x / mag(t) < 1e25) : mag(t) < 1e-3) return true;
	return false;
}
template<class V> struct State { typedef typename V::value_type T; V v; std::vector<T> g; };

// Only dynamic vectors change their size
template<class T> void resizeTo(NS::DynamicVector<T>& v, std::vector<T>& g, size_t n) { v.resize(n); g.resize(n, mk<T>(0)); }
template<class T, NS::Dimension N> void resizeTo(NS::FixedVector<T, N>&, std::vector<T>&, size_t) {}
template<class V, class T> V make(const std::vector<T>& g, const NS::DynamicVector<T>*) { return dyn(g); }
template<class V, class T, NS::Dimension N> V make(const std::vector<T>& g, const NS::FixedVector<T, N>*) { V v; for(size_t i = 0; i < N; ++i) v[i] = g[i]; return v; }
// Slices: dynamic vectors shrink, fixed ones are filled up with zeros
template<class T> std::vector<T> slice(std::vector<T> p, size_t, const NS::DynamicVector<T>*) { return p; }
template<class T, NS::Dimension N> std::vector<T> slice(std::vector<T> p, size_t, const NS::FixedVector<T, N>*) { p.resize(N, mk<T>(0)); return p; }

template<class T> void norms(const T* v, const std::vector<T>& g);
template<class V, class T> struct Norm {
	static void check(const V& v, const std::vector<T>& g)
	{
		double want = 0;
		for(const T& t : g) want += (double)re(t) * re(t) + (double)im(t) * im(t);
		const double tol = 8 * eps<T>() * (g.size() + 1);
		const double tiny = (double)Lim<typename Real<T>::type>::min() * (g.size() + 1);// Squares below vanish
		const T ms = v.magSqr(), m = v.mag();
		REQ(std::fabs(re(ms) - want) <= tol * want + tiny && std::fabs(im(ms)) <= tol * want, "magSqr() is " << ms << " instead of " << want << " for " << vs(g));
		REQ(std::fabs(re(m) - std::sqrt(want)) <= tol * std::sqrt(want) + std::sqrt(tiny) && std::fabs(im(m)) <= tol * std::sqrt(want), "mag() is " << m << " instead of " << std::sqrt(want) << " for " << vs(g));
		if(want > tiny / eps<T>()) {
			const std::vector<T> n = vec(v.normalized());
			for(size_t i = 0; i < g.size(); ++i)
				REQ(mag(n[i] - g[i] / mk<T>(std::sqrt(want))) <= 2 * tol, "normalized() has " << n[i] << " at " << i << " for " << vs(g));
		}
	}
};
template<class V> struct Norm<V, int> {
	static void check(const V& v, const std::vector<int>& g)
	{
		int want = 0;
		for(int t : g) want += t * t;
		REQ(v.magSqr() == want, "magSqr() is " << v.magSqr() << " instead of " << want << " for " << vs(g));
	}
};

template<class V> void run(Ctx& c, size_t n, bool dynamic)
{
	typedef typename V::value_type T;
	const V* tag = NULL;
	Src& s = c.s;
	const bool integral = std::is_integral<T>::value;
	const bool wideNums = s.chance(1, 4);// Numbers of any magnitude
	const double cap = wideNums && !integral ? 1e17 : 1e4;
	c.label(wideNums, "numbers of any magnitude");
	std::vector<State<V> > st;
	for(int i = 0; i < 3; ++i) {
		size_t k = n;
		if(dynamic && i == 2 && s.coin()) k = s.small(0, 6);
		std::vector<T> g(k);
		const unsigned zeros = (unsigned)s.raw(8);
		auto fill = [&](Src& f) { for(T& t : g) t = wideNums && f.chance(10 - zeros, 10) ? wide<T>(f) : sval<T>(f, zeros); };
		if(k > 2000) { Src f = s.bulk(); fill(f); } else fill(s);
		if(s.chance(1, 6)) { for(T& t : g) t = mk<T>(-mag(t) - (wideNums ? 0 : 1)); c.label("only negative values"); }
		st.push_back(State<V>{make<V, T>(g, tag), g});
		NOTE("v" << i << " = " << vs(g));
	}
	const size_t steps = s.size(1, 12);
	size_t arith = 0;
	for(size_t q = 0; q < steps; ++q) {
		const size_t a = s.raw(3), b = s.raw(3);
		State<V>& A = st[a]; State<V>& B = st[b];
		const size_t z = A.g.size();
		const bool same = z == B.g.size();
		switch(s.raw(16)) {
		case 0: {
			if(!z) break;
			const size_t i = s.raw(z); const T x = wideNums ? wide<T>(s) : val<T>(s);
			const int f = (int)s.raw(3);
			NOTE("v" << a << "[" << i << "] = " << x << " form " << f);
			if(f == 0) A.v.set(i, x); else if(f == 1) A.v.linear_set(i, x); else A.v[i] = x;
			A.g[i] = x; break; }
		case 1: case 2: case 3: case 4: {
			const int op = (int)s.raw(4);
			const bool bin = s.coin();
			static const char* on[4] = {"+", "-", "*", "/"};
			NOTE("v" << a << " " << on[op] << "= v" << b << (bin ? "  (binary)" : ""));
			if(!same) {
				c.label("size mismatch");
#define VMM(e) THROWS(NS::VectorSizeMismatchException, "operator " << on[op], e)
				if(bin) { if(op == 0) VMM(A.v + B.v); else if(op == 1) VMM(A.v - B.v); else if(op == 2) VMM(A.v * B.v); else VMM(A.v / B.v); }
				else { if(op == 0) VMM(A.v += B.v); else if(op == 1) VMM(A.v -= B.v); else if(op == 2) VMM(A.v *= B.v); else VMM(A.v /= B.v); }
				break;
			}
			if(big(A.g) + big(B.g) > cap || (op == 2 && big(A.g) * big(B.g) > cap)) break;
			if(op == 3 && noDivisor(big(A.g), B.g, wideNums)) break;
			++arith;
			c.label(a == b, "operand is the target");
			std::vector<T> o(A.g);
			for(size_t i = 0; i < z; ++i) o[i] = op == 0 ? A.g[i] + B.g[i] : op == 1 ? A.g[i] - B.g[i] : op == 2 ? A.g[i] * B.g[i] : A.g[i] / B.g[i];
			if(op == 3 && !integral) {// Quotients may be rounded differently
				const std::vector<T> got = vec(A.v / B.v);
				REQ(got.size() == z, "size " << got.size() << " after division");
				for(size_t i = 0; i < z; ++i) { REQ(close(got[i], o[i], 8 * eps<T>() * mag(o[i])), "quotient " << A.g[i] << " / " << B.g[i] << " is " << got[i]); o[i] = got[i]; }
			}
			if(bin) {
				V r = op == 0 ? A.v + B.v : op == 1 ? A.v - B.v : op == 2 ? A.v * B.v : A.v / B.v;
				verify(A.v, A.g, "left operand"); verify(B.v, B.g, "right operand"); verify(r, o, "result");
				A.v = r;
			} else {
				V& r = op == 0 ? (A.v += B.v) : op == 1 ? (A.v -= B.v) : op == 2 ? (A.v *= B.v) : (A.v /= B.v);
				REQ(&r == &A.v, "assigning operator does not return the vector");
			}
			A.g = o; break; }
		case 5: case 6: case 7: {// With a scalar
			const int form = (int)s.raw(12);
			const size_t own = z && s.chance(1, 6) ? s.raw(z) : z;// One of the elements itself
			const T f = own < z ? A.g[own] : wideNums ? wide<T>(s) : nonzero<T>(s);
			if(f == mk<T>(0)) break;
			c.label(own < z, "scaled by an own element");
			if(big(A.g) * mag(f) > cap || big(A.g) > cap || mag(f) > cap || big(A.g) / mag(f) > 1e4 * cap) break;
			if(form == 11 && noDivisor(mag(f), A.g, wideNums)) break;
			NOTE("v" << a << " with scalar " << f << " form " << form << (own < z ? ", an own element" : ""));
			std::vector<T> o(A.g);
			for(size_t i = 0; i < z; ++i) {
				const T x = A.g[i];
				switch(form) {
				case 0: case 4: case 8: o[i] = x + f; break;
				case 1: case 5: o[i] = x - f; break;
				case 2: case 6: case 10: o[i] = x * f; break;
				case 3: case 7: o[i] = x / f; break;
				case 9: o[i] = f - x; break;
				default: o[i] = f / x;
				}
			}
			V r = A.v;
			const T& by = own < z ? r[own] : f;
			switch(form) {
			case 0: r += by; break;
			case 1: r -= by; break;
			case 2: r *= by; break;
			case 3: r /= by; break;
			case 4: r = A.v + f; break;
			case 5: r = A.v - f; break;
			case 6: r = A.v * f; break;
			case 7: r = A.v / f; break;
			case 8: r = f + A.v; break;
			case 9: r = f - A.v; break;
			case 10: r = f * A.v; break;
			default: r = f / A.v; break;
			}
			// Complex quotients and differences may be rounded differently
			const std::vector<T> got = vec(r);
			REQ(got.size() == z, "size " << got.size() << " after scalar operation");
			for(size_t i = 0; i < z; ++i) {
				const double tol = integral ? 0 : 8 * eps<T>() * (mag(o[i]) + (form == 9 ? mag(f) : 0));
				REQ(close(got[i], o[i], tol), "scalar operation form " << form << " with " << f << " gives " << got[i] << " instead of " << o[i] << " at " << i << " of " << vs(A.g));
			}
			verify(A.v, A.g, "operand");
			A.v = r; A.g = got; break; }
		case 8: {
			NOTE("-v" << a);
			V r = -A.v;
			std::vector<T> o(A.g);
			for(T& t : o) t = -t;
			verify(r, o, "negated"); verify(A.v, A.g, "operand of negation");
			A.v = r; A.g = o; break; }
		case 9: {
			NOTE("swap v" << a << " v" << b);
			if(a == b) break;
			A.v.swap(B.v); std::swap(A.g, B.g); break; }
		case 10: { NOTE("v" << a << " = v" << b); assign(s, A.v, B.v); A.g = B.g; break; }
		case 11: {
			const size_t k = s.size(0, 7);
			NOTE("v" << a << ".resize(" << k << ")");
			resizeTo(A.v, A.g, k); break; }
		case 12: {
			if(z && s.chance(1, 4)) {// An element of the vector itself
				const size_t k = s.raw(z), l = s.raw(z);
				NOTE("v" << a << ".set(" << l << ", element " << k << "), .fill(element " << k << ")");
				A.v.set(l, A.v.at(k)); A.g[l] = A.g[k];
				verify(A.v, A.g, "set to an own element");
				A.v.fill(A.v[k]); A.g.assign(z, T(A.g[k]));
				break;
			}
			const T f = val<T>(s); NOTE("v" << a << ".fill(" << f << ")"); A.v.fill(f); for(T& t : A.g) t = f; break; }
		case 13: {// Products and norms
			if(big(A.g) > cap || big(B.g) > cap) break;
			if(!same) { THROWS(NS::VectorSizeMismatchException, "dot", A.v.dot(B.v)); THROWS(NS::VectorSizeMismatchException, "==", A.v == B.v); THROWS(NS::VectorSizeMismatchException, "!=", A.v != B.v); break; }
			if(integral && big(A.g) * big(B.g) > 1e7) break;
			T d = mk<T>(0); double abs = 0;
			for(size_t i = 0; i < z; ++i) { d += A.g[i] * B.g[i]; abs += mag(A.g[i] * B.g[i]); }
			REQ(close(A.v.dot(B.v), d, integral ? 0 : 8 * eps<T>() * abs * (z + 1)), "dot is " << A.v.dot(B.v) << " instead of " << d << " for " << vs(A.g) << " and " << vs(B.g));
			if(!integral || big(A.g) < 1e3) Norm<V, T>::check(A.v, A.g);
			const bool eq = A.g == B.g;
			REQ((A.v == B.v) == eq && (A.v != B.v) == !eq, "operator == is wrong for " << vs(A.g) << " and " << vs(B.g));
			V cp(A.v);
			REQ(cp == A.v && !(cp != A.v), "copy is not equal");
			if(z) { const size_t i = s.raw(z); cp[i] = other(s, A.g[i]); REQ(cp != A.v && !(cp == A.v), "vectors differing at " << i << " are equal"); verify(A.v, A.g, "original"); }
			break; }
		case 14: {// Slices
			if(!z) break;
			const size_t i = s.raw(z), from = s.raw(z + 2), to = from + 1 + s.raw(z + 2);
			NOTE("slices of v" << a << " at " << i << ", " << from << ".." << to);
			typedef std::vector<T> P;
			P l = slice(P(A.g.begin(), A.g.begin() + i + 1), z, tag), r = slice(P(A.g.begin() + i, A.g.end()), z, tag);
			const size_t x = std::min(from, z), y = std::min(to, z);
			P m = slice(P(A.g.begin() + x, A.g.begin() + y), z, tag);
			REQ(vec(A.v.left(i)) == l, "left(" << i << ") is " << vs(vec(A.v.left(i))) << " instead of " << vs(l));
			REQ(vec(A.v.right(i)) == r, "right(" << i << ") is " << vs(vec(A.v.right(i))) << " instead of " << vs(r));
			REQ(vec(A.v.mid(from, to)) == m, "mid(" << from << "," << to << ") is " << vs(vec(A.v.mid(from, to))) << " instead of " << vs(m) << " for " << vs(A.g));
			const T x2 = s.coin() ? A.g[i] : val<T>(s);
			bool has = false;
			for(size_t k = from; k < y; ++k) if(A.g[k] == x2) has = true;
			REQ(A.v.has(from, to, x2) == has, "has(" << from << "," << to << "," << x2 << ") is " << !has << " for " << vs(A.g));
			bool all = false; for(const T& t : A.g) if(t == x2) all = true;
			REQ(A.v.has(0, z, x2) == all, "has(all," << x2 << ") is " << !all << " for " << vs(A.g));
			c.label("slices"); break; }
		default: {
			if(noDivisor(1, A.g, wideNums)) break;
			NOTE("v" << a << ".do_reciprocal()");
			A.v.do_reciprocal();
			const std::vector<T> got = vec(A.v);
			REQ(got.size() == z, "size after do_reciprocal");
			for(size_t i = 0; i < z; ++i) { const T w = mk<T>(1) / A.g[i]; REQ(close(got[i], w, integral ? 0 : 8 * eps<T>() * mag(w)), "reciprocal of " << A.g[i] << " is " << got[i]); }
			A.g = got; break; }
		}
		for(int k = 0; k < 3; ++k) verify(st[k].v, st[k].g, k == 0 ? "v0" : k == 1 ? "v1" : "v2");
	}
	c.label(arith > 0, "elementwise operation");
	c.nontrivial(steps >= 3 && n > 1 && arith > 0);
}
template<class T> void large(Ctx& c) { const size_t n = c.s.size(200, c.s.coin() ? 2000 : 70000); run<NS::DynamicVector<T> >(c, n, true); }
template<class T> void dynamic(Ctx& c) { const size_t n = c.s.chance(1, 16) ? c.s.size(9, c.s.chance(1, 6) ? 300 : 70) : c.s.small(0, 8); run<NS::DynamicVector<T> >(c, n, true); }
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(6)) {
	case 4: run<NS::FixedVector<T, 9> >(c, 9, false); break;
	case 5: run<NS::FixedVector<T, 20> >(c, 20, false); break;
	case 0: run<NS::FixedVector<T, 1> >(c, 1, false); break;
	case 1: run<NS::FixedVector<T, 2> >(c, 2, false); break;
	case 2: run<NS::FixedVector<T, 3> >(c, 3, false); break;
	default: run<NS::FixedVector<T, 6> >(c, 6, false); break;
	}
}
// Countable sets on their own, and special values
template<class S, class T> void setOf(Ctx& c, S& x, size_t n)
{
	typedef typename Real<T>::type R;
	Src& s = c.s;
	REQ(x.size() == n, "size() is " << x.size());
	for(size_t i = 0; i < n; ++i) REQ(x[i] == mk<T>(0), "new set holds " << x[i]);
	std::vector<T> g(n);
	for(size_t i = 0; i < n; ++i) { g[i] = sval<T>(s, 3); if(s.coin()) x[i] = g[i]; else x.linear_set(i, g[i]); }
	NOTE("set " << vs(g));
	if(std::is_integral<T>::value || !n) return;
	const size_t i = s.raw(n);
	const int kind = (int)s.raw(4);
	const R bad = kind == 0 ? Lim<R>::quiet_NaN() : kind == 1 ? Lim<R>::infinity() : kind == 2 ? -Lim<R>::infinity() : (R)3;
	const T v = Real<T>::cplx && s.coin() ? mk<T>(1, bad) : mk<T>(bad);
	NOTE(v << " at " << i);
	x[i] = v;
	REQ((bool)x.hasNaN() == (kind == 0), "hasNaN() is " << x.hasNaN());
	REQ((bool)x.hasInf() == (kind == 1 || kind == 2), "hasInf() is " << x.hasInf());
	// Any number, parts mixed
	const S old(x);
	g[i] = v;
	for(size_t q = s.raw(4); q > 0; --q) {
		const size_t k = s.raw(n);
		g[k] = anything<T>(s);
		x[k] = g[k];
		bool nan = false, inf = false, zero = false;
		for(const T& t : g) { nan = nan || isNaN(t); inf = inf || isInf(t); zero = zero || t == mk<T>(0); }
		REQ((bool)x.hasNaN() == nan && (bool)x.hasInf() == inf && (bool)x.hasZero() == zero, "hasNaN() is " << x.hasNaN() << ", hasInf() " << x.hasInf() << ", hasZero() " << x.hasZero() << " for " << vs(g));
		c.label(nan && inf, "NaN and infinity");
	}
	x = old;
	S y(x);
	y.fill(mk<T>(2));
	x.swap(y);
	REQ(x.sum() == mk<T>(2.0 * n) && !x.hasZero() && !x.hasNaN() && !x.hasInf(), "swap of sets");
	REQ((bool)y.hasNaN() == (kind == 0), "swap of sets loses values");
	x.do_reciprocal();
	for(size_t k = 0; k < n; ++k) REQ(x[k] == mk<T>(0.5), "reciprocal of 2 is " << x[k]);
	c.nontrivial(n > 1);
}
template<class T> void sets(Ctx& c)
{
	if(c.s.coin()) { const size_t n = c.s.small(0, 7); NS::DynamicCountableSet<T> x(n); setOf<NS::DynamicCountableSet<T>, T>(c, x, n); }
	else { NS::FixedCountableSet<T, 4> x; setOf<NS::FixedCountableSet<T, 4>, T>(c, x, 4); }
}
// The elements of the result are those of the numbers, whatever the numbers are
template<class V> void extremeIn(Ctx& c, size_t n)
{
	typedef typename V::value_type T;
	typedef typename Real<T>::type R;
	typedef Lim<R> L;
	Src& s = c.s;
	const bool spec = !Real<T>::cplx && s.coin();// Complex arithmetic of special values is left to the standard library
	const R list[] = { L::infinity(), -L::infinity(), L::quiet_NaN(), (R)-0.0 };
	std::vector<T> a(n), b(n);
	for(int z = 0; z < 2; ++z) for(T& t : z ? b : a) t = spec && s.chance(1, 3) ? mk<T>(list[s.raw(4)]) : s.chance(1, 5) ? mk<T>(0) : extreme<T>(s);
	const T f = spec && s.chance(1, 3) ? mk<T>(list[s.raw(4)]) : extreme<T>(s);
	NOTE(vs(a) << " and " << vs(b) << " and " << f);
	V A = make<V, T>(a, (V*)NULL), B = make<V, T>(b, (V*)NULL), C(A);
	bool nan = false, inf = false, zero = false, eq = true;
	size_t k = 0;
	for(auto it = A.begin(); it != A.end(); ++it, ++k) REQ(same(*it, a[k]) && same(C[k], a[k]) && same(A.at(k), a[k]), "element " << k << " is " << *it << " instead of " << a[k]);
	REQ(k == n, "walk ends after " << k);
	for(size_t i = 0; i < n; ++i) {
		if(a[i] != a[i]) nan = true;
		if(std::isinf(re(a[i])) || std::isinf(im(a[i]))) inf = true;
		if(a[i] == mk<T>(0)) zero = true;
		if(!(a[i] == b[i])) eq = false;
	}
	REQ((bool)A.hasNaN() == nan && (bool)A.hasInf() == inf && (bool)A.hasZero() == zero, "hasNaN/hasInf/hasZero are " << A.hasNaN() << A.hasInf() << A.hasZero() << " for " << vs(a));
	REQ((A == B) == eq && (A != B) == !eq, "== is " << (A == B) << ", != is " << (A != B) << " for " << vs(a) << " and " << vs(b));
	const V sum = A + B, dif = A - B, pro = A * B, sc = A * f, sl = f * A, sp = A + f, sm = A - f, neg = -A, ma = f - A;
	V s2(A), d2(A), p2(A), c2(A), a2(A), m2(A); s2 += B; d2 -= B; p2 *= B; c2 *= f; a2 += f; m2 -= f;
	for(size_t q = 0; q < n; ++q) {
		const T x = a[q], y = b[q];
#define EL(what, m, w) do { const T pbt_w = w; REQ(same(m[q], pbt_w), what << " of " << x << " and " << y << " (factor " << f << ") is " << m[q] << " instead of " << pbt_w); } while(0)
		EL("+", sum, x + y); EL("-", dif, x - y); EL("*", pro, x * y); EL("scaled", sc, x * f); EL("scaled", sl, x * f); EL("negated", neg, x * mk<T>(-1));
		EL("+=", s2, x + y); EL("-=", d2, x - y); EL("*=", p2, x * y); EL("*=", c2, x * f); EL("+=", a2, x + f); EL("-=", m2, x - f); EL("+", sp, x + f); EL("-", sm, x - f); EL("-", ma, f - x);
	}
	if(!Real<T>::cplx) {// Division by anything
		const V quo = A / B, qs = A / f, qi = f / A;
		V q2(A), q3(A), rec(A); q2 /= B; q3 /= f; rec.do_reciprocal();
		for(size_t q = 0; q < n; ++q) { const T x = a[q], y = b[q]; EL("/", quo, x / y); EL("/=", q2, x / y); EL("/", qs, x / f); EL("/=", q3, x / f); EL("/", qi, f / x); EL("reciprocal", rec, mk<T>(1) / x); }
	}
	if(n && !nan) {
		bool has = false; const T w = s.coin() ? a[s.raw(n)] : extreme<T>(s);
		for(const T& t : a) if(t == w) has = true;
		REQ(A.has(0, n, w) == has, "has(" << w << ") is " << !has << " for " << vs(a));
	}
	c.label(nan, "NaN"); c.label(inf, "infinity");
	c.nontrivial(n > 1);
}
template<class T> void extremes(Ctx& c) { if(c.s.coin()) { const size_t n = c.s.small(0, 7); extremeIn<NS::DynamicVector<T> >(c, n); } else extremeIn<NS::FixedVector<T, 3> >(c, 3); }
}
