// C03: dense and fixed matrices are plain grids under elementwise operations
#include "../common.h"
using namespace h;

namespace {
template<class T> struct MinMax {
	template<class M> static void check(const M& m, const Grid<T>& g, const char* who)
	{
		T lo = g.v[0], hi = g.v[0];
		for(T x : g.v) { lo = std::min(lo, x); hi = std::max(hi, x); }
		REQ(m.min() == lo, who << ": min() is " << m.min() << " instead of " << lo << " for " << g);
		REQ(m.max() == hi, who << ": max() is " << m.max() << " instead of " << hi << " for " << g);
	}
};
template<class T> struct MinMax<std::complex<T> > { template<class M, class G> static void check(const M&, const G&, const char*) {} };
template<class T> struct Average {
	static T avg(const Grid<T>& g) { T s = mk<T>(0); for(const T& t : g.v) s += t; return s / mk<T>((double)g.v.size()); }
};

template<class M, class T> void verify(const M& m, const Grid<T>& g, const char* who)
{
	REQ(m.rows() == g.r && m.columns() == g.c && m.size() == g.r * g.c, who << ": shape " << m.rows() << "x" << m.columns() << " size " << m.size() << ", expected " << g.r << "x" << g.c);
	T sum = mk<T>(0), trace = mk<T>(0);
	bool zero = false, empty = true;
	double abs = 0;
	for(size_t i = 0; i < g.r; ++i)
		for(size_t j = 0; j < g.c; ++j) {
			const T& x = g(i, j);
			REQ(m.at(i, j) == x, who << ": at(" << i << "," << j << ") is " << m.at(i, j) << " instead of " << x << " in " << g);
			REQ(m.linear_at(i * g.c + j) == x, who << ": linear_at(" << i * g.c + j << ") is " << m.linear_at(i * g.c + j) << " instead of " << x);
			const bool f = x != mk<T>(0);
			REQ(m.has(i, j) == f, who << ": has(" << i << "," << j << ") is " << m.has(i, j) << " but the value is " << x);
			T got = mk<T>(99);
			REQ(m.has(i, j, got) == f && got == x, who << ": has(" << i << "," << j << ",val) gave " << got << " instead of " << x);
			sum += x; abs += mag(x);
			if(i == j) trace += x;
			if(f) empty = false; else zero = true;
		}
	const double tol = std::is_integral<T>::value ? 0 : 4 * eps<T>() * abs * g.v.size();
	REQ(mag(m.sum() - sum) <= tol, who << ": sum() is " << m.sum() << " instead of " << sum << " for " << g);
	REQ(mag(m.trace() - trace) <= tol, who << ": trace() is " << m.trace() << " instead of " << trace << " for " << g);
	const T avg = sum / mk<T>((double)g.v.size());
	REQ(mag(m.avg() - avg) <= tol, who << ": avg() is " << m.avg() << " instead of " << avg << " for " << g);
	REQ(m.has_zero() == zero, who << ": has_zero() is " << m.has_zero() << " for " << g);
	REQ(m.empty() == empty, who << ": empty() is " << m.empty() << " for " << g);
	REQ(!m.has_nan() && !m.has_inf(), who << ": has_nan/has_inf on finite values");
	MinMax<T>::check(m, g, who);
}

template<class M, class T> void equality(const M& a, const Grid<T>& ga, const M& b, const Grid<T>& gb)
{
	if(ga.r != gb.r || ga.c != gb.c) {// Different shapes are refused
		THROWS(NS::MatrixSizeMismatchException, "operator ==", a == b);
		THROWS(NS::MatrixSizeMismatchException, "operator !=", a != b);
		return;
	}
	const bool eq = ga == gb;
	REQ((a == b) == eq, "operator == is " << !eq << " for " << ga << " and " << gb);
	REQ((a != b) == !eq, "operator != is " << eq << " for " << ga << " and " << gb);
}

// Dense takes fixed operands of the same shape as well
template<class T> bool mixed(Ctx& c, NS::DenseMatrix<T>& m, Grid<T>& g)
{
	typedef NS::FixedMatrix<T, 2, 3> F;
	Src& s = c.s;
	Grid<T> o = genGrid<T>(s, 2, 3, 3);
	F f = Make<F>::plain(o);
	const int op = (int)s.raw(3);
	NOTE("fixed operand " << o << " op " << op);
	if(g.r != 2 || g.c != 3) {
		if(op == 0) THROWS(NS::MatrixSizeMismatchException, "dense += fixed", m += f);
		else if(op == 1) THROWS(NS::MatrixSizeMismatchException, "dense -= fixed", m -= f);
		else THROWS(NS::MatrixSizeMismatchException, "dense *= fixed", m *= f);
		return true;
	}
	if(maxabs(g) > 1e4) return true;
	if(op == 0) m += f; else if(op == 1) m -= f; else m *= f;
	for(size_t z = 0; z < g.v.size(); ++z)
		g.v[z] = op == 0 ? g.v[z] + o.v[z] : op == 1 ? g.v[z] - o.v[z] : g.v[z] * o.v[z];
	c.label("dense with fixed operand");
	return true;
}
template<class T, NS::Dimension A, NS::Dimension B> bool mixed(Ctx&, NS::FixedMatrix<T, A, B>&, Grid<T>&) { return true; }

template<class M> struct State { typedef typename M::value_type T; M m; Grid<T> g; };

template<class M> void run(Ctx& c, size_t r, size_t k, bool dynamic, size_t most = 14)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	std::vector<State<M> > st;
	const unsigned zeros = (unsigned)s.raw(8);
	const bool wideNums = s.chance(1, 4);// Numbers of any magnitude
	const double cap = wideNums && !std::is_integral<T>::value ? 1e18 : 1e4;
	c.label(wideNums, "numbers of any magnitude");
	for(int i = 0; i < 3; ++i) {
		size_t rr = r, kk = k;
		if(dynamic && i == 2 && s.coin()) { rr = s.small(1, 5); kk = s.small(1, 5); if(s.coin()) { rr = k; kk = r; } }
		Grid<T> g = i == 0 && s.coin() ? Grid<T>(rr, kk) : wideNums ? wideGrid<T>(s, rr, kk, zeros) : genGrid<T>(s, rr, kk, zeros);
		if(s.chance(1, 6)) { for(T& t : g.v) t = mk<T>(-mag(t) - (wideNums ? 0.0 : 1.0)); c.label("only negative values"); }
		bool z = true; for(T t : g.v) if(t != mk<T>(0)) z = false;
		st.push_back(State<M>{z ? (dynamic ? Make<M>::zero(rr, kk) : M()) : Make<M>::of(s, g), g});
		NOTE("m" << i << " = " << g);
	}
	const size_t steps = s.size(1, most);
	size_t arith = 0;
	for(size_t q = 0; q < steps; ++q) {
		const size_t a = s.raw(3), b = s.raw(3);
		State<M>& A = st[a]; State<M>& B = st[b];
		const bool same = A.g.r == B.g.r && A.g.c == B.g.c;
		const size_t i = s.raw(A.g.r), j = s.raw(A.g.c);
		switch(s.raw(12)) {
		case 0: { T v = wideNums ? wide<T>(s) : val<T>(s); NOTE("m" << a << ".set(" << i << "," << j << "," << v << ")"); A.m.set(i, j, v); A.g(i, j) = v; break; }
		case 1: { T v = wideNums ? wide<T>(s) : val<T>(s); NOTE("m" << a << ".linear_set(" << i * A.g.c + j << "," << v << ")"); A.m.linear_set(i * A.g.c + j, v); A.g(i, j) = v; break; }
		case 2: case 3: case 4: case 5: {
			const int op = (int)s.raw(3);
			const bool bin = s.coin();
			NOTE("m" << a << (op == 0 ? " += " : op == 1 ? " -= " : " *= ") << "m" << b << (bin ? "  (binary)" : ""));
			if(!same) {
				c.label("shape mismatch");
				if(bin) {
					if(op == 0) THROWS(NS::MatrixSizeMismatchException, "operator +", A.m + B.m);
					else if(op == 1) THROWS(NS::MatrixSizeMismatchException, "operator -", A.m - B.m);
					else THROWS(NS::MatrixSizeMismatchException, "operator *", A.m * B.m);
				} else {
					if(op == 0) THROWS(NS::MatrixSizeMismatchException, "operator +=", A.m += B.m);
					else if(op == 1) THROWS(NS::MatrixSizeMismatchException, "operator -=", A.m -= B.m);
					else THROWS(NS::MatrixSizeMismatchException, "operator *=", A.m *= B.m);
				}
				break;
			}
			if(op == 2 && maxabs(A.g) * maxabs(B.g) > cap) break;
			if(maxabs(A.g) + maxabs(B.g) > 10 * cap) break;
			++arith;
			c.label(a == b, "operand is the target");
			Grid<T> o(A.g);
			for(size_t z = 0; z < o.v.size(); ++z)
				o.v[z] = op == 0 ? A.g.v[z] + B.g.v[z] : op == 1 ? A.g.v[z] - B.g.v[z] : A.g.v[z] * B.g.v[z];
			if(bin) {
				M res = op == 0 ? A.m + B.m : op == 1 ? A.m - B.m : A.m * B.m;
				verify(A.m, A.g, "left operand");
				verify(B.m, B.g, "right operand");
				verify(res, o, "result");
				A.m = res;
			} else {
				M& ref = op == 0 ? (A.m += B.m) : op == 1 ? (A.m -= B.m) : (A.m *= B.m);
				REQ(&ref == &A.m, "assigning operator does not return the matrix");
			}
			A.g = o; break; }
		case 6: {
			const int w = (int)s.raw(Real<T>::cplx ? 5 : 4);
			T f = w == 0 ? mk<T>(2) : w == 1 ? mk<T>(0) : w == 2 ? mk<T>(-1) : w == 4 ? mk<T>(0, s.coin() ? 1 : -1) : mk<T>(std::is_integral<T>::value ? 3 : 0.5, std::is_integral<T>::value ? 0 : 0.5);
			const int form = (int)s.raw(4);
			NOTE("m" << a << " scaled by " << f << " form " << form);
			if(maxabs(A.g) > cap) break;
			if(form == 0 && maxabs(A.g) < (cap > 1e5 ? 1e9 : 100) && s.chance(1, 4)) {// By one of the own entries
				const size_t x = s.raw(A.g.r), y = s.raw(A.g.c);
				NOTE("by the entry " << x << "," << y << " itself");
				typename M::iterator it = A.m.begin();
				while(it.row() != x || it.column() != y) ++it;
				f = A.g(x, y);
				A.m *= *it;
				c.label("scaled by an own entry");
			} else if(form == 0) { M& ref = (A.m *= f); REQ(&ref == &A.m, "assigning operator does not return the matrix"); }
			else if(form == 1) A.m = A.m * f;
			else if(form == 2) A.m = f * A.m;
			else { M neg = -A.m; verify(A.m, A.g, "operand of negation"); A.m = neg; f = mk<T>(-1); }
			for(T& t : A.g.v) t *= f;
			break; }
		case 7: {
			NOTE("m" << a << ".swap(m" << b << ")");
			if(a == b) break;
			A.m.swap(B.m); std::swap(A.g, B.g); c.label(!same, "swap of different shapes"); break; }
		case 8: { NOTE("m" << a << " = m" << b); assign(s, A.m, B.m); A.g = B.g; break; }
		case 9: {
			NOTE("copy of m" << a << " changed");
			M cp(A.m); T v = nonzero<T>(s); cp.set(i, j, v);
			Grid<T> g2(A.g); g2(i, j) = v;
			verify(cp, g2, "copy"); break; }
		case 10: {
			equality(A.m, A.g, B.m, B.g);
			M other = Make<M>::plain(A.g);
			equality(A.m, A.g, other, A.g);
			Grid<T> g2(A.g); g2(i, j) = h::other(s, A.g(i, j)); other.set(i, j, g2(i, j));
			equality(A.m, A.g, other, g2);
			break; }
		case 11: mixed(c, A.m, A.g); break;
		}
		for(int z = 0; z < 3; ++z) verify(st[z].m, st[z].g, z == 0 ? "m0" : z == 1 ? "m1" : "m2");
	}
	c.label(arith > 0, "elementwise operation");
	c.nontrivial(steps >= 3 && arith > 0 && r * k > 1);
}
template<class T> void dense(Ctx& c)
{
	Src& s = c.s;
	size_t r = s.small(1, 7), k = s.small(1, 7);
	const int shape = (int)s.raw(10);
	if(shape == 6) { r = s.size(1, 13); k = s.size(1, 13); if(s.chance(1, 8)) { if(s.coin()) r = s.size(13, 80); else k = s.size(13, 80); } } else if(shape == 7) { r = 2; k = 3; } else if(shape == 8) r = 1; else if(shape == 9) k = 1;
	run<NS::DenseMatrix<T> >(c, r, k, true);
}
template<class T> void large(Ctx& c)
{
	Src& s = c.s;
	size_t r = s.size(20, 300), k = s.size(20, 300);
	if(s.chance(1, 4)) { r = s.size(1, 3); k = s.size(250, 70000); if(s.coin()) std::swap(r, k); }
	run<NS::DenseMatrix<T> >(c, r, k, true, 5);
}
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(7)) {
	case 5: run<NS::FixedMatrix<T, 6, 6> >(c, 6, 6, false); break;
	case 6: run<NS::FixedMatrix<T, 9, 2> >(c, 9, 2, false); break;
	case 0: run<NS::FixedMatrix<T, 1, 1> >(c, 1, 1, false); break;
	case 1: run<NS::FixedMatrix<T, 1, 4> >(c, 1, 4, false); break;
	case 2: run<NS::FixedMatrix<T, 3, 2> >(c, 3, 2, false); break;
	case 3: run<NS::FixedMatrix<T, 2, 5> >(c, 2, 5, false); break;
	default: run<NS::FixedMatrix<T, 3, 3> >(c, 3, 3, false); break;
	}
}

template<class M, class T> struct Ext { static T max(const M& m) { return m.max(); } static T min(const M& m) { return m.min(); } };
template<class M, class T> struct Ext<M, std::complex<T> > { static std::complex<T> max(const M&) { return 0; } static std::complex<T> min(const M&) { return 0; } };

// NaN and infinity are stored and found wherever they are
template<class M> void specialIn(Ctx& c, size_t r, size_t k)
{
	typedef typename M::value_type T;
	typedef typename Real<T>::type R;
	Src& s = c.s;
	Grid<T> g = genGrid<T>(s, r, k, 3);
	M m = Make<M>::of(s, g);
	const int kind = (int)s.raw(4);
	const R bad = kind == 0 ? Lim<R>::quiet_NaN() : kind == 1 ? Lim<R>::infinity() : kind == 2 ? -Lim<R>::infinity() : (R)3;
	const size_t i = s.raw(r), j = s.raw(k);
	T v = Real<T>::cplx && s.coin() ? mk<T>(1, bad) : mk<T>(bad, 0);
	NOTE(g << " with " << v << " at " << i << "," << j);
	m.set(i, j, v);
	REQ((bool)m.has_nan() == (kind == 0), "has_nan() is " << m.has_nan());
	REQ((bool)m.has_inf() == (kind == 1 || kind == 2), "has_inf() is " << m.has_inf());
	REQ(kind == 0 ? m.at(i, j) != m.at(i, j) : m.at(i, j) == v, "value is " << m.at(i, j));
	if(kind == 1 && !Real<T>::cplx) { REQ((Ext<M, T>::max(m)) == v, "max() is not infinity"); }
	if(kind == 2 && !Real<T>::cplx) { REQ((Ext<M, T>::min(m)) == v, "min() is not -infinity"); }
	// Any number, parts mixed
	g(i, j) = v;
	for(size_t q = s.raw(4); q > 0; --q) {
		const size_t x = s.raw(r), y = s.raw(k);
		g(x, y) = anything<T>(s);
		m.set(x, y, g(x, y));
		bool nan = false, inf = false;
		for(const T& t : g.v) { nan = nan || isNaN(t); inf = inf || isInf(t); }
		REQ((bool)m.has_nan() == nan && (bool)m.has_inf() == inf, "has_nan() is " << m.has_nan() << " and has_inf() is " << m.has_inf() << " for " << g);
		REQ(same(m.at(x, y), g(x, y)), "the cell (" << x << "," << y << ") holds " << m.at(x, y) << " for " << g);
		c.label(nan && inf, "NaN and infinity");
	}
	c.nontrivial(r * k > 1);
}
// The elements of the result are those of the numbers, whatever the numbers are
template<class M> void extremeIn(Ctx& c, size_t r, size_t k)
{
	typedef typename M::value_type T;
	typedef typename Real<T>::type R;
	typedef Lim<R> L;
	Src& s = c.s;
	const R list[] = { 0, 1, -1, L::epsilon(), L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::quiet_NaN(), (R)-0.0, (R)1.1, (R)-1e-9 };
	const size_t cnt = Real<T>::cplx ? 7 : 15;// Complex arithmetic of special values is left to the standard library
	Grid<T> a(r, k), b(r, k);
	for(T& t : a.v) t = mk<T>(list[s.raw(cnt)], Real<T>::cplx ? list[s.raw(cnt)] : 0);
	for(T& t : b.v) t = mk<T>(list[s.raw(cnt)], Real<T>::cplx ? list[s.raw(cnt)] : 0);
	const T f = mk<T>(list[s.raw(cnt)]);
	NOTE(a << " and " << b << " and " << f);
	M A = Make<M>::plain(a), B = Make<M>::plain(b), C(A);
	bool nan = false, inf = false, zero = false, empty = true;
	for(size_t q = 0; q < a.v.size(); ++q) {
		const T& x = a.v[q];
		REQ(same(A.linear_at(q), x) && same(C.linear_at(q), x), "element " << q << " is " << A.linear_at(q) << ", in the copy " << C.linear_at(q) << " instead of " << x);
		REQ(A.has(q / k, q % k) == (x != mk<T>(0)), "has() of " << x << " is " << A.has(q / k, q % k));
		if(x != x) nan = true;
		if(std::isinf(re(x)) || std::isinf(im(x))) inf = true;
		if(x == mk<T>(0)) zero = true; else empty = false;
	}
	REQ((bool)A.has_nan() == nan && (bool)A.has_inf() == inf && (bool)A.has_zero() == zero && (bool)A.empty() == empty, "has_nan/has_inf/has_zero/empty are "
		<< (bool)A.has_nan() << (bool)A.has_inf() << (bool)A.has_zero() << (bool)A.empty() << " instead of " << nan << inf << zero << empty << " for " << a);
	M sum = A + B, dif = A - B, pro = A * B, sc = A * f, sl = f * A, neg = -A;
	M s2(A), d2(A), p2(A), c2(A);
	s2 += B; d2 -= B; p2 *= B; c2 *= f;
	bool eq = true;
	for(size_t q = 0; q < a.v.size(); ++q) {
		const T x = a.v[q], y = b.v[q];
		if(!(x == y)) eq = false;
#define EL(what, m, w) do { const T pbt_w = w; REQ(same(m.linear_at(q), pbt_w), what << " of " << x << " and " << y << " (factor " << f << ") is " << m.linear_at(q) << " instead of " << pbt_w); } while(0)
		EL("+", sum, x + y); EL("-", dif, x - y); EL("*", pro, x * y); EL("scaled", sc, x * f); EL("scaled", sl, x * f); EL("negated", neg, x * mk<T>(-1));
		EL("+=", s2, x + y); EL("-=", d2, x - y); EL("*=", p2, x * y); EL("scaled", c2, x * f);
	}
	REQ((A == B) == eq && (A != B) == !eq, "== is " << (A == B) << ", != is " << (A != B) << " for " << a << " and " << b);
	c.label(nan, "NaN"); c.label(inf, "infinity");
	c.nontrivial(r * k > 1);
}
template<class T> void extremes(Ctx& c)
{
	if(c.s.coin()) { size_t r = c.s.small(1, 6), k = c.s.small(1, 6); extremeIn<NS::DenseMatrix<T> >(c, r, k); }
	else if(c.s.coin()) extremeIn<NS::FixedMatrix<T, 2, 3> >(c, 2, 3);
	else extremeIn<NS::FixedMatrix<T, 3, 3> >(c, 3, 3);
}
template<class T> void special(Ctx& c)
{
	if(c.s.coin()) {
		size_t r = c.s.small(1, 5), k = c.s.small(1, 5);
		if(c.s.chance(1, 8)) { Grid<T> g = genGrid<T>(c.s, r, k, 3); NOTE("no cells, and " << g); nothing(Make<NS::DenseMatrix<T> >::plain(g)); c.label("no cells"); return; }
		specialIn<NS::DenseMatrix<T> >(c, r, k);
	} else if(c.s.coin()) specialIn<NS::FixedMatrix<T, 2, 3> >(c, 2, 3);
	else specialIn<NS::FixedMatrix<T, 3, 3> >(c, 3, 3);
}
}
