// C01: a sparse matrix is a plain grid of numbers under every history of operations
#include "../common.h"
using namespace h;

namespace {
template<class T> struct State { NS::SparseMatrix<T> m; Grid<T> g; };

// Order only exists for real numbers
template<class T> void minmax(const NS::SparseMatrix<T>& m, const Grid<T>& g)
{
	T lo = g.v[0], hi = g.v[0];
	for(T x : g.v) { lo = std::min(lo, x); hi = std::max(hi, x); }
	REQ(m.min() == lo, "min() is " << m.min() << " instead of " << lo);
	REQ(m.max() == hi, "max() is " << m.max() << " instead of " << hi);
}
template<class T> void minmax(const NS::SparseMatrix<std::complex<T> >&, const Grid<std::complex<T> >&) {}

template<class T> void verify(const NS::SparseMatrix<T>& m, const Grid<T>& g, const char* who)
{
	REQ(m.rows() == g.r && m.columns() == g.c, who << ": shape " << m.rows() << "x" << m.columns() << ", expected " << g.r << "x" << g.c);
	REQ(m.size() == g.r * g.c, who << ": size() " << m.size());
	size_t filled = 0;
	T sum = mk<T>(0), trace = mk<T>(0);
	double abs = 0;
	for(size_t i = 0; i < g.r; ++i) {
		size_t rf = 0;
		for(size_t j = 0; j < g.c; ++j) {
			const T& x = g(i, j);
			REQ(m.at(i, j) == x, who << ": at(" << i << "," << j << ") is " << m.at(i, j) << " instead of " << x << " in " << g);
			REQ(m.linear_at(i * g.c + j) == x, who << ": linear_at(" << i * g.c + j << ") is " << m.linear_at(i * g.c + j) << " instead of " << x);
			const bool f = x != mk<T>(0);
			REQ(m.has(i, j) == f, who << ": has(" << i << "," << j << ") is " << m.has(i, j) << " but the value is " << x);
			T got = mk<T>(99);
			REQ(m.has(i, j, got) == f && got == x, who << ": has(" << i << "," << j << ",val) gave " << got << " instead of " << x);
			if(f) { ++filled; ++rf; }
			sum += x; abs += mag(x);
			if(i == j) trace += x;
		}
		REQ(m.row_filled_count(i) == rf, who << ": row_filled_count(" << i << ") is " << m.row_filled_count(i) << " instead of " << rf);
	}
	for(size_t j = 0; j < g.c; ++j) {
		size_t f = 0;
		for(size_t i = 0; i < g.r; ++i) if(g(i, j) != mk<T>(0)) ++f;
		REQ(m.column_filled_count(j) == f, who << ": column_filled_count(" << j << ") is " << m.column_filled_count(j) << " instead of " << f);
	}
	REQ(m.filled_count() == filled, who << ": filled_count() is " << m.filled_count() << " instead of " << filled << " in " << g);
	REQ(m.empty() == (filled == 0), who << ": empty() is " << m.empty());
	REQ(m.has_zero() == (filled != g.v.size()), who << ": has_zero() is " << m.has_zero());
	REQ(!m.has_nan() && !m.has_inf(), who << ": has_nan/has_inf on finite values");
	minmax(m, g);
	if(!(abs < Lim<typename Real<T>::type>::max() / 8)) return;// Sums depend on the order
	const double tol = 4 * eps<T>() * abs + Lim<typename Real<T>::type>::denorm_min();// The order of the summands is free
	REQ(mag(m.sum() - sum) <= tol * g.v.size(), who << ": sum() is " << m.sum() << " instead of " << sum);
	REQ(mag(m.trace() - trace) <= tol * g.v.size(), who << ": trace() is " << m.trace() << " instead of " << trace);
	const T avg = sum / mk<T>((double)g.v.size());
	REQ(mag(m.avg() - avg) <= tol, who << ": avg() is " << m.avg() << " instead of " << avg);
}

template<class T> void run(Ctx& c, bool large)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	size_t r = s.small(1, 7), k = s.small(1, 7);
	const int shape = (int)s.raw(12);
	if(shape == 9) r = 1; else if(shape == 10) k = 1; else if(shape == 11) { r = 10; k = 9; }
	if(s.chance(1, 80)) { r = s.size(1, 36); k = s.size(1, 36); }
	if(large) { r = s.size(30, 300); k = s.size(30, 300); }
	const unsigned zeros = large && !s.chance(1, 6) ? 9 : (unsigned)s.raw(10);
	const bool wideNums = s.chance(1, 4);// Numbers of any magnitude
	const bool ext = wideNums && s.coin();// Numbers from the whole range
	c.label(wideNums, "numbers of any magnitude"); c.label(ext, "numbers of the whole range");
	std::vector<State<T> > st;
	for(int i = 0; i < 3; ++i) {
		size_t rr = r, kk = k;
		if(i == 2 && s.chance(1, 2)) { rr = s.small(1, 5); kk = s.small(1, 5); }
		Grid<T> g = ext ? extremeGrid<T>(s, rr, kk, i == 0 ? 10 : zeros) : wideNums ? wideGrid<T>(s, rr, kk, i == 0 ? 10 : zeros) : genGrid<T>(s, rr, kk, i == 0 ? 10 : zeros);
		st.push_back(State<T>{Make<M>::of(s, g), g});
		NOTE("m" << i << " = " << g);
	}
	const size_t steps = s.size(1, large ? 6 : 20);
	size_t erased = 0, arith = 0;
	for(size_t q = 0; q < steps; ++q) {
		const size_t a = s.raw(3), b = s.raw(3);
		State<T>& A = st[a]; State<T>& B = st[b];
		const bool same = A.g.r == B.g.r && A.g.c == B.g.c;
		const size_t i = s.raw(A.g.r), j = s.raw(A.g.c);
		switch(s.raw(16)) {
		case 0: case 1: case 2: {
			T v = ext ? extreme<T>(s) : wideNums ? wide<T>(s) : nonzero<T>(s); NOTE("m" << a << ".set(" << i << "," << j << "," << v << ")");
			A.m.set(i, j, v); A.g(i, j) = v;
			if(s.chance(1, 8)) {// A value of the matrix itself, by reference
				typename M::iterator it = A.m.begin();
				for(size_t pos = s.raw(A.m.filled_count()); pos--;) ++it;
				const size_t x = s.raw(A.g.r), y = s.raw(A.g.c), fx = it.row(), fy = it.column();
				NOTE("m" << a << ".set(" << x << "," << y << ", entry " << fx << "," << fy << " by reference)");
				REQ(fx < A.g.r && fy < A.g.c, "iterator stands outside");
				A.m.set(x, y, *it);
				A.g(x, y) = A.g(fx, fy);
			}
			break; }
		case 3: {
			NOTE("m" << a << ".set(" << i << "," << j << ",0)");
			if(A.g(i, j) != mk<T>(0)) ++erased;
			A.m.set(i, j, mk<T>(0)); A.g(i, j) = mk<T>(0); break; }
		case 4: {
			T v = sval<T>(s, 3); NOTE("m" << a << ".linear_set(" << i * A.g.c + j << "," << v << ")");
			A.m.linear_set(i * A.g.c + j, v); A.g(i, j) = v; break; }
		case 5: case 6: {// Set or erase by iterator
			const size_t n = A.m.filled_count();
			if(!n) break;
			size_t pos = s.raw(n);
			typename M::iterator it = A.m.begin();
			while(pos--) ++it;
			const size_t x = it.row(), y = it.column();
			REQ(x < A.g.r && y < A.g.c && A.g(x, y) != mk<T>(0), "iterator stands on (" << x << "," << y << "), which holds no entry");
			if(s.coin()) {
				NOTE("m" << a << ".erase(iterator at " << x << "," << y << ")");
				A.m.erase(it); A.g(x, y) = mk<T>(0); ++erased;
			} else {
				T v = sval<T>(s, 4);
				NOTE("m" << a << ".set(iterator at " << x << "," << y << ", " << v << ")");
				A.m.set(it, v); A.g(x, y) = v;
			}
			break; }
		case 7: case 8: case 9: case 10: {
			const int op = (int)s.raw(3);
			const bool bin = s.coin();// Binary operator instead of the assigning one
			NOTE("m" << a << (op == 0 ? " += " : op == 1 ? " -= " : " *= ") << "m" << b << (bin ? "  (binary)" : ""));
			if(!same) {
				c.label("shape mismatch");
				if(bin) {
					if(op == 0) { THROWS(NS::MatrixSizeMismatchException, "operator +", A.m + B.m); }
					else if(op == 1) { THROWS(NS::MatrixSizeMismatchException, "operator -", A.m - B.m); }
					else { THROWS(NS::MatrixSizeMismatchException, "operator *", A.m * B.m); }
				} else {
					if(op == 0) { THROWS(NS::MatrixSizeMismatchException, "operator +=", A.m += B.m); }
					else if(op == 1) { THROWS(NS::MatrixSizeMismatchException, "operator -=", A.m -= B.m); }
					else { THROWS(NS::MatrixSizeMismatchException, "operator *=", A.m *= B.m); }
				}
				break;
			}
			const bool big = wideNums && !std::is_integral<T>::value;
			if(!ext && op == 2 && maxabs(A.g) * maxabs(B.g) > (big ? 1e18 : 1e4)) break;// Keep the numbers small
			if(!ext && op != 2 && maxabs(A.g) + maxabs(B.g) > (big ? 1e18 : 1e5)) break;
			Grid<T> o(A.g);
			for(size_t z = 0; z < o.v.size(); ++z)
				o.v[z] = op == 0 ? A.g.v[z] + B.g.v[z] : op == 1 ? A.g.v[z] - B.g.v[z] : A.g.v[z] * B.g.v[z];
			if(!finite(o)) break;
			++arith;
			c.label(a == b, "operand is the target");
			if(bin) {
				M res = op == 0 ? A.m + B.m : op == 1 ? A.m - B.m : A.m * B.m;
				verify(A.m, A.g, "left operand");
				A.m = res;
			} else {
				M& ref = op == 0 ? (A.m += B.m) : op == 1 ? (A.m -= B.m) : (A.m *= B.m);
				REQ(&ref == &A.m, "assigning operator does not return the matrix");
			}
			A.g = o; break; }
		case 11: {
			const int w = (int)s.raw(Real<T>::cplx ? 7 : 4);
			T f = w == 0 ? mk<T>(2) : w == 1 ? mk<T>(0) : w == 2 ? mk<T>(-1) : w == 3 ? mk<T>(0.5) : w == 4 ? mk<T>(0, s.coin() ? 1 : -1) : w == 5 ? mk<T>(0, 2) : mk<T>(1, 1);
			const int form = (int)s.raw(4);
			typename M::iterator own = A.m.begin();
			bool byOwn = false;
			if(form == 0 && A.m.filled_count() && maxabs(A.g) < (ext ? 1e300 : wideNums && !std::is_integral<T>::value ? 1e9 : 300) && s.chance(1, 4)) {
				for(size_t pos = s.raw(A.m.filled_count()); pos--;) ++own;
				REQ(own.row() < A.g.r && own.column() < A.g.c, "iterator stands outside");
				f = A.g(own.row(), own.column()); byOwn = true;
			}
			NOTE("m" << a << " scaled by " << f << " form " << form);
			if(!ext && (w == 0 || w > 4) && maxabs(A.g) > (wideNums && !std::is_integral<T>::value ? 1e18 : 1e5)) break;
			Grid<T> o(A.g);
			for(T& t : o.v) t *= form == 3 ? mk<T>(-1) : f;
			if(!finite(o)) break;
			if(byOwn) { c.label("scaled by an own entry"); A.m *= *own; } else if(form == 0) A.m *= f;
			else if(form == 1) A.m = A.m * f;
			else if(form == 2) A.m = f * A.m;
			else A.m = -A.m;
			A.g = o;
			break; }
		case 12: {
			NOTE("m" << a << ".swap(m" << b << ")");
			if(a == b) break;
			A.m.swap(B.m); std::swap(A.g, B.g); c.label(!same, "swap of different shapes");
			break; }
		case 13: {
			NOTE("m" << a << " = m" << b);
			assign(s, A.m, B.m); A.g = B.g; break; }
		case 14: {
			NOTE("copy of m" << a << " changed");
			M cp(A.m); T v = nonzero<T>(s);
			cp.set(i, j, v);
			Grid<T> g2(A.g); g2(i, j) = v;
			verify(cp, g2, "copy"); break; }
		case 15: {
			REQ(A.m == A.m && !(A.m != A.m), "matrix is not equal to itself");
			const bool eq = A.g == B.g;
			REQ((A.m == B.m) == eq, "operator == is " << !eq << " for " << A.g << " and " << B.g);
			REQ((A.m != B.m) == !eq, "operator != is " << eq << " for " << A.g << " and " << B.g);
			M other = Make<M>::of(s, A.g);// Same content, other history
			REQ(A.m == other, "two matrices with the content " << A.g << " are not equal");
			other.set(i, j, h::other(s, A.g(i, j)));
			REQ(A.m != other, "matrices are equal but differ at (" << i << "," << j << ")");
			break; }
		}
		for(int z = 0; z < 3; ++z) verify(st[z].m, st[z].g, z == 0 ? "m0" : z == 1 ? "m1" : "m2");
	}
	c.label(erased > 0, "entry removed"); c.label(arith > 0, "elementwise operation");
	c.label(r * k >= 25, "25 cells or more");
	c.nontrivial(steps >= 3 && (erased > 0 || arith > 0));
}

template<class T> void history(Ctx& c) { run<T>(c, false); }
template<class T> void largeHistory(Ctx& c) { run<T>(c, true); }

// Special values are stored and reported like in a grid
template<class T> void special(Ctx& c)
{
	typedef NS::SparseMatrix<T> M;
	typedef typename Real<T>::type R;
	Src& s = c.s;
	const size_t r = s.small(1, 4), k = s.small(1, 4);
	Grid<T> g = genGrid<T>(s, r, k, (unsigned)s.raw(9));
	M m = Make<M>::of(s, g);
	if(s.chance(1, 16)) { NOTE("no cells, and " << g); nothing(m); c.label("no cells"); return; }
	const int kind = (int)s.raw(4);
	const size_t i = s.raw(r), j = s.raw(k);
	const R bad = kind == 0 ? Lim<R>::quiet_NaN() : kind == 1 ? Lim<R>::infinity() : kind == 2 ? -Lim<R>::infinity() : (R)3;
	T v = Real<T>::cplx && s.coin() ? mk<T>(1, bad) : mk<T>(bad, 0);
	NOTE("grid " << g << " with " << v << " at (" << i << "," << j << ")");
	m.set(i, j, v);
	REQ(m.has(i, j), "entry is missing");
	REQ(m.has_nan() == (kind == 0), "has_nan() is " << m.has_nan());
	REQ(m.has_inf() == (kind == 1 || kind == 2), "has_inf() is " << m.has_inf());
	// Any number, parts mixed
	g(i, j) = v;
	for(size_t q = s.raw(4); q > 0; --q) {
		const size_t x = s.raw(r), y = s.raw(k);
		g(x, y) = anything<T>(s);
		m.set(x, y, g(x, y));
		bool nan = false, inf = false;
		for(const T& t : g.v) { nan = nan || isNaN(t); inf = inf || isInf(t); }
		REQ((bool)m.has_nan() == nan && (bool)m.has_inf() == inf, "has_nan() is " << m.has_nan() << " and has_inf() is " << m.has_inf() << " for " << g);
		REQ(m.has(x, y) == (g(x, y) != mk<T>(0)) && h::same(m.at(x, y), g(x, y)), "the cell (" << x << "," << y << ") holds " << m.at(x, y) << " for " << g);
		c.label(nan && inf, "NaN and infinity");
	}
	// Huge sparse matrix with few entries
	size_t n = 200 + s.raw(300), nk = n + 3;
	if(s.chance(1, 10)) { const size_t a = 65530 + s.raw(6000); if(s.coin()) n = a; if(n != a || s.coin()) nk = a; c.label("more than 65000 rows or columns"); }
	M b(n, nk);
	std::map<std::pair<size_t, size_t>, T> ref;
	const size_t ops = s.size(1, 12);
	for(size_t q = 0; q < ops; ++q) {
		size_t x = s.raw(n), y = s.raw(nk);
		if(!ref.empty() && s.chance(1, 3)) { auto it = ref.begin(); std::advance(it, s.raw(ref.size())); x = it->first.first; y = it->first.second; }
		T w = sval<T>(s, 3);
		NOTE("set " << x << "," << y << " of " << n << "x" << nk << " to " << w);
		if(s.coin()) b.set(x, y, w); else b.linear_set(x * nk + y, w);
		if(w == mk<T>(0)) ref.erase(std::make_pair(x, y)); else ref[std::make_pair(x, y)] = w;
	}
	REQ(b.filled_count() == ref.size(), "filled_count() " << b.filled_count() << " instead of " << ref.size());
	REQ(b.rows() == n && b.columns() == nk && b.size() == n * nk, "shape " << b.rows() << "x" << b.columns() << ", size " << b.size());
	auto it = b.begin();
	for(auto& e : ref) {
		REQ(it != b.end() && it.row() == e.first.first && it.column() == e.first.second && *it == e.second, "the walk stands on (" << it.row() << "," << it.column() << ") instead of (" << e.first.first << "," << e.first.second << ")");
		++it;
		REQ(b.linear_at(e.first.first * nk + e.first.second) == e.second && b.has(e.first.first, e.first.second), "entry at (" << e.first.first << "," << e.first.second << ") is lost");
	}
	REQ(it == b.end(), "the walk does not end");
	for(auto& e : ref) REQ(b.at(e.first.first, e.first.second) == e.second, "value at (" << e.first.first << "," << e.first.second << ") is " << b.at(e.first.first, e.first.second));
	c.nontrivial(ref.size() > 1);
}
}
