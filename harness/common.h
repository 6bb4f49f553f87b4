// Shared generators and reference models
#pragma once
#include "pbt.h"

#include "nsConfig.h"
#include "Types.h"
#include "Exceptions.h"
#include "Vector.h"
#include "matrix/Matrix.h"

#include <algorithm>
#include <limits>
#include <string>

using pbt::Ctx;
using pbt::Src;

namespace h {

typedef std::complex<double> cd;
typedef std::complex<float> cf;

template<class T> struct TN;
template<> struct TN<float> { static const char* n() { return "float"; } };
template<> struct TN<double> { static const char* n() { return "double"; } };
typedef std::complex<long double> cl;
template<> struct TN<long double> { static const char* n() { return "long double"; } };
template<> struct TN<cl> { static const char* n() { return "complex<long double>"; } };
template<> struct TN<int> { static const char* n() { return "int"; } };
template<> struct TN<cd> { static const char* n() { return "complex<double>"; } };
template<> struct TN<cf> { static const char* n() { return "complex<float>"; } };

template<class T> struct Real { typedef T type; static const bool cplx = false; };
template<class T> struct Real<std::complex<T> > { typedef T type; static const bool cplx = true; };

// Numbers of the kind R as far as the checks use them: these calculate in double
template<class R> struct Lim : std::numeric_limits<R> { typedef R type; };
template<> struct Lim<long double> : std::numeric_limits<double> { typedef double type; };

// Build a number from real and imaginary part
template<class T> struct Mk { static T mk(double re, double) { return (T)re; } };
template<class T> struct Mk<std::complex<T> > { static std::complex<T> mk(double re, double im) { return std::complex<T>((T)re, (T)im); } };
template<class T> T mk(double re, double im = 0) { return Mk<T>::mk(re, im); }

template<class T> T cj(const T& t) { return t; }
template<class T> std::complex<T> cj(const std::complex<T>& t) { return std::complex<T>(t.real(), -t.imag()); }
template<class T> double re(const T& t) { return (double)t; }
template<class T> double re(const std::complex<T>& t) { return (double)t.real(); }
template<class T> double im(const T&) { return 0; }
template<class T> double im(const std::complex<T>& t) { return (double)t.imag(); }
template<class T> double mag(const T& t) { return std::hypot(re(t), im(t)); }

// A dyadic number, small enough that sums of products stay exact even in float
template<class T> T val(Src& s)
{
	double r = 0, i = 0;
	if(std::is_integral<T>::value) return mk<T>((double)s.num(9));
	switch(s.raw(4)) {
	case 0: r = (double)s.num(3); break;
	case 1: r = (double)s.num(20); break;
	case 2: r = (double)s.num(32) / 4; break;
	default: r = (double)s.num(9) / 2; break;
	}
	if(Real<T>::cplx && !s.chance(1, 3)) i = (double)s.num(8) / 2;
	return mk<T>(r, i);
}
template<class T> T nonzero(Src& s)
{
	T v = val<T>(s);
	return v == mk<T>(0) ? mk<T>(1) : v;
}
// Zero with probability z/10
template<class T> T sval(Src& s, unsigned z)
{
	if(!s.chance(10 - z, 10)) return mk<T>(0);
	return nonzero<T>(s);
}

// Multiplied by a power of two, which is exact
template<class T> struct Ldexp { static T f(const T& x, int e) { return std::is_integral<T>::value ? x : (T)std::ldexp((double)x, e); } };
template<class T> struct Ldexp<std::complex<T> > { static std::complex<T> f(const std::complex<T>& x, int e) { return std::complex<T>((T)std::ldexp((double)x.real(), e), (T)std::ldexp((double)x.imag(), e)); } };
template<class T> T sh(const T& x, int e) { return Ldexp<T>::f(x, e); }
// Exponent of a common factor of all numbers of an operand: usually none
inline int scaleExp(Src& s, int lim) { return s.chance(1, 4) ? (int)s.num(lim) : 0; }
// A nonzero number of any magnitude
template<class T> T wide(Src& s)
{
	T v = nonzero<T>(s);
	if(std::is_integral<T>::value) return v * mk<T>((double)(1 + s.raw(900)));
	const int k = (int)s.raw(4);
	if(k == 0) return v;
	if(k == 1) return sh(v, (int)s.num(45));
	// Many digits
	const double f = 1 + (double)s.raw(1u << 20) / (1u << 20);
	return sh(mk<T>(re(v) * f, im(v) * f), k == 2 ? 0 : (int)s.num(30));
}

// A nonzero finite number from the whole range of the type
template<class T> T extreme(Src& s)
{
	typedef typename Real<T>::type R;
	if(std::is_integral<T>::value) return wide<T>(s);
	const double list[] = {1, Lim<R>::max(), Lim<R>::min(), Lim<R>::denorm_min(), Lim<R>::epsilon()};
	double p[2] = {0, 0};
	for(int q = 0; q < (Real<T>::cplx ? 2 : 1); ++q) {
		const int k = (int)s.raw(8);
		if(k < 5) p[q] = list[k];
		else if(k == 5) p[q] = std::ldexp(1 + (double)s.raw(1u << 20) / (1u << 20), (int)s.num(Lim<R>::max_exponent - 3));
		else if(q == 0) p[q] = re(wide<T>(s));
		if(s.coin()) p[q] = -p[q];
	}
	if(s.chance(1, 4)) std::swap(p[0], p[1]);
	if((R)p[0] == 0 && (!Real<T>::cplx || (R)p[1] == 0)) return mk<T>(1);
	if(!Real<T>::cplx && p[0] == 0) return mk<T>(1);
	return mk<T>(p[0], p[1]);
}
template<class T> bool same(const T& a, const T& b) { return a == b || (a != a && b != b); }
// Any number there is: special values in either part
template<class T> T anything(Src& s)
{
	typedef typename Real<T>::type R;
	typedef Lim<R> L;
	double p[2] = {0, 0};
	for(int q = 0; q < (Real<T>::cplx ? 2 : 1); ++q) {
		const int k = (int)s.raw(10);
		p[q] = k == 0 ? L::quiet_NaN() : k == 1 ? L::infinity() : k == 2 ? -L::infinity() : k == 3 ? L::max() : k == 4 ? (double)L::min() : k == 5 ? 0.0 : k == 6 ? (double)L::lowest() : (double)s.num(9);
	}
	return mk<T>(p[0], p[1]);
}
template<class T> bool isNaN(const T& x) { return std::isnan(re(x)) || std::isnan(im(x)); }
template<class T> bool isInf(const T& x) { return std::isinf(re(x)) || std::isinf(im(x)); }
template<class T> bool finite(const T& x) { return std::isfinite(re(x)) && std::isfinite(im(x)); }

// Another number, which may be as close as possible
template<class T> T other(Src& s, const T& x)
{
	const int k = (int)s.raw(4);
	if(k == 0 || std::is_integral<T>::value) return x == mk<T>(1) ? mk<T>(2) : mk<T>(1);
	if(k == 1) return x == mk<T>(0) ? mk<T>(1) : mk<T>(0);
	typedef typename Lim<typename Real<T>::type>::type R;
	const R inf = Lim<R>::infinity(), max = Lim<R>::max();
	if(k == 2 && Real<T>::cplx) return mk<T>(re(x), std::nextafter((R)im(x), im(x) == max ? -inf : inf));
	return mk<T>(std::nextafter((R)re(x), re(x) == -max || (re(x) != max && s.coin()) ? inf : -inf), im(x));
}

// Dimension: rarely a big one
inline size_t dim(Src& s, size_t lo, size_t hi, size_t big)
{
	const size_t w = (size_t)s.raw(192);
	return w == 191 ? s.size(big, 5 * big / 2) : w >= 180 ? s.size(hi + 1, big) : s.size(lo, hi);
}

// Plain row major grid
template<class T> struct Grid {
	size_t r, c;
	std::vector<T> v;
	Grid() : r(0), c(0) {}
	Grid(size_t r_, size_t c_) : r(r_), c(c_), v(r_ * c_, mk<T>(0)) {}
	T& operator()(size_t i, size_t j) { return v[i * c + j]; }
	const T& operator()(size_t i, size_t j) const { return v[i * c + j]; }
	// A NaN is the same as a NaN
	bool operator==(const Grid& o) const
	{
		if(r != o.r || c != o.c) return false;
		for(size_t k = 0; k < v.size(); ++k) if(!same(v[k], o.v[k])) return false;
		return true;
	}
};

template<class T> std::ostream& operator<<(std::ostream& o, const Grid<T>& g)
{
	o << g.r << "x" << g.c << "{";
	for(size_t i = 0; i < g.r; ++i) {
		o << (i ? "; " : "");
		for(size_t j = 0; j < g.c; ++j) o << (j ? " " : "") << g(i, j);
	}
	return o << "}";
}
template<class T> std::string vs(const std::vector<T>& v)
{
	std::ostringstream o; o.precision(17); o << "[";
	for(size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
	o << "]";
	return o.str();
}

template<class T> Grid<T> genGrid(Src& s, size_t r, size_t c, unsigned zeros)
{
	if(r * c > 2000 && s.recorded()) { Src b = s.bulk(); return genGrid<T>(b, r, c, zeros); }
	Grid<T> g(r, c);
	for(size_t k = 0; k < g.v.size(); ++k) g.v[k] = sval<T>(s, zeros);
	return g;
}
template<class T> Grid<T> wideGrid(Src& s, size_t r, size_t c, unsigned zeros)
{
	if(r * c > 2000 && s.recorded()) { Src b = s.bulk(); return wideGrid<T>(b, r, c, zeros); }
	Grid<T> g(r, c);
	for(size_t k = 0; k < g.v.size(); ++k) g.v[k] = s.chance(10 - zeros, 10) ? wide<T>(s) : mk<T>(0);
	return g;
}
template<class T> Grid<T> extremeGrid(Src& s, size_t r, size_t c, unsigned zeros)
{
	if(r * c > 2000 && s.recorded()) { Src b = s.bulk(); return extremeGrid<T>(b, r, c, zeros); }
	Grid<T> g(r, c);
	for(size_t k = 0; k < g.v.size(); ++k) g.v[k] = s.chance(10 - zeros, 10) ? extreme<T>(s) : mk<T>(0);
	return g;
}
// Numbers of any kind, for code which only moves them
// With infinities and NaN: for what only moves numbers
template<class T> Grid<T> specialGrid(Src& s, size_t r, size_t c, unsigned zeros)
{
	if(r * c > 2000 && s.recorded()) { Src b = s.bulk(); return specialGrid<T>(b, r, c, zeros); }
	Grid<T> g(r, c);
	if(std::is_integral<T>::value) return genGrid<T>(s, r, c, zeros);
	for(size_t k = 0; k < g.v.size(); ++k) g.v[k] = s.chance(10 - zeros, 10) ? anything<T>(s) : mk<T>(0);
	return g;
}
template<class T> Grid<T> anyGrid(Src& s, size_t r, size_t c, unsigned zeros)
{
	switch(s.raw(3)) {
	case 0: return genGrid<T>(s, r, c, zeros);
	case 1: return wideGrid<T>(s, r, c, zeros);
	default: return extremeGrid<T>(s, r, c, zeros);
	}
}
template<class T> bool finite(const Grid<T>& g) { for(const T& x : g.v) if(!finite(x)) return false; return true; }
template<class T> Grid<T> sh(const Grid<T>& g, int e)
{
	Grid<T> r(g);
	for(T& t : r.v) t = sh(t, e);
	return r;
}

// Reads every cell of any matrix (or the wrapper of a fixed one)
template<class M> Grid<typename M::value_type> grid(const M& m)
{
	Grid<typename M::value_type> g(m.rows(), m.columns());
	for(size_t i = 0; i < g.r; ++i)
		for(size_t j = 0; j < g.c; ++j) g(i, j) = m.at(i, j);
	return g;
}
template<class V> std::vector<typename V::value_type> vec(const V& v)
{
	std::vector<typename V::value_type> r(v.size());
	for(size_t i = 0; i < r.size(); ++i) r[i] = v.at(i);
	return r;
}

// A list in braces whose length is known at run time: the layout is the one of libstdc++ and libc++
template<class E> std::initializer_list<E> listOf(const std::vector<E>& v)
{
	const struct { const E* begin; size_t size; } data = {v.data(), v.size()};
	std::initializer_list<E> r;
	static_assert(sizeof r == sizeof data, "layout of lists");
	memcpy(static_cast<void*>(&r), &data, sizeof r);
	if(r.begin() != v.data() || r.size() != v.size()) std::abort();
	return r;
}

template<class M, class T> M fromLists(const Grid<T>& g)
{
	std::vector<std::vector<T> > row(g.r);
	std::vector<std::initializer_list<T> > l;
	for(size_t i = 0; i < g.r; ++i) { row[i].assign(g.v.begin() + (long)(i * g.c), g.v.begin() + (long)((i + 1) * g.c)); l.push_back(listOf(row[i])); }
	return M(listOf(l));
}
// How to make a matrix of each kind. Sparse matrices are filled in a random order
// and with entries which are removed again.
template<class M> struct Make;
template<class T> struct Make<NS::SparseMatrix<T> > {
	typedef NS::SparseMatrix<T> M;
	static const char* n() { return "Sparse"; }
	static M zero(size_t r, size_t c) { return M(r, c); }
	static M of(Src& s, const Grid<T>& g)
	{
		if(g.v.size() > 2000 && s.recorded()) { Src b = s.bulk(); return of(b, g); }
		const int way = (int)s.raw(8);
		if(way == 7 && g.v.size() < 2000) return fromLists<M>(g);
		M m(g.r, g.c, way % 3 == 2 ? g.r * g.c : 0);
		bool shuffle = s.coin();
		if(g.v.size() > 2000) shuffle = shuffle && (size_t)std::count(g.v.begin(), g.v.end(), mk<T>(0)) + 12000 > g.v.size();// Insertion is slow
		std::vector<size_t> p;
		if(shuffle) p = s.perm(g.v.size());
		for(size_t k = 0; k < g.v.size(); ++k) {
			const size_t q = shuffle ? p[k] : k;
			if(shuffle && s.raw(8) == 7) {// Noise
				size_t x = s.raw(g.v.size());
				if(g.v[x] == mk<T>(0)) { m.set(x / g.c, x % g.c, mk<T>(7)); m.set(x / g.c, x % g.c, mk<T>(0)); }
			}
			if(g.v[q] != mk<T>(0)) m.set(q / g.c, q % g.c, g.v[q]);
		}
		return m;
	}
	static M plain(const Grid<T>& g)
	{
		M m(g.r, g.c);
		for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) if(g(i, j) != mk<T>(0)) m.set(i, j, g(i, j));
		return m;
	}
};
template<class T> struct Make<NS::DenseMatrix<T> > {
	typedef NS::DenseMatrix<T> M;
	static const char* n() { return "Dense"; }
	static M zero(size_t r, size_t c) { return M(r, c); }
	static M plain(const Grid<T>& g)
	{
		M m(g.r, g.c);
		for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) m.set(i, j, g(i, j));
		return m;
	}
	static M of(Src& s, const Grid<T>& g) { return g.v.size() < 2000 && s.raw(8) == 7 ? fromLists<M>(g) : plain(g); }
};
template<class T, NS::Dimension K1, NS::Dimension K2> struct Make<NS::FixedMatrix<T, K1, K2> > {
	typedef NS::FixedMatrix<T, K1, K2> M;
	static const char* n() { return "Fixed"; }
	static M zero(size_t, size_t) { return plain(Grid<T>(K1, K2)); }
	static M plain(const Grid<T>& g)
	{
		M m;
		for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) m.set(i, j, g(i, j));
		return m;
	}
	static M of(Src& s, const Grid<T>& g) { return g.v.size() < 2000 && s.raw(8) == 7 ? fromLists<M>(g) : plain(g); }
};

template<class T> NS::DynamicVector<T> dyn(const std::vector<T>& v)
{
	NS::DynamicVector<T> d(v.size());
	for(size_t i = 0; i < v.size(); ++i) d.set(i, v[i]);
	return d;
}

// The ways a value gets from one object to another. Only "to" changes
template<class M> void assign(Src& s, M& to, const M& from)
{
	switch(s.raw(8)) {
	default: to = from; break;
	case 3: { M d; d = from; to = d; break; }// By an object that held nothing
	case 4: { M t(from); to = std::move(t); t = from; M u(t); to = u; break; }// Moved from and filled again
	case 5: { M t(from), u(std::move(t)); to = u; break; }
	case 6: { std::vector<M> v; for(int k = 0; k < 3; ++k) v.push_back(k == 1 ? from : to); v.erase(v.begin()); to = v[0]; break; }
	case 7: { M t(from); std::swap(to, t); t = M(); break; }
	}
}

// A matrix without cells and one with some
template<class M> void nothing(const M& other)
{
	typedef typename M::value_type T;
	const auto is = [](M& m, const char* what) {
		const M& k = m;
		REQ(k.rows() == 0 && k.columns() == 0 && k.size() == 0 && k.empty(), what << " is " << k.rows() << "x" << k.columns() << " with " << k.size() << " cells, empty() is " << k.empty());
		REQ(!(m.begin() != m.end()) && !(k.begin() != k.end()) && !(k.cbegin() != k.cend()) && !m.begin().isValid(), what << " is walked");
		REQ(k.sum() == mk<T>(0) && k.trace() == mk<T>(0) && !k.has_nan() && !k.has_inf() && !k.has_zero(), what << " reports sum " << k.sum() << ", trace " << k.trace() << " or numbers");
	};
	M e;
	is(e, "a matrix without cells");
	{ M x; REQ(e == x && !(e != x), "two matrices without cells are not equal"); }
	{ M x = e + e; is(x, "0x0 + 0x0"); x -= e; is(x, "0x0 - 0x0"); x *= e; is(x, "0x0 * 0x0"); x *= mk<T>(2); is(x, "0x0 * 2"); x = -x; is(x, "-0x0"); }
	M o(other);
	THROWS(NS::MatrixSizeMismatchException, "0x0 += other", e += o);
	THROWS(NS::MatrixSizeMismatchException, "other -= 0x0", o -= e);
	THROWS(NS::MatrixSizeMismatchException, "0x0 * other", e * o);
	THROWS(NS::MatrixMulMismatchException, "product of 0x0 and other", e.mul(o));
	THROWS(NS::MatrixMulMismatchException, "product of other and 0x0", o.mul(e));
	is(e, "a matrix without cells after refused operations");
	REQ(o == other, "matrix changed by refused operations");
	e.swap(o); is(o, "a matrix swapped with one without cells"); REQ(e == other, "matrix without cells after swap");
	o.swap(e); is(e, "a matrix without cells swapped back"); REQ(o == other, "matrix swapped back");
	o = e; is(o, "a matrix after an assignment of one without cells");
	o = other; REQ(o == other, "assignment to a matrix without cells");
}

// Reference algebra
template<class T> Grid<T> mul(const Grid<T>& a, const Grid<T>& b)
{
	Grid<T> r(a.r, b.c);
	for(size_t i = 0; i < a.r; ++i) for(size_t j = 0; j < b.c; ++j) {
		T x = mk<T>(0);
		for(size_t k = 0; k < a.c; ++k) x += a(i, k) * b(k, j);
		r(i, j) = x;
	}
	return r;
}
template<class T> Grid<T> transp(const Grid<T>& a)
{
	Grid<T> r(a.c, a.r);
	for(size_t i = 0; i < a.r; ++i) for(size_t j = 0; j < a.c; ++j) r(j, i) = a(i, j);
	return r;
}
template<class T> Grid<T> conjg(const Grid<T>& a)
{
	Grid<T> r(a);
	for(T& t : r.v) t = cj(t);
	return r;
}
template<class T> Grid<T> ident(size_t n)
{
	Grid<T> r(n, n);
	for(size_t i = 0; i < n; ++i) r(i, i) = mk<T>(1);
	return r;
}
// Largest deviation between two grids
template<class T> double diff(const Grid<T>& a, const Grid<T>& b)
{
	if(a.r != b.r || a.c != b.c) return std::numeric_limits<double>::infinity();
	double d = 0;
	for(size_t k = 0; k < a.v.size(); ++k) { double x = mag(a.v[k] - b.v[k]); if(!(x <= d)) d = x; if(d != d) return std::numeric_limits<double>::infinity(); }
	return d;
}
template<class T> double maxabs(const Grid<T>& a)
{
	double d = 0;
	for(const T& t : a.v) d = std::max(d, mag(t));
	return d;
}
template<class T> double eps() { return (double)Lim<typename Real<T>::type>::epsilon(); }

} // namespace h
