// C05: constructors and converters yield the cells of their definition
#include "../common.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
using namespace h;

namespace {
template<class M, class T> void equal(const M& m, const Grid<T>& want, const std::string& what)
{
	const Grid<T> got = grid(m);
	REQ(got == want, what << ": " << got << " instead of " << want);
}
template<class T> void noZeros(const NS::SparseMatrix<T>& m, const Grid<T>& g, const char* what)
{
	size_t n = 0;
	for(const T& t : g.v) if(t != mk<T>(0)) ++n;
	REQ(m.filled_count() == n, what << ": filled_count() is " << m.filled_count() << " instead of " << n << " for " << g);
}
template<class T> void noZeros(const NS::DenseMatrix<T>&, const Grid<T>&, const char*) {}

// Nested lists, as written in a program and of any shape
template<class T> void fill(Grid<T>& g, size_t r, size_t k, std::initializer_list<std::initializer_list<T> > l)
{
	g = Grid<T>(r, k);
	size_t i = 0;
	for(auto& row : l) { size_t j = 0; for(auto& x : row) { g(i, j) = x; ++j; } ++i; }
}
// The list type of the library is the standard one, so one list builds both
template<class M, class T> void build(Ctx& c, size_t r, size_t k, std::initializer_list<std::initializer_list<T> > l)
{
	Grid<T> g;
	fill(g, r, k, l);
	NOTE(Make<M>::n() << " from list " << g);
	M m(l);
	equal(m, g, std::string(Make<M>::n()) + " from list");
	REQ(m.size() == r * k && m.rows() == r && m.columns() == k, "shape " << m.rows() << "x" << m.columns());
	size_t f = 0;
	for(const T& t : g.v) if(t != mk<T>(0)) ++f;
	size_t w = 0;
	for(auto it = m.begin(); it != m.end(); ++it) { REQ(w++ <= g.v.size(), "no end"); REQ(*it == g(it.row(), it.column()), "entry at " << it.row() << "," << it.column() << " is " << *it); }
	c.nontrivial(f > 0 && g.v.size() > 1);
}
template<class M> void dynLists(Ctx& c)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	T v[12];
	for(T& t : v) t = !s.chance(7, 10) ? mk<T>(0) : s.coin() ? wide<T>(s) : extreme<T>(s);
	switch(s.raw(12)) {
	case 8: case 9: case 10: case 11: {
		const size_t r = s.small(1, s.chance(1, 20) ? 80 : 12), k = s.small(1, s.chance(1, 20) ? 80 : 12);
		std::vector<std::vector<T> > row(r);
		std::vector<std::initializer_list<T> > l;
		const bool ragged = s.coin();
		const size_t full = s.raw(r);
		for(size_t i = 0; i < r; ++i) {
			row[i].resize(ragged && i != full ? s.raw(k + 1) : k);
			for(T& t : row[i]) t = !s.chance(7, 10) ? mk<T>(0) : s.chance(1, 6) ? extreme<T>(s) : sval<T>(s, 9);
			l.push_back(listOf(row[i]));
		}
		c.label(ragged, "ragged");
		build<M, T>(c, r, k, listOf(l));
		break;
	}
	case 0: build<M, T>(c, 1, 1, {{v[0]}}); break;
	case 1: build<M, T>(c, 3, 3, {{v[0], v[1], v[2]}, {v[3], v[4], v[5]}, {v[6], v[7], v[8]}}); break;
	case 2: build<M, T>(c, 2, 4, {{v[0], v[1], v[2], v[3]}, {v[4], v[5], v[6], v[7]}}); break;
	case 3: build<M, T>(c, 4, 1, {{v[0]}, {v[1]}, {v[2]}, {v[3]}}); break;
	case 4: c.label("ragged"); build<M, T>(c, 3, 3, {{v[0]}, {v[1], v[2]}, {v[3], v[4], v[5]}}); break;
	case 5: c.label("ragged"); build<M, T>(c, 3, 4, {{v[0], v[1], v[2], v[3]}, {}, {v[4], v[5]}}); break;
	case 6: c.label("ragged"); build<M, T>(c, 4, 3, {{}, {v[0], v[1], v[2]}, {v[3]}, {}}); break;
	default: build<M, T>(c, 1, 5, {{v[0], v[1], v[2], v[3], v[4]}}); break;
	}
}
template<class T> void fixLists(Ctx& c)
{
	Src& s = c.s;
	T v[12];
	for(T& t : v) t = !s.chance(7, 10) ? mk<T>(0) : s.coin() ? wide<T>(s) : extreme<T>(s);
	switch(s.raw(5)) {
	case 0: build<NS::FixedMatrix<T, 3, 3>, T>(c, 3, 3, {{v[0], v[1], v[2]}, {v[3], v[4], v[5]}, {v[6], v[7], v[8]}}); break;
	case 1: c.label("ragged"); build<NS::FixedMatrix<T, 3, 3>, T>(c, 3, 3, {{v[0]}, {}, {v[1], v[2], v[3]}}); break;
	case 2: c.label("ragged"); build<NS::FixedMatrix<T, 2, 4>, T>(c, 2, 4, {{v[0], v[1]}}); break;
	case 3: build<NS::FixedMatrix<T, 1, 2>, T>(c, 1, 2, {{v[0], v[1]}}); break;
	default: build<NS::FixedMatrix<T, 2, 4>, T>(c, 2, 4, {{v[0], v[1], v[2], v[3]}, {v[4], v[5], v[6], v[7]}}); break;
	}
}
template<class T> void vecLists(Ctx& c)
{
	Src& s = c.s;
	T v[5];
	for(T& t : v) t = sval<T>(s, 3);
	NS::DynamicVector<T> a = {v[0]}, b = {v[0], v[1], v[2]}, d = {v[0], v[1], v[2], v[3], v[4]};
	REQ(vec(a) == std::vector<T>({v[0]}) && vec(b) == std::vector<T>({v[0], v[1], v[2]}) && vec(d) == std::vector<T>({v[0], v[1], v[2], v[3], v[4]}), "dynamic vector from list: " << vs(vec(d)));
	NS::FixedVector<T, 3> f = {v[0], v[1], v[2]};
	NS::FixedVector<T, 4> g = {v[3], v[4]};
	REQ(vec(f) == std::vector<T>({v[0], v[1], v[2]}), "fixed vector from list: " << vs(vec(f)));
	REQ(vec(g) == std::vector<T>({v[3], v[4], mk<T>(0), mk<T>(0)}), "fixed vector from short list: " << vs(vec(g)));
	std::vector<T> w(s.small(1, s.chance(1, 20) ? 300 : 12));
	for(T& t : w) t = sval<T>(s, 9);
	const NS::DynamicVector<T> e(listOf(w));
	REQ(vec(e) == w, "dynamic vector from list: " << vs(vec(e)) << " instead of " << vs(w));
}
template<class T> void listLaw(Ctx& c)
{
	dynLists<NS::DenseMatrix<T> >(c);
	dynLists<NS::SparseMatrix<T> >(c);
	fixLists<T>(c);
	vecLists<T>(c);
}

// Identity, diagonal, triangles
template<template<typename> class MT, class T> void parts(Ctx& c)
{
	typedef MT<T> M;
	Src& s = c.s;
	const size_t lim = s.chance(1, 20) ? s.chance(1, 6) ? s.chance(1, 10) ? 300 : 80 : 30 : 8;
	const size_t r = s.small(1, lim), k = s.coin() ? r : s.small(1, lim);
	{
		const M e = NS::Construct::eye<MT, T>(r, k);
		Grid<T> g(r, k);
		for(size_t i = 0; i < std::min(r, k); ++i) g(i, i) = mk<T>(1);
		equal(e, g, "eye"); noZeros(e, g, "eye");
	}
	{
		std::vector<T> v(r);
		for(T& t : v) t = !s.chance(7, 10) ? mk<T>(0) : s.coin() ? wide<T>(s) : extreme<T>(s);
		const NS::DynamicVector<T> dv = dyn(v);
		const M d = NS::Construct::diag<MT, T>(dv);
		Grid<T> g(r, r);
		for(size_t i = 0; i < r; ++i) g(i, i) = v[i];
		equal(d, g, "diag(vector)"); noZeros(d, g, "diag(vector)");
		NS::FixedVector<T, 3> fv; Grid<T> g3(3, 3);
		for(size_t i = 0; i < 3; ++i) { fv.set(i, v[i % r]); g3(i, i) = v[i % r]; }
		equal(NS::Construct::diag<MT, T>(fv), g3, "diag(fixed vector)");
	}
	const unsigned z = (unsigned)s.raw(8);
	const Grid<T> g = s.chance(1, 8) ? specialGrid<T>(s, r, k, z) : anyGrid<T>(s, r, k, z);
	c.label(!finite(g), "infinity or NaN");
	const M m = Make<M>::of(s, g);
	{
		const std::vector<T> d = vec(NS::Construct::diag(m));
		std::vector<T> w;
		for(size_t i = 0; i < std::min(r, k); ++i) w.push_back(g(i, i));
		Grid<T> gd(1, d.size()), gw(1, w.size());
		gd.v = d; gw.v = w;
		REQ(gd == gw, "diag(matrix): " << vs(d) << " instead of " << vs(w) << " for " << g);
	}
	const long off = s.num((long)std::max(r, k) + 2);
	NOTE(Make<M>::n() << " " << g << ", offset " << off);
	Grid<T> lo(r, k), up(r, k), lo0(r, k), up0(r, k);
	for(size_t i = 0; i < r; ++i) for(size_t j = 0; j < k; ++j) {
		if((long)j - (long)i <= off) lo(i, j) = g(i, j);
		if((long)j - (long)i >= off) up(i, j) = g(i, j);
		if(j <= i) lo0(i, j) = g(i, j);
		if(j >= i) up0(i, j) = g(i, j);
	}
	const M L = NS::Construct::tril(m, (NS::int32)off), U = NS::Construct::triu(m, (NS::int32)off);
	equal(L, lo, "tril"); noZeros(L, lo, "tril");
	equal(U, up, "triu"); noZeros(U, up, "triu");
	equal(NS::Construct::tril(m), lo0, "tril without offset");
	equal(NS::Construct::triu(m), up0, "triu without offset");
	equal(m, g, "source matrix");
	c.label(off < 0, "negative offset"); c.label(off > 0, "positive offset"); c.label(r != k, "not square");
	c.nontrivial(r * k > 1 && maxabs(g) > 0);
}
template<class T> void partLaw(Ctx& c) { if(c.s.coin()) parts<NS::SparseMatrix, T>(c); else parts<NS::DenseMatrix, T>(c); }

// Conversions keep every cell
template<class T> void convert(Ctx& c)
{
	Src& s = c.s;
	const size_t lim = s.chance(1, 20) ? s.chance(1, 6) ? s.chance(1, 10) ? 300 : 80 : 30 : 8;
	const size_t r = s.small(1, lim), k = s.small(1, lim);
	const unsigned z = (unsigned)s.raw(11);
	const bool special = s.chance(1, 8);
	const Grid<T> g = special ? specialGrid<T>(s, r, k, z) : anyGrid<T>(s, r, k, z);
	NOTE("grid " << g);
	c.label(!finite(g), "infinity or NaN");
	const NS::DenseMatrix<T> d = Make<NS::DenseMatrix<T> >::plain(g);
	const NS::SparseMatrix<T> sp = Make<NS::SparseMatrix<T> >::of(s, g);
	const NS::SparseMatrix<T> ds = NS::Convert::toSparseMatrix(d);
	const NS::DenseMatrix<T> sd = NS::Convert::toDenseMatrix(sp);
	equal(ds, g, "toSparseMatrix(dense)"); noZeros(ds, g, "toSparseMatrix(dense)");
	equal(sd, g, "toDenseMatrix(sparse)");
	REQ(special || (ds == sp && sd == d), "round trip differs for " << g);
	equal(NS::Convert::toDenseMatrix(ds), g, "dense to sparse to dense");
	equal(NS::Convert::toSparseMatrix(sd), g, "sparse to dense to sparse");
	const Grid<T> f = anyGrid<T>(s, 3, 2, 4);
	const NS::FixedMatrix<T, 3, 2> fm = Make<NS::FixedMatrix<T, 3, 2> >::plain(f);
	const NS::SparseMatrix<T> fs = NS::Convert::toSparseMatrix(fm);
	equal(fs, f, "toSparseMatrix(fixed)"); noZeros(fs, f, "toSparseMatrix(fixed)");
	equal(d, g, "source"); equal(sp, g, "source");
	c.nontrivial(r * k > 1 && maxabs(g) > 0);
}

// Hilbert matrices. The inverse is checked in exact integer arithmetic.
typedef __int128 I128;
inline I128 choose(size_t n, size_t k)
{
	I128 v = 1;
	for(size_t i = 1; i <= k; ++i) v = v * (I128)(n - k + i) / (I128)i;
	return v;
}
inline I128 invHilbert(size_t d, size_t i, size_t j)
{
	const I128 v = choose(i + j, i);
	return ((i + j) % 2 ? -1 : 1) * (I128)(i + j + 1) * choose(d + i, d - j - 1) * choose(d + j, d - i - 1) * v * v;
}
template<template<typename> class MT, class T> void hilb(Ctx& c)
{
	const size_t d = c.s.size(1, 13);// All entries below 2^63
	NOTE(Make<MT<T> >::n() << " order " << d);
	const size_t big = c.s.size(1, c.s.chance(1, 10) ? 60 : 14);
	const MT<T> H = NS::Construct::hilbert<MT, T>(big);
	REQ(H.rows() == big && H.columns() == big, "shape of hilbert");
	for(size_t i = 0; i < big; ++i) for(size_t j = 0; j < big; ++j)
		REQ(mag(H.at(i, j) - mk<T>(1.0 / (i + j + 1))) <= eps<T>() / (i + j + 1), "hilbert(" << i << "," << j << ") is " << H.at(i, j));
	const MT<T> I = NS::Construct::inv_hilbert<MT, T>(d);
	REQ(I.rows() == d && I.columns() == d, "shape of inv_hilbert");
	const I128 lcm = 26771144400;// Of 1..25
	for(size_t i = 0; i < d; ++i) for(size_t j = 0; j < d; ++j) {
		I128 sum = 0;
		for(size_t k = 0; k < d; ++k) sum += invHilbert(d, i, k) * (lcm / (I128)(k + j + 1));
		if(sum != (i == j ? lcm : 0)) throw std::logic_error("reference inverse of the Hilbert matrix");
		const I128 e = invHilbert(d, i, j);
		REQ(im(I.at(i, j)) == 0 && mag(I.at(i, j) - mk<T>((double)e)) <= ((e < 0 ? -e : e) >= (I128)1 << (eps<T>() > 1e-10 ? 24 : 52) ? 4 * eps<T>() * std::abs((double)e) : 0.0),
			"inv_hilbert(" << i << "," << j << ") is " << I.at(i, j) << " instead of " << (double)e << " for order " << d);
	}
	c.nontrivial(d > 1);
}
template<class T> void hilbLaw(Ctx& c) { if(c.s.coin()) hilb<NS::SparseMatrix, T>(c); else hilb<NS::DenseMatrix, T>(c); }

template<class T, NS::Dimension A, NS::Dimension B> void eyeOf()
{
	Grid<T> g(A, B);
	for(size_t i = 0; i < std::min<size_t>(A, B); ++i) g(i, i) = mk<T>(1);
	equal(NS::Construct::eye<T, A, B>(), g, "fixed eye");
}
template<class T> void fixedEye(Ctx& c)
{
	eyeOf<T, 1, 1>(); eyeOf<T, 2, 2>(); eyeOf<T, 4, 4>(); eyeOf<T, 2, 3>(); eyeOf<T, 3, 2>();
	c.nontrivial();
}
}
