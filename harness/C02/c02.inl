// C02: iteration over whole matrices, rows and columns
#include "../common.h"
using namespace h;

namespace {
template<class T> struct Entry { size_t i, j; T v; };
template<class T> bool operator==(const Entry<T>& a, const Entry<T>& b) { return a.i == b.i && a.j == b.j && same(a.v, b.v); }
template<class T> std::string es(const std::vector<Entry<T> >& v)
{
	std::ostringstream o;
	for(auto& e : v) o << "(" << e.i << "," << e.j << ")=" << e.v << " ";
	return o.str();
}

// Walks from b to e. A bound on the steps turns an endless walk into a failure.
template<class T, class It> std::vector<Entry<T> > walk(It b, const It& e, size_t limit, bool post, const char* who)
{
	std::vector<Entry<T> > r;
	size_t n = 0;
	for(It it = b; it != e;) {
		REQ(n++ <= limit, who << " does not end");
		const It& cit = it;
		REQ(it.isValid(), who << ": iterator is not at the end, but isValid() is false");
		REQ(!(it == e), who << ": operator == and != disagree");
		REQ(it == cit, who << ": iterator differs from itself");
		r.push_back(Entry<T>{it.row(), it.column(), *cit});
		REQ(same<T>(*it, *cit), who << ": value and reference access differ");
		if(post) {
			It old = it++;// Yields the position before
			REQ(old.row() == r.back().i && old.column() == r.back().j && same<T>(*old, r.back().v), who << ": postfix ++ does not yield the old position");
		} else {
			It& x = ++it;
			REQ(&x == &it, who << ": prefix ++ does not yield the iterator");
		}
	}
	It z = e;
	REQ(!z.isValid(), who << ": end is valid");
	return r;
}

// Entries which have to be visited: everything for dense matrices
template<class M> struct Stored { static const bool all = true; };
template<class T> struct Stored<NS::SparseMatrix<T> > { static const bool all = false; };

template<class M, class T> void checkAll(Ctx& c, M& m, const Grid<T>& g, bool post)
{
	const M& cm = m;
	const bool all = Stored<M>::all;
	const size_t lim = g.r * g.c + 1;
	std::vector<Entry<T> > want;
	for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) if(all || g(i, j) != mk<T>(0)) want.push_back(Entry<T>{i, j, g(i, j)});
#define SAME(got, what) do { auto pbt_g = got; REQ(pbt_g == want, what << " visits " << es(pbt_g) << " instead of " << es(want) << " in " << g); } while(0)
	typedef typename M::iterator It;
	typedef typename M::row_iterator RIt;
	typedef typename M::column_iterator CIt;
	SAME((walk<T, It>(m.begin(), m.end(), lim, post, "full")), "begin()");
	SAME((walk<T, It>(cm.begin(), cm.end(), lim, post, "const full")), "const begin()");
	SAME((walk<T, It>(m.cbegin(), m.cend(), lim, post, "cbegin")), "cbegin()");
	size_t empties = 0;
	for(size_t i = 0; i < g.r; ++i) {
		want.clear();
		for(size_t j = 0; j < g.c; ++j) if(all || g(i, j) != mk<T>(0)) want.push_back(Entry<T>{i, j, g(i, j)});
		if(want.empty()) ++empties;
		SAME((walk<T, RIt>(m.row_begin(i), m.row_end(i), lim, post, "row")), "row " << i);
		SAME((walk<T, RIt>(cm.row_begin(i), cm.row_end(i), lim, post, "const row")), "const row " << i);
		SAME((walk<T, RIt>(m.row_cbegin(i), m.row_cend(i), lim, post, "row_cbegin")), "row_cbegin " << i);
	}
	c.label(empties > 0, "empty row");
	empties = 0;
	for(size_t j = 0; j < g.c; ++j) {
		want.clear();
		for(size_t i = 0; i < g.r; ++i) if(all || g(i, j) != mk<T>(0)) want.push_back(Entry<T>{i, j, g(i, j)});
		if(want.empty()) ++empties;
		SAME((walk<T, CIt>(m.column_begin(j), m.column_end(j), lim, post, "column")), "column " << j);
		SAME((walk<T, CIt>(cm.column_begin(j), cm.column_end(j), lim, post, "const column")), "const column " << j);
		SAME((walk<T, CIt>(m.column_cbegin(j), m.column_cend(j), lim, post, "column_cbegin")), "column_cbegin " << j);
	}
	c.label(empties > 0, "empty column");
	// Range based
	want.clear();
	T sum = mk<T>(0), wsum = mk<T>(0);
	for(auto x : cm) sum += x;
	for(T x : g.v) wsum += x;
	double abs = 0;
	for(T x : g.v) abs += mag(x);
	if(abs < Lim<typename Real<T>::type>::max() / 8) REQ(mag(sum - wsum) <= 4 * eps<T>() * abs * g.v.size(), "range based for sees " << sum << " instead of " << wsum);
	// The end does not move
	It e = m.end(); ++e;
	REQ(e == m.end() && !e.isValid(), "end moves");
}

// Writing through the iterators of the whole, a row or a column
template<class M, class T> void writes(Ctx& c, M& m, Grid<T>& g)
{
	Src& s = c.s;
	const int what = (int)s.raw(3);
	const bool all = Stored<M>::all;
	size_t lim = g.r * g.c + 1, n = 0;
	T f = mk<T>(2);
	if(what == 0) {
		NOTE("double every entry through begin()");
		for(auto it = m.begin(); it != m.end(); ++it) { REQ(n++ < lim, "no end"); *it = *it * f; if(all || g(it.row(), it.column()) != mk<T>(0)) g(it.row(), it.column()) *= f; }
	} else if(what == 1) {
		size_t i = s.raw(g.r); NOTE("double row " << i);
		for(auto it = m.row_begin(i); it != m.row_end(i); ++it) { REQ(n++ < lim, "no end"); *it *= f; }
		for(size_t j = 0; j < g.c; ++j) g(i, j) *= f;
	} else {
		size_t j = s.raw(g.c); NOTE("double column " << j);
		for(auto it = m.column_begin(j); it != m.column_end(j); ++it) { REQ(n++ < lim, "no end"); *it *= f; }
		for(size_t i = 0; i < g.r; ++i) g(i, j) *= f;
	}
	REQ(grid(m) == g, "after writing through iterators: " << grid(m) << " instead of " << g);
}

// Sparse: erase and set by iterator while walking
template<class T> void eraser(Ctx& c, NS::SparseMatrix<T>& m, Grid<T>& g)
{
	Src& s = c.s;
	std::vector<std::pair<size_t, size_t> > left;
	for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) if(g(i, j) != mk<T>(0)) left.push_back(std::make_pair(i, j));
	auto it = m.begin();
	size_t er = 0;
	for(size_t k = 0; k < left.size(); ++k) {
		const size_t i = left[k].first, j = left[k].second;
		REQ(it != m.end() && it.row() == i && it.column() == j, "walk stands on (" << it.row() << "," << it.column() << ") instead of (" << i << "," << j << ")");
		const int op = (int)s.raw(4);
		if(op == 0) { ++it; continue; }
		if(op == 1) {
			auto r = m.set(it, mk<T>(5)); g(i, j) = mk<T>(5);
			NOTE("set (" << i << "," << j << ") to 5");
			REQ(r == it && r.row() == i && r.column() == j && *r == mk<T>(5), "set(iterator) yields another position");
			++it; continue;
		}
		NOTE("erase (" << i << "," << j << ")" << (op == 3 ? " by setting zero" : ""));
		it = op == 2 ? m.erase(it) : m.set(it, mk<T>(0));
		g(i, j) = mk<T>(0); ++er;
		if(k + 1 < left.size()) {
			REQ(it.isValid() && it.row() == left[k + 1].first && it.column() == left[k + 1].second, "erase of (" << i << "," << j << ") yields (" << it.row() << "," << it.column()
				<< ") instead of (" << left[k + 1].first << "," << left[k + 1].second << ")");
			REQ(same<T>(*it, g(left[k + 1].first, left[k + 1].second)), "value behind the yielded iterator is " << *it);
			REQ(same<T>(m.at(it.row(), it.column()), *it), "iterator and at() differ");
		} else REQ(it == m.end() && !it.isValid(), "erase of the last entry does not yield end()");
	}
	REQ(it == m.end(), "walk does not reach the end");
	REQ(grid(m) == g, "after erasing: " << grid(m) << " instead of " << g);
	auto e = m.erase(m.end());
	REQ(e == m.end() && grid(m) == g, "erase(end()) does something");
	auto e2 = m.set(m.end(), mk<T>(3));
	REQ(e2 == m.end() && grid(m) == g, "set(end()) does something");
	c.label(er > 0, "erased");
}
template<class M, class T> void denseSet(Ctx& c, M& m, Grid<T>& g)
{
	Src& s = c.s;
	size_t pos = s.raw(g.r * g.c), i = pos / g.c, j = pos % g.c;
	auto it = m.begin();
	for(size_t k = 0; k < pos; ++k) ++it;
	T v = sval<T>(s, 4);
	NOTE("set/erase by iterator at " << i << "," << j);
	auto r = m.set(it, v); g(i, j) = v;
	REQ(r == it && r.row() == i && r.column() == j, "set(iterator) yields another position");
	REQ(grid(m) == g, "after set(iterator): " << grid(m) << " instead of " << g);
	r = m.erase(it); g(i, j) = mk<T>(0);
	REQ(r == it && r.row() == i && r.column() == j, "erase(iterator) yields another position");
	REQ(grid(m) == g, "after erase(iterator): " << grid(m) << " instead of " << g);
	m.erase(m.end()); m.set(m.end(), v);
	REQ(grid(m) == g, "set/erase of end() does something");
}
template<class T> void extra(Ctx& c, NS::SparseMatrix<T>& m, Grid<T>& g) { eraser(c, m, g); }
template<class T> void extra(Ctx& c, NS::DenseMatrix<T>& m, Grid<T>& g) { denseSet(c, m, g); }
template<class T, NS::Dimension A, NS::Dimension B> void extra(Ctx& c, NS::FixedMatrix<T, A, B>& m, Grid<T>& g) { denseSet(c, m, g); }

template<class M> void run(Ctx& c, size_t r, size_t k)
{
	typedef typename M::value_type T;
	Src& s = c.s;
	const unsigned z = (unsigned)s.raw(11);
	Grid<T> g = s.chance(1, 5) ? s.chance(1, 3) ? specialGrid<T>(s, r, k, z) : anyGrid<T>(s, r, k, z) : genGrid<T>(s, r, k, z);
	c.label(!finite(g), "infinity or NaN");
	NOTE(Make<M>::n() << " " << g);
	M m = Make<M>::of(s, g);
	const bool post = s.coin();
	checkAll(c, m, g, post);
	writes(c, m, g);
	extra(c, m, g);
	checkAll(c, m, g, !post);
	size_t f = 0;
	for(T x : g.v) if(x != mk<T>(0)) ++f;
	c.label(r == 1 || k == 1, "single row or column");
	c.nontrivial(f >= 1 && r * k >= 2);
}
template<class T> void dynamic(Ctx& c)
{
	Src& s = c.s;
	size_t r = s.small(1, 7), k = s.small(1, 7);
	const int shape = (int)s.raw(10);
	if(shape == 8) r = 1; else if(shape == 9) k = 1;
	if(s.chance(1, 30)) { r = s.size(1, 20); k = s.size(1, 20); if(s.chance(1, 4)) { if(s.coin()) r = s.size(20, 80); else k = s.size(20, 80); } }
	if(s.chance(3, 4)) run<NS::SparseMatrix<T> >(c, r, k);
	else run<NS::DenseMatrix<T> >(c, r, k);
}
template<class T> void large(Ctx& c)
{
	Src& s = c.s;
	size_t r = s.size(20, 130), k = s.size(20, 130);
	if(s.chance(1, 4)) { r = s.size(1, 4); k = s.size(250, 600); if(s.coin()) std::swap(r, k); }
	if(s.coin()) run<NS::SparseMatrix<T> >(c, r, k);
	else run<NS::DenseMatrix<T> >(c, r, k);
}
template<class T> void fixed(Ctx& c)
{
	switch(c.s.raw(8)) {
	case 6: run<NS::FixedMatrix<T, 6, 6> >(c, 6, 6); break;
	case 7: run<NS::FixedMatrix<T, 9, 2> >(c, 9, 2); break;
	case 0: run<NS::FixedMatrix<T, 1, 1> >(c, 1, 1); break;
	case 1: run<NS::FixedMatrix<T, 1, 4> >(c, 1, 4); break;
	case 2: run<NS::FixedMatrix<T, 3, 1> >(c, 3, 1); break;
	case 3: run<NS::FixedMatrix<T, 2, 3> >(c, 2, 3); break;
	case 4: run<NS::FixedMatrix<T, 4, 3> >(c, 4, 3); break;
	default: run<NS::FixedMatrix<T, 3, 3> >(c, 3, 3); break;
	}
}
}
