// C15: Cuthill-McKee orderings and permutations
#include "../linalg.h"
#include "matrix/MatrixOrder.h"
#include <queue>
using namespace h;

namespace {
typedef std::vector<size_t> Perm;
NS::DynamicVector<NS::Index> pvec(const Perm& p)
{
	NS::DynamicVector<NS::Index> r(p.size());
	for(size_t i = 0; i < p.size(); ++i) r.set(i, p[i]);
	return r;
}
Perm read(const NS::DynamicVector<NS::Index>& v)
{
	Perm p(v.size());
	for(size_t i = 0; i < p.size(); ++i) p[i] = v.at(i);
	return p;
}
bool isPerm(const Perm& p, size_t n)
{
	if(p.size() != n) return false;
	std::vector<char> seen(n, 0);
	for(size_t i : p) { if(i >= n || seen[i]) return false; seen[i] = 1; }
	return true;
}
// Symmetric pattern; returns the adjacency (without the diagonal)
template<class T> Grid<T> graph(Ctx& c, size_t n, bool& uniformDiag)
{
	Src bulk = c.s;
	if(n > 150) bulk = c.s.bulk();
	Src& s = n > 150 ? bulk : c.s;
	Grid<T> g(n, n);
	std::vector<std::pair<size_t, size_t> > e;
	switch(s.raw(7)) {
	case 0: { const unsigned z = 1 + (unsigned)s.raw(9); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) if(s.chance(10 - z, n > 150 ? 400 : 10)) e.push_back(std::make_pair(i, j)); c.label("random graph"); break; }
	case 1: { for(size_t i = 1; i < n; ++i) e.push_back(std::make_pair(i, s.raw(i))); c.label("tree"); break; }
	case 2: { for(size_t i = 1; i < n; ++i) if(s.chance(2, 3)) e.push_back(std::make_pair(i, s.raw(i))); c.label("forest"); break; }
	case 3: { const size_t w = s.size(1, n > 150 ? 30 : 5); for(size_t i = 0; i < n; ++i) { if(i + w < n) e.push_back(std::make_pair(i, i + w)); if((i + 1) % w && i + 1 < n) e.push_back(std::make_pair(i, i + 1)); } c.label("grid graph"); break; }
	case 4: { for(size_t i = 1; i < n; ++i) e.push_back(std::make_pair(i, (size_t)0)); c.label("star"); break; }
	case 5: { for(size_t i = 0; i < n && n > 1; ++i) e.push_back(std::make_pair(i, (i + 1) % n)); c.label("cycle"); break; }
	default: { // Several cliques
		size_t a = 0;
		while(a < n) { const size_t b = std::min(n, a + 1 + s.raw(4)); for(size_t i = a; i < b; ++i) for(size_t j = a; j < i; ++j) e.push_back(std::make_pair(i, j)); a = b; }
		c.label("cliques");
	}
	}
	const Perm p = s.perm(n);
	for(size_t k = 0; k < e.size(); ++k) {
		const size_t i = p[e[k].first], j = p[e[k].second];
		if(i == j) continue;
		g(i, j) = nonzero<T>(s);
		g(j, i) = s.coin() ? g(i, j) : nonzero<T>(s);
	}
	uniformDiag = true;
	switch(s.raw(3)) {
	case 0: for(size_t i = 0; i < n; ++i) g(i, i) = nonzero<T>(s); c.label("full diagonal"); break;
	case 1: c.label("empty diagonal"); break;
	default: for(size_t i = 0; i < n; ++i) if(s.coin()) g(i, i) = nonzero<T>(s); uniformDiag = false; c.label("partial diagonal");
	}
	return g;
}
template<class T> void orderOf(Ctx& c, size_t hi)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	const size_t n = hi ? s.size(150, hi) : s.raw(20) == 19 ? s.size(20, s.chance(1, 8) ? 150 : 60) : s.size(1, 14);
	bool uniform;
	const Grid<T> g = graph<T>(c, n, uniform);
	NOTE(g);
	const M A = Make<M>::of(s, g);
	const Perm p = read(NS::cuthill_mckee(A));
	REQ(grid(A) == g, "the matrix was changed");
	REQ(isPerm(p, n), vs(p) << " is not a permutation of " << n << " indices");
	// Components, degrees
	std::vector<size_t> comp(n, n), deg(n, 0), pos(n);
	for(size_t i = 0; i < n; ++i) pos[p[i]] = i;
	size_t nc = 0, edges = 0;
	for(size_t i = 0; i < n; ++i) {
		for(size_t j = 0; j < n; ++j) if(i != j && g(i, j) != mk<T>(0)) { ++deg[i]; ++edges; }
		if(comp[i] != n) continue;
		std::vector<size_t> st(1, i);
		comp[i] = nc;
		while(!st.empty()) {
			const size_t v = st.back(); st.pop_back();
			for(size_t j = 0; j < n; ++j) if(g(v, j) != mk<T>(0) && comp[j] == n) { comp[j] = nc; st.push_back(j); }
		}
		++nc;
	}
	// Each component is numbered in one run, breadth first: the earliest numbered neighbour never goes back
	size_t start = 0;
	std::vector<char> done(nc, 0);
	std::vector<size_t> parent(n, 0);
	for(size_t i = 0; i < n; ++i) {
		const size_t v = p[i];
		if(i == 0 || comp[v] != comp[p[i - 1]]) {
			REQ(!done[comp[v]], "component of " << v << " is not numbered in one run by " << vs(p) << " for " << g);
			done[comp[v]] = 1;
			start = i;
			parent[i] = i;
			if(uniform) for(size_t j = 0; j < n; ++j)
				REQ(comp[j] != comp[v] || deg[j] >= deg[v], "component starts with " << v << " of degree " << deg[v] << ", but " << j << " has degree " << deg[j] << ": " << vs(p) << " for " << g);
			continue;
		}
		size_t m = n;
		for(size_t j = 0; j < n; ++j) if(j != v && g(v, j) != mk<T>(0)) m = std::min(m, pos[j]);
		REQ(m < i, "vertex " << v << " has no earlier neighbour in " << vs(p) << " for " << g);
		parent[i] = m;
		if(i > start + 1) {
			REQ(parent[i] >= parent[i - 1], "not breadth first: neighbour of an earlier vertex at position " << i << " of " << vs(p) << " for " << g);
			if(uniform && parent[i] == parent[i - 1])
				REQ(deg[v] >= deg[p[i - 1]], "neighbours of " << p[m] << " are not ordered by degree in " << vs(p) << " for " << g);
		}
	}
	const Perm r = read(NS::r_cuthill_mckee(A));
	REQ(Perm(p.rbegin(), p.rend()) == r, "r_cuthill_mckee " << vs(r) << " is not the reverse of " << vs(p) << " for " << g);
	c.label(nc > 1, "several components");
	c.nontrivial(n > 2 && edges > 0);
}
template<class T> void order(Ctx& c) { orderOf<T>(c, 0); }
template<class T> void largeOrder(Ctx& c) { orderOf<T>(c, 450); }
template<class T> void permuteOf(Ctx& c, size_t hi)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	const size_t n = hi ? s.size(90, hi) : dim(s, 1, 9, 40);
	const Perm p = s.perm(n);
	const Grid<T> g = genGrid<T>(s, n, n, (unsigned)s.raw(10));
	std::vector<T> v(n);
	for(T& t : v) t = sval<T>(s, 3);
	NOTE("permutation " << vs(p) << ", matrix " << g << ", vector " << vs(v));
	const NS::DynamicVector<NS::Index> P = pvec(p);
	const Perm q = read(NS::inverse_permutation(P));
	REQ(isPerm(q, n), "the inverse " << vs(q) << " of " << vs(p) << " is not a permutation");
	for(size_t i = 0; i < n; ++i) REQ(q[p[i]] == i && p[q[i]] == i, "inverse of " << vs(p) << " is " << vs(q));
	const Grid<T> pm = grid(NS::permutation_matrix<T>(P));
	REQ(pm.r == n && pm.c == n, "size of the permutation matrix");
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) REQ(pm(i, j) == mk<T>(j == p[i] ? 1 : 0), "permutation matrix of " << vs(p) << " is " << pm);
	const M A = Make<M>::of(s, g);
	const M B = NS::permutate(A, P);
	const Grid<T> b = grid(B);
	REQ(grid(A) == g, "the matrix was changed");
	REQ(b.r == n && b.c == n, "size of the reordered matrix");
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) REQ(b(i, j) == g(p[i], p[j]), "cell (" << i << "," << j << ") of the reordered matrix " << b << " for " << vs(p) << " and " << g);
	const M back = NS::permutate(B, pvec(q));
	REQ(grid(back) == g, "reordering by the inverse gives " << grid(back) << " instead of " << g);
	const NS::DynamicVector<T> V = dyn(v);
	const NS::DynamicVector<T> W = NS::permutate(V, P);
	const std::vector<T> w = vec(W);
	REQ(vec(V) == v && w.size() == n, "permutate of a vector");
	for(size_t i = 0; i < n; ++i) REQ(w[i] == v[p[i]], "reordering " << vs(v) << " by " << vs(p) << " gives " << vs(w));
	REQ(vec(NS::permutate(W, pvec(q))) == v, "reordering a vector by the inverse does not restore it");
	REQ(vec(NS::permutation_matrix<T>(P).mul(V)) == w, "permutation matrix times vector differs from the reordered vector");
	// A reordered system has the reordered solution
	REQ(vec(B.mul(W)) == vec(NS::permutate(A.mul(V), P)), "reordering a system and its right hand side do not fit: " << vs(p) << ", " << g << ", " << vs(v));
	bool invol = true;
	for(size_t i = 0; i < n; ++i) invol = invol && p[i] == q[i];
	c.label(!invol, "not its own inverse");
	c.nontrivial(!invol && maxabs(g) > 0);
}
template<class T> void permute(Ctx& c) { permuteOf<T>(c, 0); }
template<class T> void largePermute(Ctx& c) { permuteOf<T>(c, 320); }
template<class T> void refused(Ctx& c)
{
	typedef NS::SparseMatrix<T> M;
	Src& s = c.s;
	const size_t n = s.size(1, 6), m = n + 1 + s.raw(3);
	const bool t = s.coin();
	NOTE(n << " and " << m);
	const M R = Make<M>::of(s, genGrid<T>(s, t ? n : m, t ? m : n, 5)), A = Make<M>::of(s, genGrid<T>(s, t ? n : m, t ? n : m, 5));
	const NS::DynamicVector<NS::Index> P = pvec(s.perm(t ? m : n));
	const NS::DynamicVector<T> V = dyn(std::vector<T>(t ? n : m, mk<T>(1)));
	THROWS(NS::NotSquareException, "cuthill_mckee of a rectangular matrix", NS::cuthill_mckee(R));
	THROWS(NS::NotSquareException, "r_cuthill_mckee of a rectangular matrix", NS::r_cuthill_mckee(R));
	THROWS(NS::NotSquareException, "permutate of a rectangular matrix", NS::permutate(R, P));
	THROWS(NS::DimensionException, "permutate of a matrix with a permutation of another size", NS::permutate(A, P));
	THROWS(NS::VectorSizeMismatchException, "permutate of a vector with a permutation of another size", NS::permutate(V, P));
	c.nontrivial();
}
}
