// Random triangle complexes and their plain description, used by the mesh properties
#pragma once
#include "common.h"
#include "mesh/Mesh.h"
#include <array>
#include <locale>

namespace h {

// The program may use another language than the files
struct Punctuation : std::numpunct<char> {
	const std::string group; const char point, sep;
	Punctuation(const std::string& g, char p, char q) : group(g), point(p), sep(q) {}
	char do_decimal_point() const { return point; }
	char do_thousands_sep() const { return sep; }
	std::string do_grouping() const { return group; }
	std::string do_truename() const { return "wahr"; }
	std::string do_falsename() const { return "falsch"; }
};
struct Abroad {
	std::locale old;
	const bool on;
	Abroad(Src& s, unsigned n) : old(), on(s.chance(1, n))
	{
		if(!on) return;
		switch(s.raw(4)) {
		case 0: set("\3", ',', '.'); break;
		case 1: set("\1", '.', ','); break;
		case 2: set("", ',', '.'); break;
		default: set("\2\1", ';', '\''); break;
		}
	}
	~Abroad() { home(); }
	void home() { if(on) std::locale::global(old); }
	static void set(const char* g, char p, char q) { std::locale::global(std::locale(std::locale::classic(), new Punctuation(g, p, q))); }
	Abroad(const Abroad&) = delete;
	Abroad& operator=(const Abroad&) = delete;
};

struct Cx {
	std::vector<std::array<double, 2> > v;
	std::vector<std::array<size_t, 3> > t;

	double area2(size_t e) const
	{
		const auto& a = v[t[e][0]]; const auto& b = v[t[e][1]]; const auto& c = v[t[e][2]];
		return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
	}
	typedef std::pair<size_t, size_t> Edge;
	static Edge edge(size_t a, size_t b) { return a < b ? Edge(a, b) : Edge(b, a); }
	// Edge -> elements containing it, in order
	std::map<Edge, std::vector<size_t> > edges() const
	{
		std::map<Edge, std::vector<size_t> > r;
		for(size_t e = 0; e < t.size(); ++e) for(int i = 0; i < 3; ++i) r[edge(t[e][(i + 1) % 3], t[e][(i + 2) % 3])].push_back(e);
		return r;
	}
	std::set<size_t> boundary() const
	{
		std::set<size_t> r;
		for(const auto& e : edges()) if(e.second.size() == 1) { r.insert(e.first.first); r.insert(e.first.second); }
		return r;
	}
	std::string str() const
	{
		std::ostringstream o;
		o.precision(9);
		for(size_t i = 0; i < v.size(); ++i) o << "v" << i << "(" << v[i][0] << ", " << v[i][1] << ") ";
		for(size_t i = 0; i < t.size(); ++i) o << "e" << i << "(" << t[i][0] << " " << t[i][1] << " " << t[i][2] << ") ";
		return o.str();
	}
	// Forgets vertices without element
	void compact()
	{
		std::vector<size_t> m(v.size(), (size_t)-1);
		std::vector<std::array<double, 2> > w;
		for(auto& e : t) for(auto& i : e) {
			if(m[i] == (size_t)-1) { m[i] = w.size(); w.push_back(v[i]); }
			i = m[i];
		}
		v = w;
	}
};

// A part of a planar grid with jittered points; conforming and not overlapping
inline void genGridPart(Src& s, Cx& cx, size_t maxn, double ox, bool whole = false)
{
	const size_t most = s.chance(1, 60) ? 4 * maxn : maxn, nx = s.small(1, most), ny = s.small(1, most), base = cx.v.size();
	const bool jitter = s.coin();
	for(size_t j = 0; j <= ny; ++j) for(size_t i = 0; i <= nx; ++i)
		cx.v.push_back({{ox + (double)i + (jitter ? (double)s.num(3) / 16 : 0), (double)j + (jitter ? (double)s.num(3) / 16 : 0)}});
	const auto id = [&](size_t i, size_t j) { return base + j * (nx + 1) + i; };
	const unsigned holes = whole ? 0 : (unsigned)s.raw(5);
	for(size_t j = 0; j < ny; ++j) for(size_t i = 0; i < nx; ++i) {
		const size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
		const bool diag = s.coin();
		const bool k1 = !s.chance(holes, 10), k2 = !s.chance(holes, 10);
		if(k1) cx.t.push_back(diag ? std::array<size_t, 3>{{a, b, c}} : std::array<size_t, 3>{{a, b, d}});
		if(k2) cx.t.push_back(diag ? std::array<size_t, 3>{{a, c, d}} : std::array<size_t, 3>{{b, c, d}});
	}
}
// Triangles around one vertex, open or closed
inline void genFan(Src& s, Cx& cx, double ox)
{
	const size_t n = s.size(3, s.chance(1, 30) ? 40 : 9), base = cx.v.size();
	const bool closed = s.coin();
	cx.v.push_back({{ox, 0}});
	for(size_t i = 0; i < n; ++i) {
		const double a = 2 * 3.14159265358979 * (double)i / (double)n, r = 1 + (double)s.raw(4) / 8;
		cx.v.push_back({{ox + std::round(64 * r * std::cos(a)) / 64, std::round(64 * r * std::sin(a)) / 64}});
	}
	for(size_t i = 0; i + (closed ? 0 : 1) < n; ++i) cx.t.push_back({{base, base + 1 + i, base + 1 + (i + 1) % n}});
}
// Arbitrary complex (also closed surfaces and ones that overlap in the plane): glue triangles to free edges, no edge gets a third one
inline void genGlued(Src& s, Cx& cx, double ox)
{
	const size_t n = s.size(1, 12), base = cx.v.size();
	const auto point = [&]() { cx.v.push_back({{ox + (double)s.num(40) / 8, (double)s.num(40) / 8}}); return cx.v.size() - 1; };
	const size_t first = cx.t.size();
	{ const size_t a = point(), b = point(), c = point(); cx.t.push_back({{a, b, c}}); }
	for(size_t k = 0; k < n; ++k) {
		std::map<Cx::Edge, size_t> cnt;
		std::set<std::set<size_t> > have;
		for(size_t e = first; e < cx.t.size(); ++e) {
			for(int i = 0; i < 3; ++i) cnt[Cx::edge(cx.t[e][i], cx.t[e][(i + 1) % 3])]++;
			have.insert(std::set<size_t>(cx.t[e].begin(), cx.t[e].end()));
		}
		std::vector<Cx::Edge> freeEdges;
		for(const auto& e : cnt) if(e.second == 1) freeEdges.push_back(e.first);
		if(freeEdges.empty()) break;
		const Cx::Edge e = s.of(freeEdges);
		std::vector<size_t> third;
		for(size_t w = base; w < cx.v.size(); ++w)
			if(w != e.first && w != e.second && cnt[Cx::edge(w, e.first)] < 2 && cnt[Cx::edge(w, e.second)] < 2 && !have.count(std::set<size_t>{w, e.first, e.second})) third.push_back(w);
		const size_t w = third.empty() || s.coin() ? point() : s.of(third);
		cx.t.push_back({{e.first, e.second, w}});
	}
}
enum { CxPlanar = 1, CxWhole = 2 };
// Every element has an area of at least 'minArea2' / 2, every vertex an element
inline Cx genComplex(Src& s, size_t maxn = 4, int flags = 0, double minArea2 = 0.05)
{
	Cx cx;
	const size_t parts = s.chance(1, 4) ? 2 : 1;
	const bool planar = (flags & CxPlanar) != 0;
	const double apart = planar || !s.chance(1, 4) ? 20 : 0;// Two parts may lie on each other
	for(size_t p = 0; p < parts; ++p) switch(s.raw(planar ? 3 : 4)) {
		case 0: case 1: genGridPart(s, cx, maxn, apart * (double)p, (flags & CxWhole) != 0); break;
		case 2: genFan(s, cx, apart * (double)p); break;
		default: genGlued(s, cx, apart * (double)p); break;
	}
	// Vertices at the same place are still different vertices
	if(!planar && s.chance(1, 8)) for(size_t q = 1 + s.raw(3); q; --q) cx.v[s.raw(cx.v.size())] = cx.v[s.raw(cx.v.size())];
	std::vector<std::array<size_t, 3> > t;
	for(size_t e = 0; e < cx.t.size(); ++e) if(std::abs(cx.area2(e)) > minArea2) t.push_back(cx.t[e]);
	cx.t = t;
	if(cx.t.empty()) throw pbt::Discard();
	cx.compact();
	// Any numbering, any order of elements, any first vertex and orientation
	if(s.coin()) {
		const std::vector<size_t> p = s.perm(cx.v.size());
		std::vector<std::array<double, 2> > w(cx.v.size());
		for(size_t i = 0; i < p.size(); ++i) w[p[i]] = cx.v[i];
		cx.v = w;
		for(auto& e : cx.t) for(auto& i : e) i = p[i];
	}
	if(s.coin()) {
		const std::vector<size_t> p = s.perm(cx.t.size());
		std::vector<std::array<size_t, 3> > u(cx.t.size());
		for(size_t i = 0; i < p.size(); ++i) u[p[i]] = cx.t[i];
		cx.t = u;
	}
	const bool turn = s.coin(), flip = s.coin();
	for(auto& e : cx.t) {
		if(turn) std::rotate(e.begin(), e.begin() + s.raw(3), e.end());
		if(flip && s.coin()) std::swap(e[1], e[2]);
	}
	return cx;
}

template<class T> NS::FixedVector<T, 2> point(const std::array<double, 2>& p)
{
	NS::FixedVector<T, 2> v;
	v[0] = (T)p[0]; v[1] = (T)p[1];
	return v;
}
// Only vertices and elements
template<class T> void build(NS::Mesh<T, 2>& m, const Cx& cx)
{
	const size_t v0 = m.vertices().size();
	for(const auto& p : cx.v) m.addVertex(new NS::MeshVertex<T, 2>(point<T>(p)));
	for(const auto& e : cx.t) {
		NS::MeshElement<T, 2>* el = new NS::MeshElement<T, 2>();
		for(int i = 0; i < 3; ++i) el->Vertices[i] = m.vertex(v0 + e[i]);
		m.addElement(el);
	}
}
// Vertices and elements of the mesh are exactly the described ones (additional implicit vertices are allowed at the end)
template<class T> void sameMesh(const NS::Mesh<T, 2>& m, const Cx& cx, bool implicit = false)
{
	REQ(implicit ? m.vertices().size() >= cx.v.size() : m.vertices().size() == cx.v.size(), m.vertices().size() << " instead of " << cx.v.size() << " vertices");
	REQ(m.elements().size() == cx.t.size(), m.elements().size() << " instead of " << cx.t.size() << " elements");
	std::vector<std::multiset<const NS::MeshElement<T, 2>*> > inc(cx.v.size());
	for(size_t i = 0; i < cx.v.size(); ++i) {
		const NS::MeshVertex<T, 2>* v = m.vertex(i);
		REQ(v && v == m.vertices()[i], "vertex " << i << " differs from the list");
		REQ(v->GlobalIndex == i, "vertex " << i << " has index " << v->GlobalIndex);
		REQ(v->Vertex[0] == (T)cx.v[i][0] && v->Vertex[1] == (T)cx.v[i][1], "vertex " << i << " is at " << v->Vertex[0] << ", " << v->Vertex[1] << " instead of " << cx.v[i][0] << ", " << cx.v[i][1]);
	}
	for(size_t e = 0; e < cx.t.size(); ++e) {
		const NS::MeshElement<T, 2>* el = m.element(e);
		REQ(el && el == m.elements()[e], "element " << e << " differs from the list");
		for(int i = 0; i < 3; ++i) {
			REQ(el->Vertices[i] == m.vertex(cx.t[e][i]), "vertex " << i << " of element " << e << " is not vertex " << cx.t[e][i]);
			REQ(el->Element[i][0] == (T)cx.v[cx.t[e][i]][0] && el->Element[i][1] == (T)cx.v[cx.t[e][i]][1], "point " << i << " of element " << e << " differs from its vertex");
			inc[cx.t[e][i]].insert(el);
		}
	}
	for(size_t i = 0; i < cx.v.size(); ++i) {
		const auto& l = m.vertex(i)->Elements;
		REQ(inc[i] == (std::multiset<const NS::MeshElement<T, 2>*>(l.begin(), l.end())), "vertex " << i << " lists other elements than those containing it");
	}
}
// Edges and neighbours are exactly those of the described complex
template<class T> void sameEdges(const NS::Mesh<T, 2>& m, const Cx& cx)
{
	const auto ref = cx.edges();
	REQ(m.edges().size() == ref.size(), m.edges().size() << " edges instead of " << ref.size());
	std::set<Cx::Edge> seen;
	std::map<const NS::MeshEdge<T, 2>*, Cx::Edge> known;
	for(size_t k = 0; k < m.edges().size(); ++k) {
		const NS::MeshEdge<T, 2>* e = m.edge(k);
		REQ(e && e == m.edges()[k], "edge " << k << " differs from the list");
		REQ(e->Vertices[0] && e->Vertices[1], "edge " << k << " has no vertices");
		for(int i = 0; i < 2; ++i) REQ(e->Vertices[i]->GlobalIndex < cx.v.size() && m.vertex(e->Vertices[i]->GlobalIndex) == e->Vertices[i], "edge " << k << " has a foreign vertex");
		const Cx::Edge id = Cx::edge(e->Vertices[0]->GlobalIndex, e->Vertices[1]->GlobalIndex);
		REQ(ref.count(id), "edge " << k << " joins " << id.first << " and " << id.second << ", which no element does");
		REQ(seen.insert(id).second, "edge " << id.first << "-" << id.second << " is there twice");
		known[e] = id;
		std::set<const NS::MeshElement<T, 2>*> want, have;
		for(size_t x : ref.at(id)) want.insert(m.element(x));
		for(int i = 0; i < 2; ++i) if(e->Elements[i]) have.insert(e->Elements[i]);
		REQ(e->Elements[0] && (ref.at(id).size() == 2) == (e->Elements[1] != nullptr), "edge " << id.first << "-" << id.second << " has the wrong number of elements");
		REQ(want == have, "edge " << id.first << "-" << id.second << " does not list the elements sharing it");
	}
	for(size_t x = 0; x < cx.t.size(); ++x) for(int i = 0; i < 3; ++i) {
		const NS::MeshEdge<T, 2>* e = m.element(x)->Neighbors[i];
		const Cx::Edge id = Cx::edge(cx.t[x][(i + 1) % 3], cx.t[x][(i + 2) % 3]);
		REQ(e && known.count(e), "element " << x << " has no edge opposite to vertex " << i);
		REQ(known.at(e) == id, "element " << x << " has edge " << known.at(e).first << "-" << known.at(e).second << " opposite to its vertex " << i << " instead of " << id.first << "-" << id.second);
	}
}
template<class T> void sameBoundary(const NS::Mesh<T, 2>& m, const Cx& cx)
{
	const std::set<size_t> b = cx.boundary();
	for(size_t i = 0; i < cx.v.size(); ++i)
		REQ(((m.vertex(i)->Flags & NS::MVF_StrongBoundary) != 0) == (b.count(i) != 0), "vertex " << i << (b.count(i) ? " is not marked as boundary" : " is marked as boundary, but inside"));
}
}
