// C19: edges, neighbours and boundary of meshes, validation
#include "../meshgen.h"
using namespace h;

// Looking at a mesh does not repair it
#define AGAIN for(int again = 0; again < 2; ++again)

namespace {
template<class T> void topology(Ctx& c)
{
	Src& s = c.s;
	Cx cx = genComplex(s, 6);
	// The neighbours do not depend on the coordinates
	const int scale = s.chance(1, 5) ? (int)s.num(40) : 0;
	for(auto& p : cx.v) for(double& x : p) x = (double)(T)std::ldexp(x, scale);
	double least = 1e300;
	for(size_t e = 0; e < cx.t.size(); ++e) least = std::min(least, std::abs(cx.area2(e)));
	const bool valid = least > 16 * (double)eps<T>() && scale > -16;// Areas below epsilon count as none
	NOTE(cx.str());
	NS::Mesh<T, 2> m;
	if(s.coin()) { m.reserveVertices(cx.v.size()); m.reserveElements(s.coin() ? cx.t.size() : 1); }
	build(m, cx);
	sameMesh(m, cx);
	REQ(m.edges().empty(), "edges before they are set up");
	// Flags of the user
	std::vector<NS::uint32> flags(cx.v.size(), 0);
	if(s.chance(1, 3)) for(size_t i = 0; i < cx.v.size(); ++i) { flags[i] = (NS::uint32)s.raw(3); if(flags[i] == 1) flags[i] = 4; m.vertex(i)->Flags = flags[i]; }
	const bool early = s.coin();
	if(early) m.prepare();
	m.setupNeighbors();
	const NS::Mesh<T, 2>& q = m;
	sameMesh(q, cx);
	sameEdges(q, cx);
	for(size_t i = 0; i < cx.v.size(); ++i) REQ(q.vertex(i)->Flags == flags[i], "setting up neighbours changes the flags of vertex " << i);
	if(s.coin()) { m.setupNeighbors(); c.label("neighbours twice"); }
	sameEdges(q, cx);
	if(!early) m.prepare();
	if(valid) q.validate();
	m.setupBoundaries();
	if(s.chance(1, 4)) m.setupBoundaries();
	sameBoundary(q, cx);
	for(size_t i = 0; i < cx.v.size(); ++i) REQ((q.vertex(i)->Flags & ~1u) == (flags[i] & ~1u), "marking the boundary changes other flags of vertex " << i);
	sameMesh(q, cx);
	sameEdges(q, cx);
	if(valid) q.validate();
	for(size_t e = 0; e < cx.t.size(); ++e) {
		const double v = std::abs(cx.area2(e)) / 2;
		if(valid) REQ(std::abs((double)q.element(e)->Element.volume() - v) <= 64 * (double)eps<T>() * 100 * std::ldexp(1, 2 * scale), "volume of element " << e << " is " << q.element(e)->Element.volume() << " instead of " << v);
	}
	size_t inner = 0;
	for(const auto& e : cx.edges()) inner += e.second.size() == 2;
	c.label(inner == cx.edges().size(), "closed surface");
	c.label(cx.boundary().size() < cx.v.size(), "inner vertices");
	c.nontrivial(inner > 0);
}
// Neighbours can be set up again after more elements have been added
template<class T> void grow(Ctx& c)
{
	Src& s = c.s;
	Cx cx = genComplex(s, 4);
	NS::Mesh<T, 2> m;
	NOTE(cx.str());
	for(const auto& p : cx.v) m.addVertex(new NS::MeshVertex<T, 2>(point<T>(p)));
	Cx part;
	part.v = cx.v;
	for(size_t e = 0; e < cx.t.size(); ++e) {
		NS::MeshElement<T, 2>* el = new NS::MeshElement<T, 2>();
		for(int i = 0; i < 3; ++i) el->Vertices[i] = m.vertex(cx.t[e][i]);
		m.addElement(el);
		part.t.push_back(cx.t[e]);
		if(e + 1 == cx.t.size() || s.chance(1, 3)) {
			NOTE("neighbours with " << e + 1 << " elements");
			m.setupNeighbors();
			sameMesh(m, part);
			sameEdges(m, part);
			if(e + 1 < cx.t.size()) c.label("neighbours in between");
		}
	}
	m.setupBoundaries();
	sameBoundary(m, cx);
	c.nontrivial(cx.t.size() > 2);
}
template<class T> void crowded(Ctx& c)
{
	Src& s = c.s;
	Cx cx = genComplex(s, 3);
	// Further triangles on one edge, until it has three or more
	const auto es = cx.edges();
	size_t k = (size_t)s.raw(es.size());
	auto it = es.begin();
	while(k--) ++it;
	const size_t want = s.size(3, 4);
	for(size_t n = it->second.size(); n < want; ++n) {
		std::vector<size_t> third;
		for(size_t w = 0; w < cx.v.size(); ++w) {
			bool used = w == it->first.first || w == it->first.second;
			for(const auto& t : cx.t) if(std::set<size_t>(t.begin(), t.end()) == std::set<size_t>{w, it->first.first, it->first.second}) used = true;
			if(!used) third.push_back(w);
		}
		size_t w;
		if(!third.empty() && s.coin()) w = s.of(third);
		else { w = cx.v.size(); cx.v.push_back({{(double)s.num(30) / 4, (double)s.num(30) / 4}}); }
		std::array<size_t, 3> t = {{it->first.first, it->first.second, w}};
		std::rotate(t.begin(), t.begin() + s.raw(3), t.end());
		cx.t.insert(cx.t.begin() + s.raw(cx.t.size() + 1), t);
	}
	NOTE(cx.str() << " crowded edge " << it->first.first << "-" << it->first.second);
	NS::Mesh<T, 2> m;
	build(m, cx);
	THROWS(NS::TooManySharedFacesException, "edge of " << want << " elements", m.setupNeighbors());
	sameMesh(m, cx);
	c.nontrivial(cx.t.size() > 3);
}
template<class T> void inconsistent(Ctx& c)
{
	Src& s = c.s;
	const Cx cx = genComplex(s, 3, 0, 0.2);
	typedef NS::MeshVertex<T, 2> MV;
	typedef NS::MeshElement<T, 2> ME;
	NS::Mesh<T, 2> m;
	NOTE(cx.str());
	build(m, cx);
	const size_t nv = cx.v.size(), ne = cx.t.size();
	const size_t a = (size_t)s.raw(nv), e = (size_t)s.raw(ne), i = (size_t)s.raw(3);
	MV* lonely = nullptr;
	const unsigned kind = (unsigned)s.raw(8);
	static const char* const names[] = {"index", "isolated vertex", "foreign element", "missing vertex", "moved vertex", "flat element", "no neighbours", "one neighbour missing"};
	NOTE("fault: " << names[kind] << ", vertex " << a << ", element " << e << ", local " << i);
	c.label(names[kind]);
	if(kind == 5) { // Vertices of one element in line, element and vertices agree
		const double x = cx.v[cx.t[e][0]][0], y = cx.v[cx.t[e][0]][1];
		const double f = (double)s.num(4) / 2, f2 = (double)s.num(4) / 2, dx = (double)s.num(4), dy = (double)s.num(4);
		const std::array<double, 2> q[3] = {{{x, y}}, {{x + f * dx, y + f * dy}}, {{x + f2 * dx, y + f2 * dy}}};
		for(size_t k = 0; k < 3; ++k) m.vertex(cx.t[e][k])->Vertex = point<T>(q[k]);
		for(auto el : m.elements()) for(size_t k = 0; k < 3; ++k) el->Element[k] = el->Vertices[k]->Vertex;
		if((T)((q[1][0] - x) * (q[2][1] - y) - (q[1][1] - y) * (q[2][0] - x)) != 0) throw pbt::Discard();
	}
	if(kind == 1) {
		lonely = new MV(point<T>({{(double)s.num(9), (double)s.num(9)}}));
		m.addVertex(lonely);
	}
	if(kind != 6) m.setupNeighbors();
	m.prepare();
	if(kind != 1 && kind != 6 && kind != 5) m.validate(); // Fine so far
	switch(kind) {
	case 0:
		if(s.coin() && nv > 1) { // Two exchanged
			const size_t b = (a + 1 + (size_t)s.raw(nv - 1)) % nv;
			std::swap(m.vertex(a)->GlobalIndex, m.vertex(b)->GlobalIndex);
		} else if(a > 0 && s.coin()) m.vertex(a)->GlobalIndex = s.raw(a);
		else m.vertex(a)->GlobalIndex += 1 + s.raw(5);
		AGAIN THROWS(NS::InvalidVertexIndexException, "wrong vertex index", m.validate());
		break;
	case 1: AGAIN THROWS(NS::IsolatedVertexException, "vertex without element", m.validate()); break;
	case 2: {
		std::vector<size_t> other;
		for(size_t x = 0; x < ne; ++x) if(std::find(cx.t[x].begin(), cx.t[x].end(), a) == cx.t[x].end()) other.push_back(x);
		if(other.empty()) throw pbt::Discard();
		auto& l = m.vertex(a)->Elements;
		l.insert(l.begin() + s.raw(l.size() + 1), m.element(s.of(other)));
		AGAIN THROWS(NS::MalformedVertexElementConnectionException, "vertex lists an element that does not contain it", m.validate());
		break;
	}
	case 3: {
		// The vertex does not list the element either, so only the element is wrong
		ME* el = m.element(e);
		auto& l = el->Vertices[i]->Elements;
		const bool only = l.size() == 1;
		l.erase(std::find(l.begin(), l.end(), el));
		el->Vertices[i] = nullptr;
		if(only) { AGAIN THROWS(NS::MeshException, "element without vertex", m.validate()); }
		else AGAIN THROWS(NS::IncompleteElementException, "element without vertex", m.validate());
		break;
	}
	case 4: {
		T d = (T)((double)(1 + s.raw(8)) / 4);
		if(s.coin()) d = -d;
		if(s.coin()) m.vertex(a)->Vertex[s.raw(2)] += d;
		else m.element(e)->Element[i][s.raw(2)] += d;
		AGAIN THROWS(NS::IncompleteElementException, "vertex and element at different points", m.validate());
		break;
	}
	case 5: AGAIN THROWS(NS::ZeroVolumeSimplexException, "element without area", m.validate()); break;
	case 6: AGAIN THROWS(NS::MalformedElementNeighborConnectionException, "no neighbours", m.validate()); break;
	default:
		m.element(e)->Neighbors[i] = nullptr;
		AGAIN THROWS(NS::MalformedElementNeighborConnectionException, "missing neighbour", m.validate());
		break;
	}
	c.nontrivial(ne > 1);
}
}
