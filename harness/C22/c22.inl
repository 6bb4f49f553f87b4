// C22: numbering of the degrees of freedom
#include "../meshgen.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
using namespace h;

namespace {
// Checks the numbering against the documented local order [x0 x1 x2 | middle x0x1, middle x1x2, middle x2x0]
template<class T, NS::Dimension Order> void checkDOF(const NS::Mesh<T, 2>& m, const Cx& cx, bool boundaries, const std::vector<NS::uint32>& flags)
{
	const size_t nv = cx.v.size(), N = Order == 1 ? 3 : 6;
	const auto edges = cx.edges();
	const std::set<size_t> border = cx.boundary();
	const size_t declared = NS::PolyShapePolicy<T, 2, Order>::DOF;
	REQ(declared == N, "the element declares " << declared << " degrees of freedom");
	REQ(m.vertices().size() == nv + (Order == 1 ? 0 : edges.size()), m.vertices().size() << " degrees of freedom instead of " << nv + (Order == 1 ? 0 : edges.size()));
	sameMesh(m, cx, true);
	sameEdges(m, cx);
	for(size_t i = 0; i < m.vertices().size(); ++i) REQ(m.vertex(i) && m.vertex(i)->GlobalIndex == i, "vertex " << i << " has index " << m.vertex(i)->GlobalIndex);
	for(size_t i = 0; i < nv; ++i) {
		const NS::uint32 want = flags[i] | (boundaries && border.count(i) ? NS::MVF_StrongBoundary : 0u);
		REQ(m.vertex(i)->Flags == want, "vertex " << i << " has flags " << m.vertex(i)->Flags << " instead of " << want);
	}
	std::map<Cx::Edge, const NS::MeshVertex<T, 2>*> mid;
	std::map<const NS::MeshVertex<T, 2>*, std::multiset<const NS::MeshElement<T, 2>*> > inc;
	std::map<const NS::MeshVertex<T, 2>*, Cx::Edge> back;
	for(size_t e = 0; e < cx.t.size(); ++e) {
		const NS::MeshElement<T, 2>* el = m.element(e);
		REQ(el->DOFVertices.size() == N, "element " << e << " has " << el->DOFVertices.size() << " degrees of freedom instead of " << N);
		for(int i = 0; i < 3; ++i) REQ(el->DOFVertices[i] == el->Vertices[i], "degree of freedom " << i << " of element " << e << " is not its vertex " << i);
		for(size_t k = 3; k < N; ++k) {
			const size_t a = cx.t[e][k - 3], b = cx.t[e][(k - 2) % 3];
			const Cx::Edge id = Cx::edge(a, b);
			const NS::MeshVertex<T, 2>* v = el->DOFVertices[k];
			REQ(v && v->GlobalIndex >= nv && v->GlobalIndex < m.vertices().size() && m.vertex(v->GlobalIndex) == v, "degree of freedom " << k << " of element " << e << " is not a new vertex of the mesh");
			if(!mid.count(id)) {
				REQ(!back.count(v), "edges " << id.first << "-" << id.second << " and " << back[v].first << "-" << back[v].second << " have the same degree of freedom");
				mid[id] = v; back[v] = id;
			}
			REQ(mid[id] == v, "elements of edge " << id.first << "-" << id.second << " do not share their degree of freedom");
			inc[v].insert(el);
			for(int d = 0; d < 2; ++d) {
				const double x = (cx.v[a][d] + cx.v[b][d]) / 2;
				REQ(std::abs((double)v->Vertex[d] - x) <= 4 * (double)eps<T>() * (std::abs(cx.v[a][d]) + std::abs(cx.v[b][d])), "degree of freedom " << k << " of element " << e << " is not in the middle of its edge: coordinate " << d << " is " << v->Vertex[d] << " instead of " << x);
			}
			const NS::uint32 want = NS::MVF_Implicit | (edges.at(id).size() == 1 ? NS::MVF_StrongBoundary : 0u);
			REQ(v->Flags == want, "middle of edge " << id.first << "-" << id.second << " has flags " << v->Flags << " instead of " << want);
		}
	}
	for(const auto& x : inc) REQ(x.second == (std::multiset<const NS::MeshElement<T, 2>*>(x.first->Elements.begin(), x.first->Elements.end())), "middle of edge " << back[x.first].first << "-" << back[x.first].second << " lists other elements than those sharing it");
	for(auto e : m.edges()) {
		const Cx::Edge id = Cx::edge(e->Vertices[0]->GlobalIndex, e->Vertices[1]->GlobalIndex);
		REQ(e->DOFVertices.size() == (Order == 1 ? 2 : 3), "edge " << id.first << "-" << id.second << " has " << e->DOFVertices.size() << " degrees of freedom");
		REQ((e->DOFVertices[0] == e->Vertices[0] && e->DOFVertices[1] == e->Vertices[1]) , "degrees of freedom of edge " << id.first << "-" << id.second << " are not its vertices");
		if(Order == 2) REQ(e->DOFVertices[2] == mid[id], "degree of freedom of edge " << id.first << "-" << id.second << " is not the one of its elements");
	}
	m.validate();
}
// Big: more degrees of freedom than 16 bits can count
template<class T, NS::Dimension Order, bool Big = false> void numbering(Ctx& c)
{
	Src& s = c.s;
	Cx cx;
	NS::Mesh<T, 2> m;
	std::vector<NS::uint32> flags;
	bool boundaries = s.coin();
	if(Big || s.chance(1, 5)) {
		NS::FixedVector<NS::Dimension, 2> n; const size_t most = s.chance(1, 20) ? 20 : 5; n[0] = s.size(1, most); n[1] = s.size(1, most);
		if(Big) { n[0] = s.size(2, 400); n[1] = s.size(1, 10) + (Order == 1 ? 66000 : 16500) / n[0]; }
		NS::FixedVector<T, 2> size; size[0] = (T)s.size(1, 4); size[1] = (T)s.size(1, 4);
		NS::FixedVector<T, 2> off; off[0] = (T)s.num(4); off[1] = (T)s.num(4);
		m = NS::HyperCube<T, 2>::generate(n, size, off);
		for(auto v : m.vertices()) { cx.v.push_back({{(double)v->Vertex[0], (double)v->Vertex[1]}}); flags.push_back(v->Flags & ~(NS::uint32)NS::MVF_StrongBoundary); }
		for(auto e : m.elements()) cx.t.push_back({{e->Vertices[0]->GlobalIndex, e->Vertices[1]->GlobalIndex, e->Vertices[2]->GlobalIndex}});
		boundaries = true;
		c.label("generated grid");
	} else {
		cx = genComplex(s, 5);
		build(m, cx);
		flags.assign(cx.v.size(), 0);
		if(s.chance(1, 3)) for(size_t i = 0; i < cx.v.size(); ++i) m.vertex(i)->Flags = flags[i] = (NS::uint32)s.raw(2);
		m.setupNeighbors();
		if(boundaries) m.setupBoundaries();
	}
	if(!Big) NOTE(cx.str());
	else NOTE(cx.v.size() << " vertices");
	m.prepare();
	NS::PolyShapeFunction<T, 2, Order> f;
	NS::PolyShapeFunction<T, 2, Order>::prepareMesh(m);
	checkDOF<T, Order>(m, cx, boundaries, flags);
	// Node of the shape function and point of the degree of freedom agree
	for(size_t e = 0; e < cx.t.size(); ++e) for(size_t i = 0; i < m.element(e)->DOFVertices.size(); ++i) {
		double mx = 1, d = 0;
		for(size_t a : cx.t[e]) for(int k = 0; k < 2; ++k) { mx = std::max(mx, std::abs(cx.v[a][k])); for(size_t b : cx.t[e]) d = std::max(d, std::abs(cx.v[a][k] - cx.v[b][k])); }
		const double tol = 256 * (double)eps<T>() * (1 + mx * d / std::abs(cx.area2(e)));
		const auto local = m.element(e)->Element.toLocal(m.element(e)->DOFVertices[i]->Vertex);
		for(size_t j = 0; j < m.element(e)->DOFVertices.size(); ++j)
			REQ(std::abs((double)f.value(j, local) - (i == j ? 1 : 0)) <= tol, "function " << j << " is " << f.value(j, local) << " at degree of freedom " << i << " of element " << e);
	}
	// The validation knows the new vertices
	if(s.chance(1, 4) && m.vertices().size() > cx.v.size() && cx.t.size() > 1) {
		auto v = m.vertex(cx.v.size() + s.raw(m.vertices().size() - cx.v.size()));
		for(auto e : m.elements()) if(std::find(e->DOFVertices.begin(), e->DOFVertices.end(), v) == e->DOFVertices.end()) {
			v->Elements.push_back(e);
			THROWS(NS::MalformedVertexElementConnectionException, "middle of an edge lists a foreign element", m.validate());
			break;
		}
	}
	size_t inner = 0;
	for(const auto& e : cx.edges()) inner += e.second.size() == 2;
	c.nontrivial(inner > 0);
}
}
