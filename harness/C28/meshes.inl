#include "c28.h"
#include "mesh/HyperCube.h"
#include "quadrature/Quadrature.h"
#include "sf/PolyShapeFunction.h"
#include "export/VTKExporter.h"
#include "loader/MeshTriangleLoader.h"
#include "loader/MeshObjLoader.h"
#include "CG.h"
#include <fstream>
#include <unistd.h>

namespace {
using namespace NS;
void spit(const std::string& path, const std::string& t) { std::ofstream f(path.c_str(), std::ios::binary); f << t; }
std::string slurp(const std::string& path) { std::ifstream f(path.c_str(), std::ios::binary); std::stringstream t; t << f.rdbuf(); return t.str(); }

template<class T> using Plane = Mesh<T, 2>;
template<class T, size_t K> FixedVector<T, K> place(Src& s) { FixedVector<T, K> v; for(size_t i = 0; i < K; ++i) v[i] = (T)((double)s.num(32) / 8); return v; }
template<class T, size_t K> void simplex(Src& s, Out& o)
{
	Simplex<T, K> x;
	for(size_t i = 0; i <= K; ++i) { x[i] = place<T, K>(s); if(i) x[i][i - 1] += (T)9; }
	x.prepare();
	o.x(x.volume()); o.v(x.center()); o.x(x.determinant()); o.m(x.matrix()); o.m(x.inverseMatrix());
	const FixedVector<T, K> p = place<T, K>(s);
	o.v(x.toLocal(p)); o.v(x.toGlobal(p));
	for(size_t i = 0; i <= K; ++i) o.v(x.gradient(i));
	std::array<FixedVector<T, K>, K - 1> d;
	for(size_t i = 0; i + 1 < K; ++i) { d[i] = place<T, K>(s); d[i][i] += (T)9; }
	o.v(Math::normal<T, K>(d));
}
template<class T> void triangle(Src& s, Out& o)
{
	simplex<T, 2>(s, o);
	Simplex<T, 2> x;
	for(size_t i = 0; i <= 2; ++i) { x[i] = place<T, 2>(s); if(i) x[i][i - 1] += (T)9; }
	x.prepare();
	o.x(x.outerRadius()); o.x(x.diameter());
	for(size_t i = 0; i < 3; ++i) { o.v(x.faceCenter(i)); o.v(x.faceNormal(i)); }
}
template<class T, size_t K, size_t N> void rule(Src& s, Out& o)
{
	const GaussLegendreQuadratureFactory<T, K, N> f;
	for(const auto& p : f.getQuadraturePoints()) o.v(p);
	for(const auto& w : f.getQuadratureWeights()) o.x(w);
	const GaussLegendreQuadrature<T, K, N> q;
	const T a = (T)s.num(4), b = (T)s.num(4);
	const auto g = [&](const FixedVector<T, K>& p) -> T { T r = a; for(size_t i = 0; i < K; ++i) r += b * p[i] * p[0]; return r; };
	o.x(q.eval(g)); o.x(q.eval(g, (T)2));
	o.x(q.eval_index([&](Index i, const FixedVector<T, K>& p) -> T { return g(p) + (T)i; }));
}
template<class T, size_t K, size_t N> void shape(Src& s, Out& o)
{
	typedef PolyShapeFunction<T, K, N> F;
	const F f;
	FixedVector<T, F::DOF> w;
	for(size_t i = 0; i < F::DOF; ++i) w[i] = (T)s.num(4);
	const FixedVector<T, K> p = place<T, K>(s);
	for(size_t i = 0; i < F::DOF; ++i) {
		o.x(f.value(i, p)); o.v(f.gradient(i, p)); o.v(f.gradient2(i, p));
		o.x(f.value(i, p, w)); o.v(f.gradient(i, p, w)); o.v(f.gradient2(i, p, w));
	}
}
template<class T> void rules(Src& s, Out& o)
{
	rule<T, 1, 1>(s, o); rule<T, 1, 2>(s, o); rule<T, 1, 3>(s, o); rule<T, 2, 1>(s, o); rule<T, 2, 2>(s, o); rule<T, 2, 3>(s, o);
}
template<class T> void shapes(Src& s, Out& o)
{
	shape<T, 1, 1>(s, o); shape<T, 1, 2>(s, o); shape<T, 2, 1>(s, o); shape<T, 2, 2>(s, o); shape<T, 3, 1>(s, o); shape<T, 3, 2>(s, o);
}
// What the mesh says, in the order of vertices and elements
template<class T> void tell(Out& o, const Mesh<T, 2>& m)
{
	const auto id = [&](const MeshVertex<T, 2>* v) { return v ? (uint64_t)v->GlobalIndex : ~(uint64_t)0; };
	std::map<const MeshElement<T, 2>*, uint64_t> e;
	for(size_t i = 0; i < m.elements().size(); ++i) e[m.element(i)] = i + 1;
	o.n(m.vertices().size());
	for(const auto* v : m.vertices()) { o.n(v->Flags); o.n(v->GlobalIndex); o.v(v->Vertex); for(const auto* x : v->Elements) o.n(e[x]); }
	o.n(m.elements().size());
	for(const auto* x : m.elements()) {
		for(int i = 0; i < 3; ++i) { o.n(id(x->Vertices[i])); o.n(x->Neighbors[i] != nullptr); o.v(x->Element[i]); }
		for(const auto* d : x->DOFVertices) o.n(id(d));
	}
	std::vector<std::vector<uint64_t> > edges;
	for(const auto* x : m.edges()) {
		std::vector<uint64_t> r;
		std::set<uint64_t> a = {id(x->Vertices[0]), id(x->Vertices[1])}, b = {e[x->Elements[0]], x->Elements[1] ? e[x->Elements[1]] : 0};
		r.insert(r.end(), a.begin(), a.end()); r.insert(r.end(), b.begin(), b.end());
		for(const auto* d : x->DOFVertices) r.push_back(id(d));
		edges.push_back(r);
	}
	std::sort(edges.begin(), edges.end());
	for(const auto& r : edges) for(uint64_t w : r) o.n(w);
}
template<class T> void geometry(Out& o, const Mesh<T, 2>& m)
{
	for(const auto* x : m.elements()) { o.x(x->Element.volume()); o.v(x->Element.center()); o.m(x->Element.inverseMatrix()); for(int i = 0; i < 3; ++i) o.v(x->Element.gradient(i)); }
}
template<class T> void exported(Src& s, Out& o, const Mesh<T, 2>& m)
{
	DynamicVector<T> p(m.vertices().size()), c(m.elements().size());
	for(size_t i = 0; i < p.size(); ++i) p[i] = (T)s.num(9);
	for(size_t i = 0; i < c.size(); ++i) c[i] = (T)s.num(9);
	std::map<std::string, DynamicVector<T>*> pd, cd;
	if(s.coin()) pd["p"] = &p;
	if(s.coin()) cd["c"] = &c;
	const std::string f = ownFile(".vtu");
	VTKExporter<T, 2>::write(f, m, pd, cd, (int)s.raw(32));
	o.str(slurp(f));
}
template<class T, size_t N> void finish(Mesh<T, 2>& m) { PolyShapeFunction<T, 2, N>::prepareMesh(m); }
template<class T> Mesh<T, 2> genMesh(Src& s)
{
	Mesh<T, 2> m;
	build(m, genComplex(s, 3));
	m.setupNeighbors();
	m.setupBoundaries();
	m.prepare();
	if(s.coin()) { if(s.coin()) finish<T, 1>(m); else finish<T, 2>(m); }
	return m;
}
template<class T> void mesh(Src& s, Out& o)
{
	Mesh<T, 2> m = genMesh<T>(s);
	m.validate();
	tell(o, m); geometry(o, m); exported(s, o, m);
	Mesh<T, 2> a(m), b(std::move(m));
	tell(o, a); tell(o, b);
	a.clear(); tell(o, a);
	b = a; tell(o, b);
	MeshVertex<T, 2> v; MeshElement<T, 2> e; MeshEdge<T, 2> g;
	o.n(v.Flags); o.v(v.Vertex); o.n(v.GlobalIndex);
	for(int i = 0; i < 3; ++i) { o.n(e.Vertices[i] == nullptr); o.n(e.Neighbors[i] == nullptr); }
	for(int i = 0; i < 2; ++i) { o.n(g.Vertices[i] == nullptr); o.n(g.Elements[i] == nullptr); }
}
template<class T> void cube(Src& s, Out& o)
{
	FixedVector<Dimension, 2> n;
	n[0] = s.size(1, 5); n[1] = s.size(1, 5);
	FixedVector<T, 2> size = place<T, 2>(s), off = place<T, 2>(s);
	for(int i = 0; i < 2; ++i) size[i] = std::abs(size[i]) + (T)1;
	Mesh<T, 2> m = HyperCube<T, 2>::generate(n, size, off);
	m.prepare(); m.validate();
	if(s.coin()) finish<T, 2>(m);
	tell(o, m); geometry(o, m); exported(s, o, m);
}
// Stiffness matrix and solution
template<class T, size_t N> void poisson(Src& s, Out& o)
{
	FixedVector<Dimension, 2> n;
	n[0] = s.size(1, 3); n[1] = s.size(1, 3);
	FixedVector<T, 2> size, off;
	size[0] = (T)s.size(1, 3); size[1] = (T)s.size(1, 3);
	Mesh<T, 2> m = HyperCube<T, 2>::generate(n, size, off);
	m.prepare();
	finish<T, N>(m);
	const PolyShapeFunction<T, 2, N> f;
	const GaussLegendreQuadrature<T, 2, N + 1> q;
	const size_t all = m.vertices().size();
	SparseMatrix<T> A(all, all);
	DynamicVector<T> B(all);
	for(const auto* e : m.elements()) for(size_t i = 0; i < (N + 1) * (N + 2) / 2; ++i) {
		const size_t a = e->DOFVertices[i]->GlobalIndex;
		for(size_t j = 0; j < (N + 1) * (N + 2) / 2; ++j) {
			const size_t b = e->DOFVertices[j]->GlobalIndex;
			const auto inv = e->Element.inverseMatrix();
			A.set(a, b, A.at(a, b) + std::abs(e->Element.determinant()) * q.eval([&](const FixedVector<T, 2>& p) -> T { return inv.mul_left(f.gradient(i, p)).dot(inv.mul_left(f.gradient(j, p))); }));
		}
		B[a] += e->Element.volume();
	}
	for(size_t i = 0; i < all; ++i) A.set(i, i, A.at(i, i) + (T)1);
	o.m(A);
	size_t it = 0;
	o.v(CG::serial::cg(A, B, DynamicVector<T>(all), 500, 1e-5, &it)); o.n(it);
}
template<class T> void poisson1(Src& s, Out& o) { poisson<T, 1>(s, o); }
template<class T> void poisson2(Src& s, Out& o) { poisson<T, 2>(s, o); }
template<class T> void triangleFiles(Src& s, Out& o)
{
	const Cx cx = genComplex(s, 3);
	Text n, e;
	n.precision(9);
	const size_t base = s.raw(2);
	n << cx.v.size() << " 2 1 1\n";
	for(size_t i = 0; i < cx.v.size(); ++i) n << i + base << ' ' << cx.v[i][0] << ' ' << cx.v[i][1] << (s.chance(1, 9) ? "" : " 0.5 1") << (s.chance(1, 9) ? " # c" : "") << '\n';
	e << cx.t.size() << " 3 0\n";
	for(size_t i = 0; i < cx.t.size(); ++i) { e << i + base; for(size_t v : cx.t[i]) e << "  " << v + base; e << '\n'; }
	if(s.chance(1, 5)) e << "9999 0 0 0\nx";
	std::string nt = n.str(), et = e.str();
	if(s.chance(1, 4)) nt.resize(s.raw(nt.size() + 1));
	if(s.chance(1, 4)) et.resize(s.raw(et.size() + 1));
	if(s.coin()) { tell(o, MeshTriangleLoader<T>::loadString(nt, et)); return; }
	const std::string a = ownFile(".a"), b = ownFile(".b");
	spit(a, nt); spit(b, et);
	tell(o, MeshTriangleLoader<T>::loadFile(a, b));
}
template<class T> void objFiles(Src& s, Out& o)
{
	const Cx cx = genComplex(s, 3);
	Text t;
	t << "# " << cx.v.size() << "\no a\n" << std::fixed;
	const bool tex = s.coin(), nor = s.coin();
	for(const auto& v : cx.v) { t << "v " << v[0] << ' ' << v[1] << " 0.5\n"; if(tex) t << "vt 0.25 0.75\n"; if(nor) t << "vn 0.0 0.0 1.0\n"; }
	for(const auto& f : cx.t) {
		if(s.chance(1, 9)) t << "g b" << s.raw(9) << "\n";
		t << 'f';
		for(size_t v : f) { t << ' ' << v + 1; if(tex || nor) t << '/'; if(tex) t << v + 1; if(nor) t << '/' << v + 1; }
		t << '\n';
	}
	std::string x = t.str();
	if(s.chance(1, 4)) x.resize(s.raw(x.size() + 1));
	if(s.coin()) { tell(o, MeshObjLoader<T>::loadString(x)); return; }
	const std::string f = ownFile(".a");
	spit(f, x);
	tell(o, MeshObjLoader<T>::loadFile(f));
}
template<class T> void readMesh(const Mesh<T, 2>& m, Src& s, Out& o)
{
	for(size_t k = s.size(1, 4); k; --k) switch(s.raw(4)) {
	case 0: m.validate(); break;
	case 1: tell(o, m); break;
	case 2: geometry(o, m); break;
	default: exported(s, o, m); break;
	}
	const auto& x = m.element(s.raw(m.elements().size()))->Element;
	const FixedVector<T, 2> p = place<T, 2>(s);
	o.v(x.toLocal(p)); o.v(x.toGlobal(p)); o.x(x.outerRadius()); o.x(x.diameter());
	for(int i = 0; i < 3; ++i) { o.v(x.faceCenter(i)); o.v(x.faceNormal(i)); }
}
template<class T> struct Discretisation { GaussLegendreQuadrature<T, 2, 3> q; PolyShapeFunction<T, 2, 2> f; GaussLegendreQuadrature<T, 1, 2> l; };
template<class T> Discretisation<T> genDiscretisation(Src&) { return Discretisation<T>(); }
template<class T> void readDiscretisation(const Discretisation<T>& d, Src& s, Out& o)
{
	const size_t i = s.raw(6), j = s.raw(6);
	o.x(d.q.eval([&](const FixedVector<T, 2>& p) -> T { return d.f.value(i, p) * d.f.value(j, p); }));
	o.x(d.q.eval([&](const FixedVector<T, 2>& p) -> T { return d.f.gradient(i, p).dot(d.f.gradient(j, p)); }));
	o.x(d.l.eval([&](const FixedVector<T, 1>& p) -> T { return p[0] * p[0]; }));
	o.v(d.f.gradient2(i, place<T, 2>(s)));
}
}
#define MESHES(T, n) \
	TASK("meshes", "linear elements " n, poisson1<T>); TASK("meshes", "quadratic elements " n, poisson2<T>); \
	TASK("meshes", "triangles " n, triangle<T>); TASK("meshes", "quadrature " n, rules<T>); TASK("meshes", "shape functions " n, shapes<T>); \
	TASK("meshes", "meshes " n, mesh<T>); TASK("meshes", "grids " n, cube<T>); TASK("meshes", "Triangle files " n, triangleFiles<T>); TASK("meshes", "OBJ files " n, objFiles<T>); \
	READERS("mesh " n, Plane<T>, genMesh<T>, readMesh<T>); READERS("quadrature and shape function " n, Discretisation<T>, genDiscretisation<T>, readDiscretisation<T>);
