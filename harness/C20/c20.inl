// C20: grids generated over a rectangle
#include "../meshgen.h"
#include "mesh/HyperCube.h"
using namespace h;

namespace {
template<class T> NS::Mesh<T, 2> make(size_t nx, size_t ny, T w, T hgt, T ox, T oy)
{
	NS::FixedVector<NS::Dimension, 2> n;
	n[0] = nx; n[1] = ny;
	NS::FixedVector<T, 2> size, off;
	size[0] = w; size[1] = hgt; off[0] = ox; off[1] = oy;
	return NS::HyperCube<T, 2>::generate(n, size, off);
}
template<class T> T extent(Src& s)
{
	switch(s.raw(5)) {
	case 4: return (T)std::ldexp((double)s.size(1, 15), (int)s.num(eps<T>() > 1e-10 ? 40 : 200));
	case 0: return (T)s.size(1, 8);
	case 1: return (T)((double)s.size(1, 64) / 16);
	case 2: return (T)((double)s.size(1, 1000) / 37);
	default: return (T)std::ldexp((double)s.size(1, 15), (int)s.range(-3, 8));
	}
}
template<class T> T offset(Src& s)
{
	switch(s.raw(3)) {
	case 0: return 0;
	case 1: return (T)((double)s.num(100) / 8);
	default: return (T)((double)s.num(1000) / 37);
	}
}
// Big: more vertices than 16 bits can count
template<class T, bool Big = false> void grid(Ctx& c)
{
	Src& s = c.s;
	const size_t big = s.chance(1, 20) ? 24 : 9;
	size_t nx = s.size(1, big), ny = s.size(1, big);
	if(s.chance(1, 100)) { if(s.coin()) nx = s.size(24, 300); else ny = s.size(24, 300); }
	if(Big) switch(s.raw(3)) {
	case 0: nx = s.size(eps<T>() < 1e-10 ? 2 : 16, 600); ny = s.size(1, 20) + 66000 / nx; break;
	case 1: ny = 1; nx = eps<T>() < 1e-10 ? s.size(65530, 72000) : s.size(4000, 8000); break;
	default: nx = 1; ny = eps<T>() < 1e-10 ? s.size(65530, 72000) : s.size(4000, 8000); break;
	}
	else if(s.chance(1, 200)) { if(s.coin()) nx = s.size(1000, 8000), ny = 1; else ny = s.size(1000, 8000), nx = 1; }
	const bool still = Big && eps<T>() > 1e-10;// No precision to spare
	const T w = extent<T>(s), hgt = extent<T>(s), ox = still ? 0 : s.coin() ? offset<T>(s) : w * (T)((double)s.num(20) / 4), oy = still ? 0 : s.coin() ? offset<T>(s) : hgt * (T)((double)s.num(20) / 4);
	NOTE(nx << " x " << ny << " cells, size " << w << " x " << hgt << ", offset " << ox << ", " << oy);
	const double hx = (double)w / (double)nx, hy = (double)hgt / (double)ny;
	const double tx = 16 * (double)eps<T>() * ((double)w + std::abs((double)ox)), ty = 16 * (double)eps<T>() * ((double)hgt + std::abs((double)oy));
	if(tx > hx / 64 || ty > hy / 64) throw pbt::Discard();// Cells finer than the number type
	NS::Mesh<T, 2> m = make<T>(nx, ny, w, hgt, ox, oy);
	REQ(m.vertices().size() == (nx + 1) * (ny + 1), m.vertices().size() << " vertices");
	REQ(m.elements().size() == 2 * nx * ny, m.elements().size() << " elements");

	// Vertices are the lattice points, each once
	std::map<std::pair<size_t, size_t>, size_t> at;
	std::vector<std::pair<size_t, size_t> > lat;
	Cx cx;
	for(size_t i = 0; i < m.vertices().size(); ++i) {
		const double x = (double)m.vertex(i)->Vertex[0], y = (double)m.vertex(i)->Vertex[1];
		const double lx = std::round((x - (double)ox) / hx), ly = std::round((y - (double)oy) / hy);
		REQ(lx >= 0 && lx <= (double)nx && ly >= 0 && ly <= (double)ny, "vertex " << i << " at " << x << ", " << y << " is outside");
		REQ(std::abs((double)ox + lx * hx - x) <= tx && std::abs((double)oy + ly * hy - y) <= ty, "vertex " << i << " at " << x << ", " << y << " is not a lattice point");
		const std::pair<size_t, size_t> p((size_t)lx, (size_t)ly);
		REQ(at.insert(std::make_pair(p, i)).second, "lattice point " << p.first << ", " << p.second << " is there twice");
		lat.push_back(p);
		const bool border = p.first == 0 || p.second == 0 || p.first == nx || p.second == ny;
		REQ(((m.vertex(i)->Flags & NS::MVF_StrongBoundary) != 0) == border, "vertex at lattice point " << p.first << ", " << p.second << (border ? " is not marked as boundary" : " is marked as boundary"));
		REQ(!(m.vertex(i)->Flags & NS::MVF_Implicit), "vertex " << i << " is marked as implicit");
		cx.v.push_back({{(double)m.vertex(i)->Vertex[0], (double)m.vertex(i)->Vertex[1]}});
	}
	// Every cell is covered by exactly two triangles that are different halves along one diagonal
	std::map<std::pair<size_t, size_t>, std::vector<std::set<std::pair<size_t, size_t> > > > cells;
	double sum = 0;
	const bool measurable = std::min(hx, hy) > 4 * (double)eps<T>();// Determinants vanish for shorter edges
	m.prepare();
	for(size_t e = 0; e < m.elements().size(); ++e) {
		std::set<std::pair<size_t, size_t> > q;
		std::array<size_t, 3> t;
		std::pair<size_t, size_t> lo(nx, ny), hi(0, 0);
		for(int i = 0; i < 3; ++i) {
			const NS::MeshVertex<T, 2>* v = m.element(e)->Vertices[i];
			REQ(v && v->GlobalIndex < lat.size() && m.vertex(v->GlobalIndex) == v, "element " << e << " has a foreign vertex");
			t[i] = v->GlobalIndex;
			const auto p = lat[t[i]];
			q.insert(p);
			lo.first = std::min(lo.first, p.first); lo.second = std::min(lo.second, p.second);
			hi.first = std::max(hi.first, p.first); hi.second = std::max(hi.second, p.second);
		}
		cx.t.push_back(t);
		REQ(q.size() == 3, "element " << e << " has a vertex twice");
		REQ(hi.first - lo.first == 1 && hi.second - lo.second == 1, "element " << e << " is not within one cell");
		cells[lo].push_back(q);
		const double a = (double)m.element(e)->Element.volume();
		if(measurable) REQ(std::abs(a - hx * hy / 2) <= tx * hy * 2 + ty * hx * 2, "area of element " << e << " is " << a << " instead of " << hx * hy / 2);
		sum += a;
	}
	if(measurable) REQ(std::abs(sum - (double)w * (double)hgt) <= (tx * (double)hgt * (double)nx + ty * (double)w * (double)ny) * 4, "total area " << sum << " instead of " << (double)w * (double)hgt);
	REQ(cells.size() == nx * ny, cells.size() << " cells are covered");
	for(const auto& k : cells) {
		const size_t i = k.first.first, j = k.first.second;
		REQ(k.second.size() == 2, "cell " << i << ", " << j << " has " << k.second.size() << " elements");
		std::set<std::pair<size_t, size_t> > common;
		std::set_intersection(k.second[0].begin(), k.second[0].end(), k.second[1].begin(), k.second[1].end(), std::inserter(common, common.begin()));
		REQ(common.size() == 2 && common.begin()->first != common.rbegin()->first && common.begin()->second != common.rbegin()->second, "elements of cell " << i << ", " << j << " overlap");
	}
	// A conforming, connected mesh
	sameMesh(m, cx);
	if(m.edges().empty()) m.setupNeighbors();
	sameEdges(m, cx);
	REQ(m.edges().size() == nx * (ny + 1) + ny * (nx + 1) + nx * ny, m.edges().size() << " edges");
	size_t outer = 0;
	for(const auto& e : cx.edges()) outer += e.second.size() == 1;
	REQ(outer == 2 * (nx + ny), outer << " edges at the border");
	if((double)m.element(0)->Element.volume() > 4 * (double)eps<T>()) m.validate();
	sameBoundary(m, cx);
	c.label(nx != ny, "different counts");
	c.label(nx == 1 || ny == 1, "one row");
	c.nontrivial(nx * ny > 1);
}
template<class T> void refused(Ctx& c)
{
	Src& s = c.s;
	const size_t n = s.raw(6);
	const T w = extent<T>(s), hgt = extent<T>(s);
	THROWS(NS::InvalidElementCountException, "no cells", make<T>(0, n, w, hgt, 0, 0));
	THROWS(NS::InvalidElementCountException, "no cells", make<T>(n, 0, w, hgt, 0, 0));
	c.nontrivial(n > 0);
}
}
