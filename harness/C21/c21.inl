// C21: copies, moves, assignments, clear and destruction of meshes
#include "../meshgen.h"
#include "mesh/HyperCube.h"
using namespace h;

// Everything the meshes own is counted: what is allocated during a history has to be gone at its end
void trackBegin();
size_t trackEnd();// Number of blocks still allocated

namespace {
struct Body {
	Cx cx;
	bool edges;
	std::set<size_t> flagged;// Boundary set up for these vertices
	bool hasFlags;
	Body() : edges(false), hasFlags(false) {}
};
template<class T> struct World {
	typedef NS::Mesh<T, 2> M;
	struct Slot { M* m; int body; };// body < 0: moved from
	std::vector<Slot> slots;
	std::vector<Body> bodies;

	void check(const Slot& sl, const std::string& what) const
	{
		const Body& b = bodies[(size_t)sl.body];
		const M& m = *sl.m;
		try {
			sameMesh(m, b.cx);
			if(b.edges) sameEdges(m, b.cx);
			else REQ(m.edges().empty(), m.edges().size() << " edges without setup");
			for(size_t i = 0; i < b.cx.v.size(); ++i)
				REQ((m.vertex(i)->Flags != 0) == (b.flagged.count(i) != 0), "flags of vertex " << i << " are " << m.vertex(i)->Flags);
			if(b.edges && !b.cx.v.empty()) { for(auto e : m.elements()) e->Element.prepare(); m.validate(); }
		} catch(const pbt::Fail& f) {
			throw pbt::Fail(what + ": " + f.msg);
		}
	}
};
template<class T> NS::Mesh<T, 2> byValue(const NS::Mesh<T, 2>& m) { return m; }
template<class T> NS::Mesh<T, 2> taken(NS::Mesh<T, 2>& m) { NS::Mesh<T, 2> r(std::move(m)); return r; }

template<class T> void history(Ctx& c)
{
	typedef NS::Mesh<T, 2> M;
	Src& s = c.s;
	const size_t steps = s.small(2, 24);
	size_t transfers = 0, clears = 0;
	bool shared = false;
	{
		World<T> w;
		struct Free { World<T>& w; ~Free() { for(auto& sl : w.slots) delete sl.m; } } guard{w};
		const auto live = [&]() { std::vector<size_t> r; for(size_t i = 0; i < w.slots.size(); ++i) if(w.slots[i].body >= 0) r.push_back(i); return r; };
		const auto share = [&](int b) { size_t n = 0; for(const auto& x : w.slots) n += x.body == b; return n; };
		for(size_t k = 0; k < steps; ++k) {
			const std::vector<size_t> lv = live();
			unsigned op = (unsigned)s.raw(20);
			if(lv.empty() || (op == 0 && w.slots.size() < 5)) { // New one
				if(w.slots.size() >= 6) { NOTE("drop mesh 0"); delete w.slots[0].m; w.slots.erase(w.slots.begin()); }
				NOTE("mesh " << w.slots.size() << " created");
				w.slots.push_back(typename World<T>::Slot{new M(), (int)w.bodies.size()});
				w.bodies.push_back(Body());
				continue;
			}
			const size_t a = s.of(lv), o = (size_t)s.raw(w.slots.size());
			typename World<T>::Slot& A = w.slots[a];
			Body& B = w.bodies[(size_t)A.body];
			std::ostringstream what;
			switch(op) {
			case 0: case 1: case 2: { // Build
				if(!B.cx.t.empty() && B.cx.v.size() > 40) break;
				Cx part;
				if(s.coin()) part = genComplex(s, 2, 0, 0.2);
				else { part.v = {{{0, 0}}, {{1, 0}}, {{0, 1}}}; part.t = {{{0, 1, 2}}}; }
				what << "add " << part.str() << " to mesh " << a; NOTE(what.str());
				if(s.coin()) A.m->reserveVertices(B.cx.v.size() + part.v.size());
				build(*A.m, part);
				const size_t base = B.cx.v.size();
				for(const auto& p : part.v) B.cx.v.push_back(p);
				for(auto t : part.t) { for(auto& i : t) i += base; B.cx.t.push_back(t); }
				if(B.edges) { A.m->setupNeighbors(); }
				break;
			}
			case 3: case 4:
				what << "set up neighbours of mesh " << a; NOTE(what.str());
				if(!B.cx.t.empty()) { A.m->setupNeighbors(); B.edges = true; }
				break;
			case 5:
				what << "set up boundaries of mesh " << a; NOTE(what.str());
				if(B.edges) { A.m->setupBoundaries(); for(size_t i : B.cx.boundary()) B.flagged.insert(i); }
				break;
			case 6:
				what << "clear mesh " << a; NOTE(what.str());
				A.m->clear(); B = Body(); ++clears;
				break;
			case 7: case 8: case 9:
				if(w.slots.size() > 5) break;
				what << "mesh " << w.slots.size() << " copied from " << a; NOTE(what.str());
				w.slots.push_back(typename World<T>::Slot{s.coin() ? new M(*A.m) : new M(byValue<T>(*A.m)), A.body}); ++transfers;
				break;
			case 10: case 11: {
				if(w.slots.size() > 5) break;
				what << "mesh " << w.slots.size() << " moved from " << a; NOTE(what.str());
				const int b = A.body;
				M* n = s.coin() ? new M(std::move(*A.m)) : new M(taken<T>(*A.m));
				A.body = -1;
				w.slots.push_back(typename World<T>::Slot{n, b}); ++transfers;
				break;
			}
			case 12: case 13: {
				what << "mesh " << o << " = mesh " << a; NOTE(what.str());
				M& r = (*w.slots[o].m = *A.m);
				REQ(&r == w.slots[o].m, "assignment returns another mesh");
				w.slots[o].body = A.body; ++transfers;
				break;
			}
			case 14: case 15: {
				what << "mesh " << o << " = move(mesh " << a << ")"; NOTE(what.str());
				M& r = (*w.slots[o].m = std::move(*A.m));
				REQ(&r == w.slots[o].m, "assignment returns another mesh");
				if(o != a) { w.slots[o].body = A.body; A.body = -1; }
				++transfers;
				break;
			}
			case 16: {
				std::vector<size_t> ok;
				for(size_t i : lv) if(i != a) ok.push_back(i);
				if(ok.empty()) break;
				const size_t b = s.of(ok);
				what << "swap meshes " << a << " and " << b; NOTE(what.str());
				std::swap(*A.m, *w.slots[b].m);
				std::swap(A.body, w.slots[b].body); ++transfers;
				break;
			}
			case 17: { // Through a container
				what << "meshes kept in a growing vector, mesh " << a; NOTE(what.str());
				std::vector<M> l;
				const size_t n = s.size(1, 5);
				for(size_t i = 0; i < n; ++i) l.push_back(*A.m);
				l.erase(l.begin() + (long)s.raw(n));
				if(!l.empty() && s.coin()) *A.m = l.back();
				++transfers;
				break;
			}
			case 18: { // Replace an object by one in the same place
				what << "vertices exchanged in mesh " << a; NOTE(what.str());
				if(B.cx.v.size() < 2) break;
				const size_t i = (size_t)s.raw(B.cx.v.size()), j = (size_t)s.raw(B.cx.v.size());
				NS::MeshVertex<T, 2>* vi = A.m->vertex(i);
				NS::MeshVertex<T, 2>* vj = A.m->vertex(j);
				A.m->setVertex(i, vj); A.m->setVertex(j, vi);
				vj->GlobalIndex = i; vi->GlobalIndex = j;
				std::swap(B.cx.v[i], B.cx.v[j]);
				for(auto& t : B.cx.t) for(auto& x : t) { if(x == i) x = j; else if(x == j) x = i; }
				{ const bool fi = B.flagged.count(i) != 0, fj = B.flagged.count(j) != 0; B.flagged.erase(i); B.flagged.erase(j); if(fi) B.flagged.insert(j); if(fj) B.flagged.insert(i); }
				if(!B.cx.t.empty()) {
					const size_t p = (size_t)s.raw(B.cx.t.size()), q = (size_t)s.raw(B.cx.t.size());
					NS::MeshElement<T, 2>* ep = A.m->element(p);
					NS::MeshElement<T, 2>* eq = A.m->element(q);
					A.m->setElement(p, eq); A.m->setElement(q, ep);
					std::swap(B.cx.t[p], B.cx.t[q]);
				}
				break;
			}
			default: // Gone
				if(w.slots.size() < 2) break;
				what << "destroy mesh " << o; NOTE(what.str());
				delete w.slots[o].m;
				w.slots.erase(w.slots.begin() + (long)o);
				++transfers;
				break;
			}
			for(size_t i = 0; i < w.slots.size(); ++i) if(w.slots[i].body >= 0) {
				std::ostringstream t; t << "after step '" << what.str() << "' mesh " << i;
				w.check(w.slots[i], t.str());
				shared = shared || (share(w.slots[i].body) > 1 && !w.bodies[(size_t)w.slots[i].body].cx.t.empty());
			}
		}
	}
	c.label(shared, "shared data");
	c.label(clears > 0, "cleared");
	c.nontrivial(transfers > 1 && shared);
}
// No block may stay behind, whatever order the meshes go in
template<class T> void released(Ctx& c)
{
	typedef NS::Mesh<T, 2> M;
	Src& s = c.s;
	const Cx cx = genComplex(s, 3);
	const size_t n = s.size(1, 4);
	std::vector<unsigned> ops;
	for(size_t i = 0, k = s.size(1, 8); i < k; ++i) ops.push_back((unsigned)s.raw(8));
	const std::vector<size_t> order = s.perm(n);
	const bool edges = s.coin(), cleared = s.chance(1, 3), crowd = s.chance(1, 4), cube = s.chance(1, 4);
	std::vector<size_t> arg(ops.size());
	for(auto& x : arg) x = (size_t)s.raw(16);
	NOTE(cx.str() << " meshes " << n);
	for(size_t i = 0; i < ops.size(); ++i) NOTE("op " << ops[i] << " with " << arg[i]);
	size_t left;
	{
		std::vector<M*> ms(n, nullptr);
		std::vector<bool> ok(n, true);
		trackBegin();
		for(auto& m : ms) m = new M();
		if(cube) {
			NS::FixedVector<NS::Dimension, 2> cnt; cnt[0] = 1 + n; cnt[1] = 2;
			NS::FixedVector<T, 2> size; size[0] = size[1] = 1;
			NS::FixedVector<T, 2> off; off[0] = off[1] = 0;
			*ms[0] = NS::HyperCube<T, 2>::generate(cnt, size, off);
		}
		build(*ms[0], cx);
		if(crowd) {
			for(int k = 0; k < 3; ++k) {
				ms[0]->addVertex(new NS::MeshVertex<T, 2>(point<T>({{-1.0 - k, 5.0 + k * k}})));
				auto* e = new NS::MeshElement<T, 2>();
				e->Vertices[0] = ms[0]->vertex(0); e->Vertices[1] = ms[0]->vertex(1); e->Vertices[2] = ms[0]->vertices().back();
				ms[0]->addElement(e);
			}
			try { ms[0]->setupNeighbors(); } catch(const NS::TooManySharedFacesException&) {}
		} else if(edges) ms[0]->setupNeighbors();
		for(size_t i = 0; i < ops.size(); ++i) {
			const size_t a = arg[i] % n, b = (arg[i] / 4) % n;
			switch(ops[i]) {
			case 0: case 1: case 2: if(ok[a]) { *ms[b] = *ms[a]; ok[b] = true; } break;
			case 3: case 4: if(ok[a]) { *ms[b] = std::move(*ms[a]); if(a != b) { ok[b] = true; ok[a] = false; } } break;
			case 5: if(ok[a]) { M t(*ms[a]); M u(std::move(t)); } break;
			case 6: if(ok[a]) { M t; t = *ms[a]; t = M(); } break;
			default: if(ok[a] && ok[b]) std::swap(*ms[a], *ms[b]); break;
			}
		}
		if(cleared) for(size_t i = 0; i < n; ++i) if(ok[i]) { ms[i]->clear(); break; }
		for(size_t i : order) delete ms[i];
		left = trackEnd();
	}
	REQ(left == 0, left << " memory blocks of the meshes are never released");
	c.nontrivial(n > 1);
}
// Any number of copies may share one mesh
template<class T> void crowd(Ctx& c)
{
	typedef NS::Mesh<T, 2> M;
	Src& s = c.s;
	static const size_t about[] = {3, 64, 128, 256, 512, 1024, 32768, 65536};
	const size_t n = s.chance(1, 3) ? s.small(1, 2000) : about[s.raw(8)] + s.raw(5) - 2;
	const Cx cx = genComplex(s, 2, 0, 0.2);
	const size_t survivor = (size_t)s.raw(n);
	const bool assign = s.coin(), backwards = s.coin();
	NOTE(n << " copies of " << cx.str() << ", " << survivor << " survives" << (assign ? ", assigned" : "") << (backwards ? ", backwards" : ""));
	trackBegin();
	size_t left;
	try {
		M* m = new M();
		build(*m, cx);
		m->setupNeighbors();
		std::vector<M*> l(n);
		for(auto& x : l) { if(assign) { x = new M(); *x = *m; } else x = new M(*m); }
		sameMesh(*m, cx);
		delete m;
		for(size_t i = 0; i < n; ++i) {
			const size_t k = backwards ? n - 1 - i : i;
			if(k != survivor) delete l[k];
			if((i & (i + 1)) == 0 || i + 1 == n) { sameMesh(*l[survivor], cx); sameEdges(*l[survivor], cx); }
		}
		delete l[survivor];
	} catch(...) { trackEnd(); throw; }
	left = trackEnd();
	REQ(left == 0, left << " memory blocks of the meshes are never released");
	c.nontrivial(n > 255);
}
}
