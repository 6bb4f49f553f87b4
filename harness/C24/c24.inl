// C24: OBJ files
#include "../textfile.h"
#include "loader/MeshObjLoader.h"
#include <cstdio>
#include <fstream>
#include <unistd.h>
using namespace h;

namespace {
struct Obj {
	std::string text, library;
	Cx cx;// In the order of the faces
	std::vector<std::array<float, 3> > pos;// Points of cx.v in space
	bool split;// Vertices may be there several times, once per attribute
};
std::string number(Src& s, double v)
{
	char b[64];
	switch(s.raw(4)) {
	case 0: snprintf(b, sizeof b, "%.6f", v); break;
	case 1: snprintf(b, sizeof b, "%.9e", v); break;
	case 2: snprintf(b, sizeof b, "%.9E", v); break;
	default: snprintf(b, sizeof b, v < 0 ? "%.9g" : "+%.9g", v); break;
	}
	return s.chance(1, 4) ? respelled(s, b) : std::string(b);
}
std::string libraryPath() { return pbt::scratch() + "/c24_" + std::to_string((long)getpid()) + ".mtl"; }
// Material library with the materials m0, m1, m2; what it says does not matter for a mesh
std::string library(Src& s)
{
	static const char* const lines[] = {"Kd 1 0 0", "Ka 0.1 0.2 0.3", "  Ks\t1 1 1", "Ke 0 0 0", "Kt 1 1 1", "Ni 1.5", "Ns 10", "illum 2", "d 0.5", "Tr 0.5", "map_Kd a.png", "map_Ka b.png", "map_Ks c.png", "map_Ns d.png", "map_bump e.png", "map_d f.png", "bump g.png", "disp h.png", "# newmtl m9", "", "foo bar", "foo\tbar", "foo", "Kd", "Kd ", "map_Kd ", "illum ", "Pr 1 2 3", "Kd 1e999 x y", "illum 99999999999999999999"};
	const std::string eol = s.chance(1, 5) ? "\r\n" : "\n";
	std::string t;
	const auto some = [&]() { for(size_t n = s.raw(4); n; --n) t += lines[s.raw(sizeof lines / sizeof *lines)] + eol; };
	some();
	for(const size_t m : s.perm(3)) { t += (s.chance(1, 5) ? "\tnewmtl m" : "newmtl m") + std::to_string(m) + eol; some(); }
	if(s.chance(1, 10)) t += "newmtl " + std::string(s.size(4000, 9000), 'z') + eol;
	if(s.chance(1, 4)) while(!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
	return t;
}
void write(const std::string& path, const std::string& text) { std::ofstream f(path, std::ios::binary); f << text; }
// Number as text, the returned text is read back by the oracle
Obj gen(Src& s, size_t maxn, int xI, int yI, bool libraries = false)
{
	Obj o;
	Cx cx = genComplex(s, maxn);
	if(s.chance(1, 4)) { const double f = std::ldexp(1.0, (int)s.range(-8, 12)); for(auto& v : cx.v) for(auto& x : v) x *= f; }
	// Polygons with own vertices
	std::vector<std::vector<size_t> > face;
	for(const auto& t : cx.t) face.push_back(std::vector<size_t>(t.begin(), t.end()));
	if(s.coin()) for(size_t n = s.raw(3); n; --n) {
		const bool wide = s.chance(1, 40);// A line of some thousand characters
		const size_t k = wide ? s.size(50, 400) : s.size(4, 8), base = cx.v.size();
		std::vector<size_t> f;
		for(size_t i = 0; i < k; ++i) { const double a = 6.283185307 * (double)i / (double)k; if(wide) cx.v.push_back({{20000.0 * (double)(n + 1) + std::round(1024 * (double)k * std::cos(a)) / 64, std::round(1024 * (double)k * std::sin(a)) / 64}}); else cx.v.push_back({{60.0 + 10 * (double)n + std::round(64 * std::cos(a)) / 16, std::round(64 * std::sin(a)) / 16}}); f.push_back(base + i); }
		face.insert(face.begin() + s.raw(face.size() + 1), f);
	}
	// Vertices nobody uses
	std::vector<size_t> unused;
	if(s.coin()) for(size_t n = s.raw(3); n; --n) { unused.push_back(cx.v.size()); cx.v.push_back({{(double)s.num(9), (double)s.num(9)}}); }
	std::vector<size_t> order = s.perm(cx.v.size());// line -> vertex
	std::vector<size_t> line(cx.v.size());
	for(size_t i = 0; i < order.size(); ++i) line[order[i]] = i;

	const bool comments = s.coin(), blanks = s.coin(), crlf = s.chance(1, 5), cr = !crlf && s.chance(1, 10), relative = s.coin(), mixed = s.coin();
	const std::string eol = crlf ? "\r\n" : cr ? "\r" : "\n";
	const unsigned style = (unsigned)s.raw(4);// v, v/t, v//n, v/t/n
	o.split = style && s.chance(1, 4);
	const bool interleaved = s.coin(), group = s.chance(1, 3), materials = s.chance(1, 4), w4 = s.chance(1, 5);
	std::ostringstream t;
	const auto gap = [&]() { std::string r = blanks && s.coin() ? "\t" : " "; if(blanks) for(size_t n = s.raw(3); n; --n) r += ' '; if(s.chance(1, 1000)) r += std::string(s.size(100, 6000), ' '); return r; };
	const auto end = [&]() {
		if(blanks && s.chance(1, 4)) t << gap();
		t << eol;
		if(comments && s.chance(1, 4)) { static const char* const c[] = {"# v 1 2 3", "#f 1 2 3", "  # comment", "#"}; if(s.chance(1, 40)) t << "# " << std::string(s.size(100, 6000), '1') << eol; else t << c[s.raw(4)] << eol; }
		if(blanks && s.chance(1, 4)) t << (s.coin() ? "" : "  \t") << eol;
		if(s.chance(1, 20)) { static const char* const c[] = {"s off", "s 1", "l 1 2", "p 1", "vp 0.5 0.5"}; t << c[s.raw(5)] << eol; }
		if(materials && s.chance(1, 6)) t << "usemtl m" << s.raw(3) << eol;
	};
	size_t nv = 0, nt = 0, nn = 0;
	const size_t attrs = s.size(1, 5);
	std::vector<std::array<float, 3> > pos(cx.v.size());
	const auto vertex = [&]() {
		const size_t v = order[nv];
		double x[3] = {0, 0, 0};
		int third = 3 - xI - yI;
		x[third] = (double)s.num(40) / 8;
		x[xI] = cx.v[v][0]; x[yI] = cx.v[v][1];
		if(blanks && s.chance(1, 4)) t << gap();
		t << "v";
		for(int d = 0; d < 3; ++d) { const std::string q = number(s, x[d]); t << gap() << q; pos[v][(size_t)d] = strtof(q.c_str(), nullptr); }
		if(w4) t << gap() << "1.0";
		end();
		++nv;
	};
	const auto attr = [&](size_t n) {
		while(n--) {
			if(style & 1) { t << "vt" << gap() << number(s, (double)s.raw(9) / 8) << gap() << number(s, (double)s.raw(9) / 8); end(); ++nt; }
			if(style & 2) { t << "vn" << gap() << "0" << gap() << "0" << gap() << "1"; end(); ++nn; }
		}
	};
	if(comments) t << "# generated" << eol;
	if(materials && libraries && s.chance(3, 4)) { o.library = library(s); t << "mtllib " << libraryPath() << eol; }
	else if(materials && libraries) t << "mtllib " << libraryPath() << ".gone" << eol;
	if(s.chance(1, 6)) for(size_t n = s.size(1, 3); n; --n) { t << (s.coin() ? "g empty" : "o empty") << eol; if(materials && s.coin()) t << "usemtl m" << s.raw(3) << eol; }
	if(group && s.chance(1, 20)) t << "o " << std::string(s.size(4000, 9000), 'x') << eol;
	else if(group) { static const char* const g[] = {"g part", "o object", "g a b c", "g"}; t << g[s.raw(3)] << eol; }
	const bool before = s.coin();
	if(before) attr(attrs);
	if(!interleaved) while(nv < cx.v.size()) vertex();
	if(!before) attr(attrs);
	std::map<std::pair<size_t, size_t>, size_t> seen;// (vertex, attribute)
	std::map<size_t, size_t> number_of;
	for(const auto& f : face) {
		size_t need = 0;
		for(size_t v : f) need = std::max(need, line[v] + 1);
		while(nv < need) vertex();
		t << "f";
		for(size_t v : f) {
			const auto index = [&](size_t i, size_t n) { if(relative && (!mixed || s.coin())) t << (long)i - (long)n; else t << i + 1; };
			t << gap();
			index(line[v], nv);
			const size_t a = (o.split ? (size_t)s.raw(attrs) : v % attrs);
			if(style) {
				t << "/";
				if(style & 1) index(a, nt);
				if(style & 2) { t << "/"; index(a, nn); }
			}
			if(!number_of.count(v)) { const size_t k = number_of.size(); number_of[v] = k; o.cx.v.push_back(cx.v[v]); o.pos.push_back({{0, 0, 0}}); }
		}
		end();
		for(size_t i = 2; i < f.size(); ++i) o.cx.t.push_back({{number_of[f[0]], number_of[f[i - 1]], number_of[f[i]]}});
	}
	while(nv < cx.v.size()) vertex();
	for(const auto& x : number_of) {
		o.pos[x.second] = pos[x.first];
		o.cx.v[x.second] = {{(double)pos[x.first][(size_t)xI], (double)pos[x.first][(size_t)yI]}};
	}
	// Only the first group is a mesh
	if(group && s.coin()) t << (s.coin() ? "g second" : "o second") << eol << "v 1 2 3" << eol << "v 2 2 3" << eol << "v 2 3 3" << eol << (s.coin() ? "f -3 -2 -1" : "f 1 2 3") << (s.coin() ? eol : "");
	o.text = t.str();
	if(s.chance(1, 4)) while(!o.text.empty() && (o.text.back() == '\n' || o.text.back() == '\r')) o.text.pop_back();
	return o;
}
template<class T, int Y, int X> NS::Mesh<T, 2> load(bool file, const std::string& text)
{
	typedef NS::MeshObjLoader<T, Y, X> L;
	if(!file) return L::loadString(text);
	const std::string n = pbt::scratch() + "/c24_" + std::to_string((long)getpid()) + ".obj";
	write(n, text);
	struct Gone { const std::string& n; ~Gone() { unlink(n.c_str()); } } gone{n};
	return L::loadFile(n);
}
template<class T, int Y, int X> void valid(Ctx& c)
{
	Src& s = c.s;
	const Obj o = gen(s, s.chance(1, 30) ? 15 : 4, X, Y, true);
	NOTE(shown(o.text));
	struct Gone { ~Gone() { unlink(libraryPath().c_str()); } } gone;
	if(!o.library.empty()) { NOTE("material library:\n" << shown(o.library)); write(libraryPath(), o.library); c.label("material library"); }
	Abroad abroad(s, 8);
	if(abroad.on) NOTE("in a foreign locale");
	const NS::Mesh<T, 2> m = load<T, Y, X>(s.chance(1, 10), o.text);
	abroad.home();
	c.label(abroad.on, "foreign locale");
	REQ(m.elements().size() == o.cx.t.size(), m.elements().size() << " instead of " << o.cx.t.size() << " elements");
	if(!o.split) REQ(m.vertices().size() == o.cx.v.size(), m.vertices().size() << " instead of " << o.cx.v.size() << " vertices");
	std::map<const NS::MeshVertex<T, 2>*, size_t> to;
	std::map<size_t, size_t> back;
	Cx got;
	got.v.resize(m.vertices().size());
	for(size_t i = 0; i < got.v.size(); ++i) got.v[i] = {{(double)m.vertex(i)->Vertex[0], (double)m.vertex(i)->Vertex[1]}};
	for(size_t e = 0; e < o.cx.t.size(); ++e) {
		std::array<size_t, 3> t;
		for(size_t i = 0; i < 3; ++i) {
			const size_t w = o.cx.t[e][i];
			const NS::MeshVertex<T, 2>* v = m.element(e)->Vertices[i];
			REQ(v && v->GlobalIndex < m.vertices().size() && m.vertex(v->GlobalIndex) == v, "element " << e << " has an unknown vertex");
			for(int d = 0; d < 2; ++d) {
				const double x = o.cx.v[w][(size_t)d];
				REQ(std::abs((double)v->Vertex[d] - x) <= 3e-7 * std::abs(x) + 1e-30, "coordinate " << d << " of vertex " << i << " of triangle " << e << " is " << v->Vertex[d] << " instead of " << x);
			}
			if(!o.split) {
				REQ(!to.count(v) || to[v] == w, "two vertices of the file are one in the mesh");
				REQ(!back.count(w) || back[w] == v->GlobalIndex, "a vertex of the file is there twice in the mesh");
				back[w] = v->GlobalIndex;
			} else REQ(!to.count(v) || to[v] == w, "two vertices of the file are one in the mesh");
			to[v] = w;
			t[i] = v->GlobalIndex;
		}
		got.t.push_back(t);
	}
	REQ(to.size() == m.vertices().size(), "the mesh has vertices without element");
	sameMesh(m, got);
	sameEdges(m, got);
	c.label(o.split, "attributes split vertices");
	c.nontrivial(o.cx.t.size() > 1);
}
// One definite mistake
template<class T, int Y, int X> void broken(Ctx& c)
{
	Src& s = c.s;
	Obj o = gen(s, 3, X, Y);
	static const char* const kinds[] = {"face index too big", "face index zero of no vertices", "relative index too small", "crowded edge", "no polygon", "missing file"};
	const unsigned kind = (unsigned)s.raw(6);
	c.label(kinds[kind]);
	c.nontrivial(o.cx.t.size() > 1);
	std::string t;
	if(!o.text.empty() && o.text.back() != '\n' && o.text.back() != '\r') o.text += '\n';
	// Before any second group
	size_t p = o.text.find("second");
	if(p != std::string::npos) p -= 2; else p = o.text.size();
	size_t nv = 0;
	for(size_t i = 0; i < p; ++i) if(o.text[i] == 'v' && (o.text[i + 1] == ' ' || o.text[i + 1] == '\t') && o.text.find_last_of("\r\n", i) != std::string::npos) {
		const size_t l = o.text.find_last_of("\r\n", i);
		nv += o.text.find_first_not_of(" \t", l + 1) == i;
	}
	if(p && o.text.compare(0, 2, "v ") == 0) ++nv;
	const auto num = [](long n) { std::ostringstream q; q << n; return q.str(); };
	switch(kind) {
	case 0: {
		static const char* const far[] = {"1000000", "99999999", "2147483647", "65536"};
		const std::string bad = s.coin() ? std::string(far[s.raw(4)]) : num((long)o.text.size());
		t = o.text; t.insert(p, s.coin() ? "f 1 2 " + bad + "\n" : s.coin() ? "f " + bad + " 1 2\n" : "f 1/1/1 " + bad + "/1/1 2/1/1\n");
		break;
	}
	case 1: t = s.coin() ? "f 1 2 3\n" : "f 0 0 0\nf 1 1 1"; break;
	case 2: t = o.text; t.insert(p, "f " + num(-(long)o.text.size() - (long)s.raw(9)) + " -1 -2\n"); break;
	case 3: t = "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 -1 0\nv 2 2 2\nf 1 2 3\nf 2 1 4\nf " + std::string(s.coin() ? "1 2 5" : "5 1 2") + "\n"; 
		if(Y + X != 1) t = "v 0 0 0\nv 1 1 0\nv 0 1 1\nv 0 -1 3\nv 2 2 7\nf 1 2 3\nf 2 1 4\nf 1 2 5\n";
		break;
	case 4: t = "v 0 0 0\nv 1 0 0\nv 0 1 0\n" + std::string(s.coin() ? "f 1 2\n" : s.coin() ? "f 1\n" : "f  \n"); break;
	default: break;
	}
	NOTE("mistake: " << kinds[kind] << "\n" << shown(t));
	if(kind == 5) { typedef NS::MeshObjLoader<T, Y, X> L; THROWS(NS::LoadObjErrorException, kinds[kind], L::loadFile(pbt::scratch() + "/does_not_exist.obj")); }
	else if(kind == 3) THROWS(NS::TooManySharedFacesException, kinds[kind], (load<T, Y, X>(false, t)));
	else THROWS(NS::LoadObjErrorException, kinds[kind], (load<T, Y, X>(s.chance(1, 10), t)));
}
const std::vector<const char*>& tokens()
{
	static const std::string longName = "\no " + std::string(5000, 'y') + " ", longMaterial = "\nusemtl " + std::string(4095, 'z');
	static const std::vector<const char*> tok = {"0", "1", "-1", "3", "99999", "4294967297", "2147483647", "-2147483648", "1e999", "-0", "1e-99999", "nan", "inf", "0x10", "#", "\n", "\r", "\t", " ", ".", "e", "-", "+", "/", "//", "1/2/3", "1//3",
		"f 1 2 3\n", "f 1 2 3 4 5\n", "v 1 2 3\n", "\nv", "\nf", "\ng", "\no ", "\no", "\ng ", "\nt a 1/1/1 2 3.0 b\n", "\nt ", "\nusemtl ", "\nusemtl m", "vt 1 2\n", "vn 1 2 3\n", "\xff", "1e9999999999", "99999999999999999999", "s off\n", "f\n", "f 1\n", "v\n", "v \n", "\nt a 3/3/3 1", "\nt a", "\nt  b -1/-1/2 x", longName.c_str(), longMaterial.c_str()};
	return tok;
}
// Any text as material library: the mesh does not depend on it
template<class T, int Y, int X> void materials(Ctx& c)
{
	Src& s = c.s;
	static const std::string longName = "\nnewmtl " + std::string(5000, 'y') + " ";
	static const std::vector<const char*> tok = {"\nnewmtl m0", "\nnewmtl m1", "\nnewmtl ", "\nnewmtl", "\nnewmtl\t", "Kd", "Ka ", "Ks 1", "Ke\t", "Kt 1 2 3 4", "Ni ", "Ns 1e99999999999", "illum -9999999999999999", "illum", "d ", "d 1", "Tr", "Tr 1e-9", "map_Ka", "map_Kd  ", "map_Ks x", "map_Ns\t", "map_bump b", "bump", "bump \t", "map_d ", "disp", "disp a b c", "#", "\n", "\r", "\t", " ", "\xff", "x y", "x\ty", ".", "-", "1e", "+", "nan", longName.c_str()};
	std::string t = s.coin() ? library(s) : std::string();
	if(!t.empty()) t = mutate(s, t, tok);
	else for(size_t n = s.raw(40); n; --n) { t += s.of(tok); if(s.coin()) t += s.chance(1, 4) ? '\n' : ' '; }
	if(s.chance(1, 8)) t += std::string(1, '\0') + "newmtl m1\n";
	NOTE("material library:\n" << shown(t));
	const std::string body = "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 1 1 0\nv 2 2 0\n" + std::string(s.coin() ? "usemtl m0\n" : "") + "f 1 2 3\n" + (s.coin() ? "usemtl m1\n" : "usemtl\t\n") + "f 2 4 3\n" + (s.coin() ? "usemtl m0\nf 2 5 4\n" : "usemtl m2\nf 2 5 4\nusemtl m0") ;
	NOTE(shown(body));
	struct Gone { ~Gone() { unlink(libraryPath().c_str()); } } gone;
	write(libraryPath(), t);
	const NS::Mesh<T, 2> m = load<T, Y, X>(s.coin(), "mtllib " + libraryPath() + "\n" + body);
	consistent(m);
	REQ(m.vertices().size() == 5 && m.elements().size() == 3 && m.edges().size() == 7, m.vertices().size() << " vertices, " << m.elements().size() << " elements, " << m.edges().size() << " edges instead of 5, 3, 7");
	c.nontrivial(t.find("newmtl") != std::string::npos);
}
template<class T, int Y, int X> void mutated(Ctx& c)
{
	Src& s = c.s;
	std::string t = gen(s, 2, X, Y).text;
	t = mutate(s, t, tokens());
	NOTE(shown(t));
	if(t.find("mtllib") != std::string::npos) throw pbt::Discard();
	try {
		const NS::Mesh<T, 2> m = load<T, Y, X>(s.chance(1, 20), t);
		consistent(m);
		c.label("accepted");
	} catch(const NS::MeshException&) {
		c.label("refused");
	}
	c.nontrivial(true);
}
template<class T, int Y, int X> void garbage(Ctx& c)
{
	Src& s = c.s;
	std::string t;
	for(size_t n = s.raw(40); n; --n) { t += s.of(tokens()); if(s.coin()) t += s.chance(1, 4) ? '\n' : ' '; }
	NOTE(shown(t));
	try {
		const NS::Mesh<T, 2> m = load<T, Y, X>(false, t);
		consistent(m);
		c.label(m.elements().empty() ? "accepted as empty" : "accepted");
	} catch(const NS::MeshException&) {
		c.label("refused");
	}
	c.nontrivial(!t.empty());
}

// Grid with more vertices than 16 bits can count
Cx lattice(Ctx& c)
{
	Cx cx;
	Src& s = c.s;
	const size_t nx = s.size(2, 500), ny = s.size(0, 20) + 66000 / nx;
	NOTE(nx << "x" << ny << " vertices");
	for(size_t j = 0; j < ny; ++j) for(size_t i = 0; i < nx; ++i) cx.v.push_back({{(double)i / 4, (double)j / 2}});
	const size_t step = s.size(1, 7);// Leaves out some cells
	for(size_t j = 0, k = 0; j + 1 < ny; ++j) for(size_t i = 0; i + 1 < nx; ++i, ++k) if(k % step == 0 || i == 0 || j == 0) {
		const size_t a = j * nx + i;
		cx.t.push_back({{a, a + 1, a + nx}});
		cx.t.push_back({{a + 1, a + nx + 1, a + nx}});
	}
	return cx;
}
template<class T, int Y, int X> void large(Ctx& c)
{
	Src& s = c.s;
	const Cx cx = lattice(c);
	const bool relative = s.coin();
	std::string t;
	char b[99];
	for(const auto& v : cx.v) {
		double x[3] = {0, 0, 0};
		x[X] = v[0]; x[Y] = v[1];
		snprintf(b, sizeof b, "v %.2f %.2f %.2f\n", x[0], x[1], x[2]); t += b;
	}
	std::map<size_t, size_t> at;
	Cx want;
	for(const auto& k : cx.t) {
		std::array<size_t, 3> w;
		for(size_t i = 0; i < 3; ++i) { if(!at.count(k[i])) { const size_t q = at.size(); at[k[i]] = q; want.v.push_back(cx.v[k[i]]); } w[i] = at[k[i]]; }
		want.t.push_back(w);
		const long off = relative ? -(long)cx.v.size() : 1;
		snprintf(b, sizeof b, "f %ld %ld %ld\n", (long)k[0] + off, (long)k[1] + off, (long)k[2] + off); t += b;
	}
	const NS::Mesh<T, 2> m = load<T, Y, X>(s.coin(), t);
	REQ(m.vertices().size() == want.v.size() && m.elements().size() == want.t.size(), m.vertices().size() << " vertices and " << m.elements().size() << " elements instead of " << want.v.size() << " and " << want.t.size());
	for(size_t e = 0; e < want.t.size(); ++e) for(size_t i = 0; i < 3; ++i) for(int d = 0; d < 2; ++d)
		REQ((double)m.element(e)->Vertices[i]->Vertex[d] == want.v[want.t[e][i]][(size_t)d], "coordinate " << d << " of vertex " << i << " of triangle " << e << " is " << m.element(e)->Vertices[i]->Vertex[d]);
	REQ(m.edges().size() == want.edges().size(), m.edges().size() << " edges instead of " << want.edges().size());
	c.nontrivial(true);
}
}
