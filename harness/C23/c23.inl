// C23: files of the program Triangle
#include "../textfile.h"
#include "loader/MeshTriangleLoader.h"
#include <cstdio>
#include <fstream>
#include <unistd.h>
using namespace h;

namespace {
// Text layout of a case
struct Style {
	Src& s;
	bool comments, blanks, crlf, tabs;
	explicit Style(Src& s_) : s(s_), comments(s_.coin()), blanks(s_.coin()), crlf(s_.chance(1, 5)), tabs(s_.chance(1, 3)) {}
	char blank() { return s.chance(1, 4) ? (s.chance(1, 4) ? (s.coin() ? '\f' : '\v') : '\t') : ' '; }
	std::string gap() { std::string r(1, tabs && s.coin() ? '\t' : ' '); if(blanks) for(size_t n = s.raw(4); n; --n) r += blank(); if(s.chance(1, 400)) r += std::string(s.size(100, 6000), ' '); return r; }
	std::string lead() { return blanks && s.coin() ? gap() : ""; }
	std::string comment() { static const char* const c[] = {"#", "# 1 2 3", "#4 0.5 1", "## Generated by triangle -pq", "#-1", "#\t# 7"}; if(s.chance(1, 40)) return "# " + std::string(s.size(100, 6000), s.coin() ? '1' : ' '); return c[s.raw(6)]; }
	std::string tail() { std::string r; if(blanks && s.coin()) r += gap(); if(comments && s.chance(1, 4)) { if(s.coin()) r += " "; r += comment(); } return r; }
	std::string eol() { return crlf ? "\r\n" : "\n"; }
	// Lines without content
	std::string fill() { std::string r; if(blanks || comments) while(s.chance(1, 5)) { if(blanks) r += lead(); if(comments && s.coin()) r += comment(); r += eol(); } return r; }
};
std::string number(Src& s, double v)
{
	char b[64];
	switch(s.raw(5)) {
	case 0: snprintf(b, sizeof b, "%.9g", v); break;
	case 1: snprintf(b, sizeof b, "%.12f", v); break;
	case 2: snprintf(b, sizeof b, "%.17e", v); break;
	case 3: snprintf(b, sizeof b, "%.17E", v); break;
	default: snprintf(b, sizeof b, v < 0 ? "%.17g" : "+%.17g", v); break;
	}
	return s.chance(1, 4) ? respelled(s, b) : std::string(b);
}
struct Files { std::vector<std::string> node, ele; };// Lines as fields
struct Table { std::vector<std::vector<std::string> > row; };

struct Case {
	Cx cx;
	Table node, ele;
	size_t base;
};
Case genCase(Src& s, size_t maxn)
{
	Case k;
	k.cx = genComplex(s, maxn);
	k.base = s.coin() ? 1 : 0;
	// Real coordinates need all digits of the text
	if(s.chance(1, 3)) { const double f = std::ldexp(1.0, (int)s.range(-12, 12)); for(auto& v : k.cx.v) for(auto& x : v) x *= f; }
	const size_t attrs = s.small(0, 3);
	const bool marker = s.coin();
	std::ostringstream o;
	const auto num = [](size_t n) { std::ostringstream t; t << n; return t.str(); };
	k.node.row.push_back({num(k.cx.v.size()), "2", num(attrs), marker ? "1" : "0"});
	for(size_t i = 0; i < k.cx.v.size(); ++i) {
		std::vector<std::string> r = {num(i + k.base), number(s, k.cx.v[i][0]), number(s, k.cx.v[i][1])};
		for(size_t a = 0; a < attrs; ++a) r.push_back(number(s, (double)s.num(100) / 8));
		if(marker) r.push_back(num(s.raw(3)));
		k.node.row.push_back(r);
	}
	const size_t eattrs = s.small(0, 2);
	k.ele.row.push_back({num(k.cx.t.size()), "3", num(eattrs)});
	for(size_t e = 0; e < k.cx.t.size(); ++e) {
		std::vector<std::string> r = {num(e + k.base)};
		for(size_t i : k.cx.t[e]) r.push_back(num(i + k.base));
		for(size_t a = 0; a < eattrs; ++a) r.push_back(number(s, (double)s.num(100) / 8));
		k.ele.row.push_back(r);
	}
	if(s.chance(1, 6)) k.ele.row[0].pop_back();
	if(s.chance(1, 6)) { k.node.row[0].pop_back(); k.node.row[0].pop_back(); }
	return k;
}
std::string print(Style& st, const Table& t)
{
	std::string r;
	for(size_t i = 0; i < t.row.size(); ++i) {
		r += st.fill() + st.lead();
		for(size_t j = 0; j < t.row[i].size(); ++j) r += (j ? st.gap() : "") + t.row[i][j];
		r += st.tail();
		if(i + 1 < t.row.size() || !st.s.chance(1, 3)) r += st.eol();
	}
	return r + (r.empty() || r.back() == '\n' ? st.fill() : "");
}
template<class T> NS::Mesh<T, 2> load(bool file, const std::string& node, const std::string& ele)
{
	if(!file) return NS::MeshTriangleLoader<T>::loadString(node, ele);
	const std::string base = pbt::scratch() + "/c23_" + std::to_string((long)getpid()), n = base + ".node", e = base + ".ele";
	{ std::ofstream f(n, std::ios::binary); f << node; }
	{ std::ofstream f(e, std::ios::binary); f << ele; }
	struct Gone { const std::string &n, &e; ~Gone() { unlink(n.c_str()); unlink(e.c_str()); } } gone{n, e};
	return NS::MeshTriangleLoader<T>::loadFile(n, e);
}
template<class T> void valid(Ctx& c)
{
	Src& s = c.s;
	const Case k = genCase(s, s.chance(1, 30) ? 20 : 5);
	Style st(s);
	const std::string node = print(st, k.node), ele = print(st, k.ele);
	NOTE("node file:\n" << shown(node) << "element file:\n" << shown(ele));
	Abroad abroad(s, 8);
	if(abroad.on) NOTE("in a foreign locale");
	NS::Mesh<T, 2> m = load<T>(s.chance(1, 10), node, ele);
	abroad.home();
	c.label(abroad.on, "foreign locale");
	// The text has at least nine digits
	Cx got = k.cx;
	REQ(m.vertices().size() == k.cx.v.size(), m.vertices().size() << " instead of " << k.cx.v.size() << " vertices");
	for(size_t i = 0; i < k.cx.v.size(); ++i) for(int d = 0; d < 2; ++d) {
		const double want = k.cx.v[i][d], x = (double)m.vertex(i)->Vertex[d];
		const char* text = k.node.row[i + 1][(size_t)d + 1].c_str();
		const double exact = eps<T>() > 1e-10 ? (double)strtof(text, nullptr) : strtod(text, nullptr);
		REQ(x == exact, "coordinate " << d << " of vertex " << i << " is " << x << " instead of " << want);
		got.v[i][d] = x;
	}
	sameMesh(m, got);
	sameEdges(m, got);
	c.label(k.base == 0, "numbered from zero");
	c.label(st.crlf, "CRLF");
	c.label(st.comments, "comments");
	c.nontrivial(k.cx.t.size() > 1);
}
// One definite mistake
template<class T> void broken(Ctx& c)
{
	Src& s = c.s;
	Case k = genCase(s, 3);
	Table& nd = k.node;
	Table& el = k.ele;
	const size_t v = 1 + (size_t)s.raw(k.cx.v.size()), e = 1 + (size_t)s.raw(k.cx.t.size());
	static const char* const junk[] = {"x", "-", "+", ".", "e5", "--1", "abc", "?", "\x01", ",", "v 1", "nanx", "\"1\""};
	const std::string bad = junk[s.raw(13)];
	static const char* const kinds[] = {"junk vertex index", "junk coordinate", "missing coordinate", "dimension", "no vertices", "vertex number gap", "vertex missing", "junk vertex count",
		"junk element index", "junk element vertex", "missing element vertex", "corners", "no elements", "element number gap", "element missing", "junk element count", "vertex out of range", "three elements at an edge", "vertex twice", "dimension missing", "no vertex lines", "no element lines", "empty vertex file", "empty element file", "missing vertex file", "missing element file"};
	const unsigned kind = (unsigned)s.raw(26);
	bool node = kind < 8 || (kind >= 18 && kind % 2 == 0) || kind == 19, mesh = false;
	const auto num = [](long n) { std::ostringstream t; t << n; return t.str(); };
	switch(kind) {
	case 0: nd.row[v][0] = bad; break;
	case 1: nd.row[v][1 + s.raw(2)] = bad; break;
	case 2: nd.row[v].resize(1 + s.raw(2)); break;
	case 3: nd.row[0][1] = s.coin() ? "3" : s.coin() ? "1" : "0"; break;
	case 4: nd.row[0][0] = "0"; break;
	case 5: nd.row[v][0] = num((long)(v - 1 + k.base) + (s.coin() ? 1 : 2)); if(v == 1 && k.base == 0 && nd.row[v][0] == "1") nd.row[v][0] = "2"; break;
	case 6: if(v == nd.row.size() - 1) throw pbt::Discard(); nd.row.erase(nd.row.begin() + (long)v); if(v == 1 && k.base == 0) throw pbt::Discard(); break;
	case 7: nd.row[0][0] = bad; break;
	case 8: el.row[e][0] = bad; break;
	case 9: el.row[e][1 + s.raw(3)] = bad; break;
	case 10: el.row[e].resize(1 + s.raw(3)); break;
	case 11: el.row[0][1] = s.coin() ? "6" : s.coin() ? "4" : "2"; break;
	case 12: el.row[0][0] = "0"; break;
	case 13: el.row[e][0] = num((long)(e - 1 + k.base) + (s.coin() ? 1 : 2)); if(e == 1 && k.base == 0 && el.row[e][0] == "1") el.row[e][0] = "2"; break;
	case 14: if(e == el.row.size() - 1 || (e == 1 && k.base == 0)) throw pbt::Discard(); el.row.erase(el.row.begin() + (long)e); break;
	case 15: el.row[0][0] = bad; break;
	case 16: {
		const long n = (long)k.cx.v.size() + (long)k.base;
		static const char* const far[] = {"-1", "-2", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999"};
		el.row[e][1 + s.raw(3)] = s.coin() ? num(n + (long)s.raw(3)) : k.base && s.coin() ? std::string("0") : std::string(far[s.raw(6)]);
		break;
	}
	case 17: {
		mesh = true;
		for(int i = 0; i < 2; ++i) {
			nd.row.push_back({num((long)(nd.row.size() - 1 + k.base)), num(50 + i), num(31 + 2 * i)});
			el.row.push_back({num((long)(el.row.size() - 1 + k.base)), el.row[e][1], el.row[e][2], nd.row.back()[0]});
		}
		break;
	}
	case 18: nd.row.insert(nd.row.begin() + (long)v, nd.row[v]); break;
	case 19: nd.row[0].resize(1); break;
	case 20: nd.row.resize(1); break;
	case 21: el.row.resize(1); break;
	case 22: nd.row.clear(); break;
	case 23: el.row.clear(); break;
	default: break;
	}
	Style st(s);
	if(kind < 20) st.comments = false;// A junk field may not be hidden behind one
	const std::string n = print(st, nd), t = print(st, el);
	NOTE("mistake: " << kinds[kind] << "\nnode file:\n" << shown(n) << "element file:\n" << shown(t));
	c.label(kinds[kind]);
	if(kind >= 24) {
		const std::string there = pbt::scratch() + "/c23_" + std::to_string((long)getpid()) + ".there", gone = pbt::scratch() + (s.coin() ? "/does_not_exist" : "/no/where/at.all");
		{ std::ofstream f(there, std::ios::binary); f << (node ? t : n); }
		struct Gone { const std::string& n; ~Gone() { unlink(n.c_str()); } } remove{there};
		if(node) THROWS(NS::LoadTriangleNodeErrorException, kinds[kind], NS::MeshTriangleLoader<T>::loadFile(gone, there));
		else THROWS(NS::LoadTriangleElementErrorException, kinds[kind], NS::MeshTriangleLoader<T>::loadFile(there, gone));
	}
	else if(mesh) THROWS(NS::TooManySharedFacesException, kinds[kind], NS::MeshTriangleLoader<T>::loadString(n, t));
	else if(node) THROWS(NS::LoadTriangleNodeErrorException, kinds[kind], NS::MeshTriangleLoader<T>::loadString(n, t));
	else THROWS(NS::LoadTriangleElementErrorException, kinds[kind], NS::MeshTriangleLoader<T>::loadString(n, t));
	c.nontrivial(k.cx.t.size() > 1);
}
const std::vector<const char*>& tokens()
{
	static const std::vector<const char*> tok = {"0", "1", "-1", "3", "99999", "4294967297", "9999999999999", "18446744073709551615", "1e999", "-0", "nan", "inf", "0x10", "#", "\n", "\r", "\t", " ", ".", "e", "-", "+", "1.5", "\n\n", "1 2 3 4", "\xff", "\x80"};
	return tok;
}
template<class T> void mutated(Ctx& c)
{
	Src& s = c.s;
	const Case k = genCase(s, 3);
	Style st(s);
	std::string node = print(st, k.node), ele = print(st, k.ele);
	const unsigned which = (unsigned)s.raw(4);
	if(which != 0) node = mutate(s, node, tokens());
	if(which != 1) ele = mutate(s, ele, tokens());
	NOTE("node file:\n" << shown(node) << "element file:\n" << shown(ele));
	try {
		const NS::Mesh<T, 2> m = load<T>(s.chance(1, 20), node, ele);
		consistent(m);
		c.label("accepted");
		c.nontrivial(!m.elements().empty());
	} catch(const NS::MeshException&) {
		c.label("refused");
		c.nontrivial(true);
	}
}
// Any text out of the vocabulary
template<class T> void garbage(Ctx& c)
{
	Src& s = c.s;
	static const char* const tok[] = {"0", "1", "99999999999", "3", "4", "2", "3", "-1", "0.5", "1.5e2", ".", "#", "# c\n", "\n", "\n", "\n", "\r\n", " ", " ", " ", "\t", "x", "\xff", "1 0 0\n", "2 1 0\n", "3 0 1\n", "3 2 0 0\n", "1 3 0\n", "1 1 2 3\n", "0 0 1 2\n"};
	std::string t[2];
	for(auto& x : t) for(size_t n = s.raw(30); n; --n) { x += tok[s.raw(30)]; if(s.coin()) x += ' '; }
	NOTE("node file:\n" << shown(t[0]) << "element file:\n" << shown(t[1]));
	try {
		const NS::Mesh<T, 2> m = NS::MeshTriangleLoader<T>::loadString(t[0], t[1]);
		consistent(m);
		c.label("accepted");
	} catch(const NS::MeshException&) {
		c.label("refused");
	}
	c.nontrivial(!t[0].empty());
}

// Grid with more vertices than 16 bits can count
Cx lattice(Ctx& c)
{
	Cx cx;
	Src& s = c.s;
	const size_t nx = s.size(2, 500), ny = s.size(0, 20) + 66000 / nx;
	NOTE(nx << "x" << ny << " vertices");
	for(size_t j = 0; j < ny; ++j) for(size_t i = 0; i < nx; ++i) cx.v.push_back({{(double)i / 4, (double)j / 2}});
	const size_t step = s.size(1, 7);// Leaves out some cells
	for(size_t j = 0, k = 0; j + 1 < ny; ++j) for(size_t i = 0; i + 1 < nx; ++i, ++k) if(k % step == 0 || i == 0 || j == 0) {
		const size_t a = j * nx + i;
		cx.t.push_back({{a, a + 1, a + nx}});
		cx.t.push_back({{a + 1, a + nx + 1, a + nx}});
	}
	return cx;
}
template<class T> void large(Ctx& c)
{
	Src& s = c.s;
	const Cx cx = lattice(c);
	const size_t base = s.raw(2);
	std::string n = std::to_string(cx.v.size()) + " 2 0 0\n", e = std::to_string(cx.t.size()) + " 3 0\n";
	char b[99];
	for(size_t i = 0; i < cx.v.size(); ++i) { snprintf(b, sizeof b, "%zu %.2f %.1f\n", i + base, cx.v[i][0], cx.v[i][1]); n += b; }
	for(size_t i = 0; i < cx.t.size(); ++i) { snprintf(b, sizeof b, "%zu %zu %zu %zu\n", i + base, cx.t[i][0] + base, cx.t[i][1] + base, cx.t[i][2] + base); e += b; }
	const NS::Mesh<T, 2> m = load<T>(s.coin(), n, e);
	sameMesh(m, cx);
	sameEdges(m, cx);
	c.nontrivial(true);
}
}
