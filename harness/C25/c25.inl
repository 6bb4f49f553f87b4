// C25: exported VTK files, read back by an independent parser
#include "../meshgen.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "export/VTKExporter.h"
#include <fstream>
#include <unistd.h>
using namespace h;

namespace {
// A small strict XML reader
struct Node {
	std::string name, text;
	std::map<std::string, std::string> attr;
	std::vector<Node> child;
	const Node& only(const std::string& n) const
	{
		const Node* r = nullptr;
		for(const auto& x : child) if(x.name == n) { REQ(!r, "<" << name << "> has several <" << n << ">"); r = &x; }
		REQ(r, "<" << name << "> has no <" << n << ">");
		return *r;
	}
	std::string at(const std::string& a) const { const auto it = attr.find(a); REQ(it != attr.end(), "<" << name << "> has no attribute " << a); return it->second; }
};
struct Xml {
	const std::string& t;
	size_t p;
	explicit Xml(const std::string& s) : t(s), p(0) {}
	char peek() const { return p < t.size() ? t[p] : '\0'; }
	void ws() { while(p < t.size() && isspace((unsigned char)t[p])) ++p; }
	void need(bool b, const char* what) const { REQ(b, "not well formed at character " << p << ": " << what << "; near '" << t.substr(p < 30 ? 0 : p - 30, 60) << "'"); }
	std::string word()
	{
		const size_t a = p;
		while(p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_' || t[p] == '-' || t[p] == ':' || t[p] == '.')) ++p;
		need(p > a && !isdigit((unsigned char)t[a]), "name expected");
		return t.substr(a, p - a);
	}
	std::string plain(const std::string& v) const
	{
		std::string r;
		for(size_t i = 0; i < v.size(); ++i) {
			if(v[i] != '&') { r += v[i]; continue; }
			const size_t e = v.find(';', i);
			const std::string n = e == std::string::npos ? "" : v.substr(i + 1, e - i - 1);
			if(n == "amp") r += '&'; else if(n == "lt") r += '<'; else if(n == "gt") r += '>'; else if(n == "quot") r += '"'; else if(n == "apos") r += '\'';
			else {
				const bool hex = n.size() > 2 && n[1] == 'x';
				char* end = nullptr;
				const long k = n.size() > 1 && n[0] == '#' ? strtol(n.c_str() + (hex ? 2 : 1), &end, hex ? 16 : 10) : 0;
				need(k >= 32 && k < 127 && !*end, "unknown entity");
				r += (char)k;
			}
			i = e;
		}
		return r;
	}
	void attributes(std::map<std::string, std::string>& m)
	{
		for(;;) {
			const size_t a = p;
			ws();
			if(peek() == '>' || peek() == '/' || peek() == '?') return;
			need(p > a, "space before an attribute expected");
			const std::string n = word();
			ws(); need(peek() == '=', "= expected"); ++p; ws();
			const char q = peek();
			need(q == '"' || q == '\'', "quote expected"); ++p;
			const size_t e = t.find(q, p);
			need(e != std::string::npos, "unclosed value");
			need(t.find('<', p) >= e, "< in a value");
			need(m.insert(std::make_pair(n, plain(t.substr(p, e - p)))).second, "attribute is there twice");
			p = e + 1;
		}
	}
	Node element()
	{
		Node n;
		need(peek() == '<', "< expected"); ++p;
		n.name = word();
		attributes(n.attr);
		if(peek() == '/') { ++p; need(peek() == '>', "> expected"); ++p; return n; }
		need(peek() == '>', "> expected"); ++p;
		for(;;) {
			const size_t e = t.find('<', p);
			need(e != std::string::npos, "element is not closed");
			n.text += t.substr(p, e - p);
			p = e;
			if(t.compare(p, 2, "</") == 0) {
				p += 2;
				need(word() == n.name, "other element is closed");
				ws(); need(peek() == '>', "> expected"); ++p;
				return n;
			}
			if(t.compare(p, 4, "<!--") == 0) { const size_t c = t.find("-->", p); need(c != std::string::npos, "comment is not closed"); p = c + 3; continue; }
			n.child.push_back(element());
		}
	}
	Node document()
	{
		if(t.compare(p, 5, "<?xml") == 0) { p += 5; std::map<std::string, std::string> m; attributes(m); need(t.compare(p, 2, "?>") == 0, "?> expected"); p += 2; need(m.count("version"), "xml version"); }
		ws();
		const Node n = element();
		ws();
		need(p == t.size(), "text after the document");
		return n;
	}
};
std::vector<double> numbers(const Node& n, size_t comps, size_t tuples, const std::string& what)
{
	REQ(n.name == "DataArray", what << " is no data array");
	REQ(n.at("format") == "ascii", what << " is not in ascii format");
	const std::string type = n.at("type");
	static const std::set<std::string> floats = {"Float32", "Float64"}, ints = {"Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64"};
	REQ(floats.count(type) || ints.count(type), what << " has unknown type " << type);
	const auto nc = n.attr.find("NumberOfComponents");
	REQ((nc == n.attr.end() ? 1 : atol(nc->second.c_str())) == (long)comps, what << " declares other than " << comps << " components");
	std::istringstream f(n.text);
	std::string w;
	std::vector<double> r;
	while(f >> w) {
		char* e;
		const double x = strtod(w.c_str(), &e);
		REQ(*e == 0, what << " contains '" << w << "'");
		if(ints.count(type)) REQ(x == std::floor(x) && (type[0] != 'U' || x >= 0) && (type.find('8') == std::string::npos || std::abs(x) < 256), what << " contains " << w << ", which is not of type " << type);
		r.push_back(x);
	}
	REQ(r.size() == comps * tuples, what << " has " << r.size() << " values instead of " << comps << " x " << tuples);
	return r;
}
// What a Float32 can hold, rounded and written with nine digits
void close(double got, double want, const std::string& what, size_t i)
{
	REQ(std::abs(got - want) <= 6.6e-8 * std::abs(want) + 1e-300, what << ", value " << i << ": " << got << " instead of " << want);
}
template<class T> double value(Src& s)
{
	switch(s.raw(6)) {
	case 0: return (double)s.num(3);
	case 1: return (double)s.num(1000) / 8;
	case 2: return (double)(T)((double)s.num(1000) / 37);
	case 3: return (double)(T)((double)s.num(100000000));
	case 4: return std::ldexp((double)s.num(1023), (int)s.range(-60, 60));
	default: return (double)s.num(1000000);
	}
}
template<class V> struct Len { static V* make(size_t n) { return new V(n); } };
// Big: grids with more cells, points or indices than 16 bits can count
template<class T, class V, NS::Dimension Order, bool Big = false> void exported(Ctx& c)
{
	Src& s = c.s;
	typedef typename V::value_type E;
	NS::Mesh<T, 2> m;
	Cx cx;
	if(Big || s.chance(1, 5)) {
		NS::FixedVector<NS::Dimension, 2> n; const size_t most = s.chance(1, 20) ? 14 : 4;
		if(Big) { n[0] = s.size(1, s.coin() ? 4 : 200); n[1] = std::max<size_t>(1, (s.chance(1, 4) ? s.size(10, 340) * 100 : s.size(110, 120) * 100 * (3 - Order)) / n[0]); NOTE(n[0] << "x" << n[1]); }
		else { n[0] = s.size(1, most); n[1] = s.size(1, most); }
		NS::FixedVector<T, 2> size; size[0] = (T)s.size(1, 4); size[1] = (T)s.size(1, 4);
		NS::FixedVector<T, 2> off; off[0] = (T)s.num(4); off[1] = (T)s.num(4);
		m = NS::HyperCube<T, 2>::generate(n, size, off);
	} else {
		cx = genComplex(s, 4, 0, 0.2);
		if(s.coin()) { const double f = std::ldexp((double)s.size(1, 31), (int)s.range(-8, 12)); for(auto& v : cx.v) for(auto& x : v) x *= f; }
		build(m, cx);
		m.setupNeighbors();
		if(s.coin()) m.setupBoundaries();
		NOTE(cx.str());
	}
	m.prepare();
	NS::PolyShapeFunction<T, 2, Order>::prepareMesh(m);
	const size_t nv = m.vertices().size(), ne = m.elements().size();
	if(!Big && s.chance(1, 3)) for(auto v : m.vertices()) v->Flags = (NS::uint32)s.raw(4);
	// Data sets
	static const char* const names[] = {"u", "a", "Result 1", "error_max", "Z", "ElementMatrix2", "gradient-x", "b0"};
	std::map<std::string, V*> sets[2];
	std::vector<std::unique_ptr<V> > owned;
	for(int k = 0; k < 2; ++k) for(size_t n = Big ? s.raw(2) : s.small(0, 4); n; --n) {
		std::string name = names[s.raw(8)];
		if(!Big && s.chance(1, 6)) {// XML knows other ways to write some characters
			static const char* const odd[] = {"<", "&", "\"", ">", "'", "&lt;", "&amp;", "]]>", "\xc3\xbc", "%", "<!--", "=", "#", "/>"};
			for(size_t w = s.size(1, 3); w; --w) name.insert(s.raw(name.size() + 1), s.of(std::vector<std::string>(odd, odd + 14)));
			c.label("XML characters in a name");
		}
		if(sets[k].count(name)) continue;
		owned.push_back(std::unique_ptr<V>(new V(k ? ne : nv)));
		for(size_t i = 0; i < owned.back()->size(); ++i) (*owned.back())[i] = Big ? (E)((double)(i * 7919 % 4096) / 8 - 99) : (E)value<T>(s);
		sets[k][name] = owned.back().get();
		NOTE((k ? "cell data " : "point data ") << name);
	}
	int opt = Order == 2 ? NS::VOO_IsQuadratic : 0;
	for(int o : {NS::VOO_ElementDeterminant, NS::VOO_ElementMatrix, NS::VOO_ElementGradient, NS::VOO_VertexBoundaryLabel, NS::VOO_VertexImplicitLabel}) if(Big ? s.chance(1, 8) : s.chance(2, 5)) opt |= o;
	NOTE("options " << opt);
	const std::string path = pbt::scratch() + "/c25_" + std::to_string((long)getpid()) + ".vtu";
	struct Gone { const std::string& n; ~Gone() { unlink(n.c_str()); } } gone{path};
	if(s.chance(1, 10)) { std::ofstream f(path); f << std::string(20000, 'x'); }// An old longer file
	const NS::Mesh<T, 2>& q = m;
	Abroad abroad(s, 8);
	if(abroad.on) NOTE("in a foreign locale");
	c.label(abroad.on, "foreign locale");
	if(opt == 0 && s.coin()) NS::VTKExporter<T, 2>::write(path, q, sets[0], sets[1]);
	else NS::VTKExporter<T, 2>::write(path, q, sets[0], sets[1], opt);
	abroad.home();
	std::string text;
	{ std::ifstream f(path, std::ios::binary); REQ((bool)f, "no file was written"); text.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }

	Xml x(text);
	const Node doc = x.document();
	REQ(doc.name == "VTKFile" && doc.at("type") == "UnstructuredGrid" && doc.at("version") != "", "the document is no VTK file of an unstructured grid");
	const Node& piece = doc.only("UnstructuredGrid").only("Piece");
	REQ(piece.at("NumberOfPoints") == std::to_string(nv), "NumberOfPoints is " << piece.at("NumberOfPoints") << " instead of " << nv);
	REQ(piece.at("NumberOfCells") == std::to_string(ne), "NumberOfCells is " << piece.at("NumberOfCells") << " instead of " << ne);
	REQ(piece.only("Points").child.size() == 1, "not one array of points");
	const std::vector<double> pts = numbers(piece.only("Points").child[0], 3, nv, "points");
	for(size_t i = 0; i < nv; ++i) {
		close(pts[3 * i], (double)m.vertex(i)->Vertex[0], "x of points", i);
		close(pts[3 * i + 1], (double)m.vertex(i)->Vertex[1], "y of points", i);
		REQ(pts[3 * i + 2] == 0, "z of point " << i << " is " << pts[3 * i + 2]);
	}
	const Node& cells = piece.only("Cells");
	std::map<std::string, const Node*> ca;
	for(const auto& n : cells.child) REQ(ca.insert(std::make_pair(n.at("Name"), &n)).second, "array of cells is there twice");
	REQ(ca.size() == 3 && ca.count("connectivity") && ca.count("offsets") && ca.count("types"), "cells need connectivity, offsets and types");
	const size_t N = Order == 1 ? 3 : 6;
	const std::vector<double> con = numbers(*ca["connectivity"], 1, N * ne, "connectivity"), off = numbers(*ca["offsets"], 1, ne, "offsets"), typ = numbers(*ca["types"], 1, ne, "types");
	for(size_t e = 0; e < ne; ++e) {
		REQ(off[e] == (double)(N * (e + 1)), "offset of cell " << e << " is " << off[e]);
		REQ(typ[e] == (Order == 1 ? 5 : 22), "type of cell " << e << " is " << typ[e]);
		for(size_t i = 0; i < N; ++i) {
			const double want = (double)m.element(e)->DOFVertices[i]->GlobalIndex;
			REQ(con[N * e + i] == want, "point " << i << " of cell " << e << " is " << con[N * e + i] << " instead of " << want);
		}
		for(size_t i = 0; i < 3; ++i) REQ(con[N * e + i] == (double)m.element(e)->Vertices[i]->GlobalIndex, "point " << i << " of cell " << e << " is not its vertex");
	}
	for(int k = 0; k < 2; ++k) {
		const Node& data = piece.only(k ? "CellData" : "PointData");
		std::map<std::string, const Node*> have;
		for(const auto& n : data.child) REQ(have.insert(std::make_pair(n.at("Name"), &n)).second, "data set " << n.at("Name") << " is there twice");
		for(const char* a : {"Scalars", "Vectors", "Normals", "Tensors", "TCoords"}) if(data.attr.count(a)) REQ(have.count(data.at(a)), "active data set " << data.at(a) << " does not exist");
		std::set<std::string> want;
		for(const auto& d : sets[k]) {
			want.insert(d.first);
			REQ(have.count(d.first), "data set " << d.first << " is missing");
			const std::vector<double> v = numbers(*have[d.first], 1, k ? ne : nv, "data set " + d.first);
			for(size_t i = 0; i < v.size(); ++i) close(v[i], (double)(*d.second)[i], "data set " + d.first, i);
		}
		const auto extra = [&](int o, const char* n, size_t comps) {
			std::vector<double> r;
			if(!(opt & o)) return r;
			want.insert(n);
			REQ(have.count(n), "data set " << n << " is missing");
			return numbers(*have[n], comps, k ? ne : nv, n);
		};
		if(!k) {
			const std::vector<double> b = extra(NS::VOO_VertexBoundaryLabel, "BoundaryLabel", 1), i = extra(NS::VOO_VertexImplicitLabel, "ImplicitLabel", 1);
			for(size_t v = 0; v < b.size(); ++v) REQ(b[v] == ((m.vertex(v)->Flags & NS::MVF_StrongBoundary) ? 1 : 0), "boundary label of point " << v << " is " << b[v]);
			for(size_t v = 0; v < i.size(); ++v) REQ(i[v] == ((m.vertex(v)->Flags & NS::MVF_Implicit) ? 1 : 0), "implicit label of point " << v << " is " << i[v]);
		} else {
			const std::vector<double> d = extra(NS::VOO_ElementDeterminant, "ElementDeterminant", 1), mt = extra(NS::VOO_ElementMatrix, "ElementMatrix", 4), g = extra(NS::VOO_ElementGradient, "ElementGradient", 2);
			for(size_t e = 0; e < ne; ++e) {
				const auto& el = m.element(e)->Element;
				if(!d.empty()) close(d[e], (double)el.determinant(), "determinant", e);
				if(!mt.empty()) for(size_t i = 0; i < 4; ++i) close(mt[4 * e + i], (double)el.matrix().at(i / 2, i % 2), "matrix", 4 * e + i);
				if(!g.empty()) for(size_t i = 0; i < 2; ++i) close(g[2 * e + i], (double)el.gradient(0)[i], "gradient", 2 * e + i);
			}
		}
		REQ(want.size() == have.size(), have.size() << " data sets instead of " << want.size());
		c.label(sets[k].empty(), k ? "no cell data" : "no point data");
	}
	c.nontrivial(ne > 1);
}
}
