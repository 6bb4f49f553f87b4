// C27: printed vectors and matrices show exactly their entries and can be read back
#include "../common.h"
#include "OutputStream.h"
using namespace h;

namespace {
// Values whose text depends on the format: many digits, tiny, huge, negative zero
template<class T> struct Fmt {
	static double part(Src& s)
	{
		switch(s.raw(6)) {
		case 0: return (double)s.num(9);
		case 1: return (double)s.num(1000000) / 7;
		case 2: return std::ldexp((double)s.num(255) / 3, (int)s.num(40));
		case 3: return s.coin() ? -0.0 : 0.0;
		case 4: return (double)s.num(99) * 1e5;
		default: return (double)s.num(32) / 4;
		}
	}
	static T mkv(Src& s) { const double r = part(s); return mk<T>(r, Real<T>::cplx && s.coin() ? part(s) : 0); }
};
template<> struct Fmt<int> { static int mkv(Src& s) { return (int)s.num(s.coin() ? 9 : 1000000); } };

struct Format {
	int prec, flt;
	bool plus, upper, point;
};
Format genFormat(Src& s)
{
	Format f;
	f.prec = s.coin() ? 6 : (int)s.size(0, 20);
	f.flt = (int)s.raw(3); f.plus = s.chance(1, 4); f.upper = s.chance(1, 4); f.point = s.chance(1, 4);
	return f;
}
void apply(std::ostream& o, const Format& f)
{
	o.precision(f.prec);
	if(f.flt) o.setf(f.flt == 1 ? std::ios::fixed : std::ios::scientific, std::ios::floatfield);
	if(f.plus) o.setf(std::ios::showpos);
	if(f.upper) o.setf(std::ios::uppercase);
	if(f.point) o.setf(std::ios::showpoint);
}
std::string shown(const Format& f)
{
	std::ostringstream o;
	o << "precision " << f.prec << (f.flt == 1 ? " fixed" : f.flt == 2 ? " scientific" : "") << (f.plus ? " showpos" : "") << (f.upper ? " uppercase" : "") << (f.point ? " showpoint" : "");
	return o.str();
}
template<class T> std::string text(const T& v, const Format& f)
{
	std::ostringstream o;
	apply(o, f);
	o << v;
	return o.str();
}
std::vector<std::string> tokens(const std::string& t)
{
	std::istringstream i(t);
	std::vector<std::string> r;
	std::string w;
	while(i >> w) r.push_back(w);
	return r;
}
std::string join(const std::vector<std::string>& v)
{
	std::string r;
	for(size_t i = 0; i < v.size(); ++i) r += (i ? " " : "") + v[i];
	return r;
}
// Prints between two marks; checks the stream and returns the text between them
template<class X> std::string printed(const X& x, const Format& f)
{
	std::ostringstream o;
	apply(o, f);
	const std::ios::fmtflags fl = o.flags();
	const char fill = o.fill();
	o << "<<";
	std::ostream& r = o << x;
	REQ(&r == &o, "another stream is returned");
	REQ(o.good(), "the stream is not good any more");
	REQ(o.flags() == fl, "format flags changed from " << fl << " to " << o.flags());
	REQ(o.precision() == f.prec, "precision changed from " << f.prec << " to " << o.precision());
	REQ(o.width() == 0 && o.fill() == fill, "width or fill changed");
	r << ">>";
	const std::string t = o.str();
	REQ(t.size() >= 4 && t.compare(0, 2, "<<") == 0 && t.compare(t.size() - 2, 2, ">>") == 0, "marks around the text are gone: " << t);
	const std::string in = t.substr(2, t.size() - 4);
	// Printing into a stream with other content appends, in one expression as well
	std::ostringstream p;
	apply(p, f);
	p << x << "and" << x;
	REQ(p.str() == in + "and" + in, "printing twice in one expression shows " << p.str());
	return in;
}
void layout(const std::string& got, const std::vector<std::string>& want)
{
	REQ(tokens(got) == want, "printed text is " << got << " instead of " << join(want));
	REQ(!got.empty() && got[0] == '[' && got[got.size() - 1] == ']', "text does not start and end with its brackets: " << got);
	REQ(got.find('\n') == std::string::npos, "text contains a line break");
}
template<class T> T back(const std::string& w)
{
	std::istringstream i(w);
	T v;
	REQ(bool(i >> v), "can not read " << w << " back");
	return v;
}
// All digits: the same number comes back
Format digits(int flt) { Format f = {21, flt, false, false, false}; return f; }
template<class V> void showVector(const V& v, const std::vector<typename V::value_type>& ref, const Format& f)
{
	typedef typename V::value_type T;
	std::vector<std::string> want(1, "[");
	for(const T& x : ref) want.push_back(text(x, f));
	want.push_back("]");
	layout(printed(v, f), want);
	const std::vector<std::string> w = tokens(printed(v, digits(f.flt == 2 ? 2 : 0)));
	REQ(w.size() == ref.size() + 2, "with all digits there are " << w.size() << " words");
	for(size_t i = 0; i < ref.size(); ++i) REQ(back<T>(w[i + 1]) == ref[i], "element " << i << " reads back as " << back<T>(w[i + 1]) << " instead of " << ref[i]);
	REQ(vec(v) == ref, "printing changed the vector");
}
template<class M, class T> void showMatrix(const M& m, const Grid<T>& g, const Format& f)
{
	std::vector<std::string> want(1, "[");
	for(size_t i = 0; i < g.r; ++i) {
		if(i) want.push_back("|");
		for(size_t j = 0; j < g.c; ++j) want.push_back(text(g(i, j), f));
	}
	want.push_back("]");
	layout(printed(m, f), want);
	Grid<T> r(g.r, g.c);
	size_t i = 0, j = 0;
	const std::vector<std::string> w = tokens(printed(m, digits(f.flt == 2 ? 2 : 0)));
	for(size_t k = 1; k + 1 < w.size(); ++k) {
		if(w[k] == "|") { REQ(j == g.c, "row " << i << " has " << j << " entries"); j = 0; ++i; continue; }
		REQ(i < g.r && j < g.c, "too many entries");
		r(i, j++) = back<T>(w[k]);
	}
	REQ(r == g, "reads back as " << r << " instead of " << g);
	REQ(grid(m) == g, "printing changed the matrix");
}
template<class T> void showSparse(const NS::SparseMatrix<T>& m, const Grid<T>& g, const Format& f)
{
	const size_t n = m.filled_count();
	std::vector<std::string> want(1, "[");
	for(size_t i = 0; i < g.r; ++i) for(size_t j = 0; j < g.c; ++j) if(g(i, j) != mk<T>(0)) {
		want.push_back("(" + std::to_string(i) + ",");
		want.push_back(std::to_string(j) + ";");
		want.push_back(text(g(i, j), f) + ")");
	}
	want.push_back("]");
	layout(printed(m, f), want);
	std::string t = printed(m, digits(f.flt == 2 ? 2 : 0));
	std::istringstream in(t.substr(2));
	Grid<T> r(g.r, g.c);
	for(;;) {
		char a = 0, b = 0, d = 0, e = 0;
		size_t i = g.r, j = g.c;
		REQ(bool(in >> a) && (a == '(' || a == ']'), "entry does not start with a bracket: " << t);
		if(a == ']') break;
		T v;
		REQ(bool(in >> i >> b >> j >> d >> v >> e) && b == ',' && d == ';' && e == ')', "malformed entry: " << t);
		REQ(i < g.r && j < g.c, "entry outside: " << i << ", " << j);
		r(i, j) = v;
	}
	REQ(r == g, "reads back as " << r << " instead of " << g);
	REQ(grid(m) == g && m.filled_count() == n, "printing changed the matrix");
}

template<class T, NS::Dimension K> void fixedVector(const std::vector<T>& ref, const Format& f)
{
	NS::FixedVector<T, K> v;
	for(size_t i = 0; i < K; ++i) v.set(i, ref[i]);
	showVector(v, std::vector<T>(ref.begin(), ref.begin() + K), f);
}
template<class T> void vectors(Ctx& c)
{
	Src& s = c.s;
	const Format f = genFormat(s);
	const bool fixed = s.coin();
	std::vector<T> ref(fixed ? 5 : s.chance(1, 60) ? s.size(30, 200) : s.small(1, 30));
	for(T& x : ref) x = Fmt<T>::mkv(s);
	NOTE(shown(f) << " " << vs(ref));
	if(fixed) switch(s.raw(5)) {
		case 0: fixedVector<T, 1>(ref, f); break;
		case 1: fixedVector<T, 2>(ref, f); break;
		case 2: fixedVector<T, 3>(ref, f); break;
		case 3: fixedVector<T, 4>(ref, f); break;
		default: fixedVector<T, 5>(ref, f); break;
	} else showVector(dyn(ref), ref, f);
	c.label(fixed, "fixed"); c.label(f.flt != 0 || f.prec != 6, "format set");
	c.nontrivial(ref.size() > 1);
}
template<class T> Grid<T> cells(Src& s, size_t r, size_t n)
{
	Grid<T> g(r, n);
	const unsigned zeros = (unsigned)s.raw(11);
	for(T& x : g.v) x = s.chance(10 - zeros, 10) ? Fmt<T>::mkv(s) : mk<T>(0);
	return g;
}
template<class T, NS::Dimension A, NS::Dimension B> void fixedMatrix(Src& s, const Format& f, Ctx& c)
{
	const Grid<T> g = cells<T>(s, A, B);
	NOTE(shown(f) << " fixed " << g);
	showMatrix(Make<NS::FixedMatrix<T, A, B> >::of(s, g), g, f);
}
template<class T> void matrices(Ctx& c)
{
	Src& s = c.s;
	const Format f = genFormat(s);
	if(s.chance(1, 4)) {
		switch(s.raw(6)) {
		case 0: fixedMatrix<T, 1, 1>(s, f, c); break;
		case 1: fixedMatrix<T, 2, 2>(s, f, c); break;
		case 2: fixedMatrix<T, 2, 3>(s, f, c); break;
		case 3: fixedMatrix<T, 3, 2>(s, f, c); break;
		case 4: fixedMatrix<T, 1, 4>(s, f, c); break;
		default: fixedMatrix<T, 4, 1>(s, f, c); break;
		}
		c.label("fixed");
		c.nontrivial();
		return;
	}
	const Grid<T> g = cells<T>(s, s.chance(1, 60) ? s.size(9, 40) : s.small(1, 9), s.chance(1, 60) ? s.size(9, 40) : s.small(1, 9));
	NOTE(shown(f) << " " << g);
	if(s.coin()) { showMatrix(Make<NS::DenseMatrix<T> >::of(s, g), g, f); c.label("dense"); }
	else { showSparse(Make<NS::SparseMatrix<T> >::of(s, g), g, f); c.label("sparse"); }
	c.nontrivial(g.v.size() > 1 && maxabs(g) > 0);
}
}
