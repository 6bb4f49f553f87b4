// A small property-based testing engine (choice sequences, in the style of
// Hypothesis): a law is a function that draws its input from a Src, checks the
// library against an oracle and throws pbt::Fail when the check fails.
// Cases run in forked workers, so an abort, a sanitizer report or an endless
// loop is a failure of one case as well. Failures are shrunk by editing the
// recorded choices; the shrunk list of choices is the replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
	std::string msg;
	explicit Fail(const std::string& m) : msg(m) {}
};
struct Discard {};

static const uint32_t MAX_CHOICES = 1u << 16;

inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s)
{
	uint64_t h = 1469598103934665603ULL;
	for(; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
	return h;
}

// Source of all random choices of a case.
class Src {
public:
	uint64_t* buf;
	uint32_t* cnt;
	const std::vector<uint64_t>* rep;
	uint64_t st;

	// Uniform in [0,bound). 0 is always the simplest choice.
	uint64_t raw(uint64_t bound)
	{
		uint64_t v;
		if(!buf) {// Not recorded
			st = mix(st);
			return bound ? st % bound : 0;
		}
		if(rep) {
			v = *cnt < rep->size() ? (*rep)[*cnt] : 0;
			if(v >= bound) v = bound - 1;
		} else {
			st = mix(st);
			v = bound ? st % bound : 0;
		}
		if(*cnt >= MAX_CHOICES) throw Discard();
		buf[(*cnt)++] = v;
		return v;
	}
	// Uniform integer in [lo,hi]
	long range(long lo, long hi) { return lo + (long)raw((uint64_t)(hi - lo) + 1); }
	size_t size(size_t lo, size_t hi) { return lo + (size_t)raw(hi - lo + 1); }
	// Integer in [-lim,lim], simplest is 0, then 1, -1, 2...
	long num(long lim)
	{
		uint64_t v = raw(2 * (uint64_t)lim + 1);
		return (v & 1) ? (long)((v + 1) / 2) : -(long)(v / 2);
	}
	// True with probability n/d
	bool chance(unsigned n, unsigned d) { return raw(d) >= d - n; }
	bool coin() { return raw(2) == 1; }
	// Size that is usually small and rarely big
	size_t small(size_t lo, size_t hi)
	{
		size_t h = hi;
		if(chance(3, 4)) h = lo + (hi - lo + 1) / 2;
		return size(lo, h);
	}
	// Source for bulk data, which is a single choice as a whole
	Src bulk()
	{
		Src b(*this);
		b.st = mix(raw((uint64_t)1 << 32)); b.buf = NULL; b.cnt = NULL; b.rep = NULL;
		return b;
	}
	bool recorded() const { return buf != NULL; }
	template<class V> const typename V::value_type& of(const V& v) { return v[raw(v.size())]; }
	std::vector<size_t> perm(size_t n)
	{
		if(n > 2000 && buf) { Src b = bulk(); return b.perm(n); }
		std::vector<size_t> p(n);
		for(size_t i = 0; i < n; ++i) p[i] = i;
		for(size_t i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + raw(n - i)]);
		return p;
	}
};

class Ctx {
public:
	Src s;
	bool verbose;
	char* notes; size_t notesCap;
	bool nontriv;
	std::vector<const char*> labels;

	Ctx() : verbose(false), notes(NULL), notesCap(0), nontriv(false) {}
	// Written at once, so a crash does not lose it
	void addNote(const std::string& t)
	{
		size_t l = strlen(notes);
		if(l + t.size() + 2 > notesCap) return;
		memcpy(notes + l, t.data(), t.size()); notes[l + t.size()] = '\n'; notes[l + t.size() + 1] = 0;
	}
	void nontrivial(bool b = true) { if(b) nontriv = true; }
	// Classification, literal strings only
	void label(const char* l) { labels.push_back(l); }
	void label(bool b, const char* l) { if(b) labels.push_back(l); }
};

typedef void (*LawFn)(Ctx&);
struct Law {
	std::string name;
	double quick;
	LawFn fn;
};
std::vector<Law>& laws();
struct Reg {
	Reg(const std::string& n, double quick, LawFn f) { laws().push_back(Law{n, quick, f}); }
};

// Directory for temporary files of the current process
const std::string& scratch();

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// LAW(name, cases in the quick tier) { body using 'c' }
#define LAW(name, n) \
	static void name(pbt::Ctx& c); \
	static pbt::Reg PBT_CAT(reg_, name)(#name, n, name); \
	static void name(pbt::Ctx& c)
// Register an instance of a law template
#define INST(n, label, ...) \
	static pbt::Reg PBT_CAT(reg_inst_, __LINE__)(label, n, __VA_ARGS__)

#define NOTE(expr) do { if(c.verbose) { std::ostringstream pbt_o; pbt_o.precision(17); \
	pbt_o << expr; c.addNote(pbt_o.str()); } } while(0)
#define REQ(cond, expr) do { if(!(cond)) { std::ostringstream pbt_o; pbt_o.precision(17); \
	pbt_o << expr << "   [" #cond "]"; throw pbt::Fail(pbt_o.str()); } } while(0)
// The expression has to throw exactly the given exception (or one derived from it)
#define THROWS(exc, what, ...) do { bool pbt_ok = false; \
	try { __VA_ARGS__; } catch(const exc&) { pbt_ok = true; } \
	if(!pbt_ok) { std::ostringstream pbt_o; pbt_o << what << ": expected " #exc ", but nothing was thrown"; \
		throw pbt::Fail(pbt_o.str()); } } while(0)
