// C28: results depend on the arguments only
#pragma once
#include "../meshgen.h"
#include "OutputStream.h"
#include <typeinfo>
using namespace h;

// Everything a computation gives back, as bits
struct Out {
	std::vector<uint64_t> w;
	void n(uint64_t v) { w.push_back(v); }
	void d(double v)
	{
		if(v != v) { w.push_back(0x7ff8000000000000ULL); return; }
		uint64_t b; memcpy(&b, &v, sizeof b); w.push_back(b);
	}
	template<class T> void x(const T& v) { d(re(v)); d(im(v)); }
	void str(const std::string& t) { n(t.size()); for(size_t i = 0; i < t.size(); i += 8) { uint64_t b = 0; memcpy(&b, t.data() + i, std::min<size_t>(8, t.size() - i)); n(b); } }
	template<class M> void m(const M& a) { const auto g = grid(a); n(g.r); n(g.c); for(const auto& v : g.v) x(v); }
	template<class V> void v(const V& a) { n(a.size()); for(size_t i = 0; i < a.size(); ++i) x(a[i]); }
	void idx(const NS::DynamicVector<NS::Index>& a) { n(a.size()); for(size_t i = 0; i < a.size(); ++i) n(a[i]); }
};
typedef void (*TaskFn)(Src&, Out&);
struct Task { const char* group; std::string name; TaskFn fn; };
std::vector<Task>& tasks();
struct AddTask { AddTask(const char* g, const std::string& n, TaskFn f) { tasks().push_back(Task{g, n, f}); } };
#define TASK_CAT2(a, b) a##b
#define TASK_CAT(a, b) TASK_CAT2(a, b)
#define TASK(group, name, ...) static AddTask TASK_CAT(task_, __COUNTER__)(group, name, __VA_ARGS__)

// Objects several threads read at the same time
struct Shared;
struct Readers { const char* name; std::shared_ptr<void> (*make)(Src&); void (*read)(const void*, Src&, Out&); };
std::vector<Readers>& readers();
struct AddReaders { AddReaders(const char* n, std::shared_ptr<void> (*m)(Src&), void (*r)(const void*, Src&, Out&)) { readers().push_back(Readers{n, m, r}); } };
// Makes an object with T make(Src&) and reads it with void read(const T&, Src&, Out&)
template<class T, T (*Make)(Src&), void (*Read)(const T&, Src&, Out&)> struct ReadersOf {
	static std::shared_ptr<void> make(Src& s) { return std::shared_ptr<void>(new T(Make(s)), [](void* p) { delete (T*)p; }); }
	static void read(const void* p, Src& s, Out& o) { Read(*(const T*)p, s, o); }
};
#define READERS(label, type, mk_, rd_) static AddReaders TASK_CAT(readers_, __COUNTER__)(label, ReadersOf<type, mk_, rd_>::make, ReadersOf<type, mk_, rd_>::read)

// Written in the classic locale
struct Text : std::ostringstream { Text() { imbue(std::locale::classic()); } };
// A name for a file of the running task. Concurrent tasks use different files, repeated ones the same.
std::string ownFile(const char* suffix);
