#include "c28.h"
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <new>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <malloc.h>

// Fresh memory holds something else in each of the runs
static unsigned char gFill = 0;
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	memset(p, gFill, n < 4096 ? n : 4096);
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

std::vector<Task>& tasks() { static std::vector<Task> t; return t; }
std::vector<Readers>& readers() { static std::vector<Readers> r; return r; }
static thread_local size_t gSlotOfThread = 0;
static std::string gOwn;
std::string ownFile(const char* suffix) { std::ostringstream o; o << gOwn << "_" << gSlotOfThread << suffix; return o.str(); }

namespace {
__attribute__((noinline)) void paint(unsigned char v)
{
	volatile unsigned char b[24 * 1024];
	for(size_t i = 0; i < sizeof b; ++i) b[i] = v;
}
Src source(uint64_t seed)
{
	Src s;
	s.buf = nullptr; s.cnt = nullptr; s.rep = nullptr; s.st = pbt::mix(seed);
	return s;
}
// Where two results part
std::string parting(const Out& a, const Out& b)
{
	size_t i = 0;
	while(i < a.w.size() && i < b.w.size() && a.w[i] == b.w[i]) ++i;
	std::ostringstream o;
	o << " (word " << i << " of " << a.w.size() << " and " << b.w.size();
	o.imbue(std::locale::classic());
	const auto show = [&](const Out& x) {
		o << "; ";
		if(i >= x.w.size()) { o << "nothing"; return; }
		double d; memcpy(&d, &x.w[i], sizeof d);
		o << std::hex << x.w[i] << std::dec << " = " << d;
	};
	show(a); show(b);
	o << ")";
	return o.str();
}
struct Job { size_t kind; uint64_t seed; };// A task, or the readers of a shared object
typedef std::vector<std::vector<Job> > Plan;// By thread

void runTask(const Job& j, const void* shared, size_t shape, size_t slot, Out& o)
{
	gSlotOfThread = slot;
	Src s = source(j.seed);
	try { if(shared) readers()[shape].read(shared, s, o); else tasks()[j.kind].fn(s, o); }
	catch(const pbt::Discard&) { o.n(1); }
	catch(const pbt::Fail& f) { o.n(2); o.str(f.msg); }
	catch(const std::exception& e) { o.n(3); o.str(typeid(e).name()); }
	catch(...) { o.n(4); const std::type_info* t = abi::__cxa_current_exception_type(); o.str(t ? t->name() : "?"); }
}
std::string name(const Job& j, bool shared, size_t shape) { return shared ? std::string("reading ") + readers()[shape].name : tasks()[j.kind].name; }

// Everything happens in a process of its own, so the concurrent run is the first one for any state kept by the library
int body(const Plan& plan, bool shared, size_t shape, uint64_t seed, std::string& msg)
{
	const size_t n = plan.size();
	std::shared_ptr<void> obj, again;
	if(shared) {
		Src s = source(seed), t = source(seed);
		gFill = 0;
		try { obj = readers()[shape].make(s); } catch(const pbt::Discard&) { return 2; }
	}
	std::vector<std::vector<Out> > a(n), b(n), d(n);
	for(size_t i = 0; i < n; ++i) { a[i].resize(plan[i].size()); b[i].resize(plan[i].size()); d[i].resize(plan[i].size()); }
	gFill = 0;
	{
		std::atomic<size_t> ready(0);
		std::vector<std::thread> th;
		for(size_t i = 0; i < n; ++i) th.emplace_back([&, i]() {
			paint(0);
			++ready;
			while(ready < n) {}
			for(size_t k = 0; k < plan[i].size(); ++k) runTask(plan[i][k], obj.get(), shape, i, a[i][k]);
		});
		for(auto& t : th) t.join();
	}
	gFill = 0x7f;
	for(size_t i = 0; i < n; ++i) for(size_t k = 0; k < plan[i].size(); ++k) { paint(0x7f); runTask(plan[i][k], obj.get(), shape, i, b[i][k]); }
	gFill = 0xc3;
	errno = ERANGE;
	Abroad::set("\3", ',', '.');// Not an argument of anything here
	for(size_t i = n; i-- > 0;) for(size_t k = plan[i].size(); k-- > 0;) { paint(0xc3); runTask(plan[i][k], obj.get(), shape, i, d[i][k]); }
	for(size_t i = 0; i < n; ++i) for(size_t k = 0; k < plan[i].size(); ++k) {
		const std::string who = name(plan[i][k], shared, shape);
		if(b[i][k].w != d[i][k].w) { msg = who + ": two runs with the same arguments gave different results" + parting(b[i][k], d[i][k]); return 1; }
		if(a[i][k].w != b[i][k].w) { msg = who + ": gave another result while other threads were computing" + parting(a[i][k], b[i][k]); return 1; }
	}
	return 0;
}
// Result of the child
void explore(Ctx& c, const Plan& plan, bool shared, size_t shape, uint64_t seed)
{
	std::ostringstream o; o << pbt::scratch() << "/c28_" << getpid();
	gOwn = o.str();
	const std::string err = gOwn + ".err";
	int fd[2];
	if(pipe(fd)) throw std::runtime_error("pipe");
	fflush(nullptr);
	const pid_t p = fork();
	if(p < 0) throw std::runtime_error("fork");
	if(p == 0) {
		close(fd[0]);
		const int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if(e >= 0) { dup2(e, 2); close(e); }
		struct rlimit l; l.rlim_cur = 120; l.rlim_max = 125; setrlimit(RLIMIT_CPU, &l);
		alarm(600);
		std::string msg;
		int rc = body(plan, shared, shape, seed, msg);
		if(write(fd[1], msg.data(), msg.size()) < 0) rc = 9;
		_exit(rc);
	}
	close(fd[1]);
	std::string msg; char b[512]; ssize_t k;
	while((k = read(fd[0], b, sizeof b)) > 0) msg.append(b, (size_t)k);
	close(fd[0]);
	int st = 0;
	while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	std::string report;
	{ std::ifstream f(err.c_str()); std::stringstream t; t << f.rdbuf(); report = t.str().substr(0, 3000); }
	unlink(err.c_str());
	for(size_t i = 0; i < plan.size(); ++i) for(const char* x : {".a", ".b", ".vtu"}) { std::ostringstream f; f << gOwn << "_" << i << x; unlink(f.str().c_str()); }
	if(WIFEXITED(st) && WEXITSTATUS(st) == 2) throw pbt::Discard();
	REQ(msg.empty(), msg);
	REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the computations ended with status " << st << ":\n" << report);
}

void separate(Ctx& c, const char* group)
{
	Src& s = c.s;
	std::vector<size_t> kinds;
	for(size_t i = 0; i < tasks().size(); ++i) if(!group || !strcmp(tasks()[i].group, group)) kinds.push_back(i);
	Plan plan(s.size(2, 4));
	const bool same = s.coin();
	const size_t steps = s.size(1, 4);
	for(size_t i = 0; i < plan.size(); ++i) for(size_t k = 0; k < steps; ++k)
		plan[i].push_back(Job{same && i ? plan[0][k].kind : s.of(kinds), s.raw((uint64_t)1 << 32)});
	for(size_t i = 0; i < plan.size(); ++i) for(const Job& j : plan[i]) NOTE("thread " << i << ": " << name(j, false, 0) << " with seed " << j.seed);
	explore(c, plan, false, 0, 0);
	c.label(same, "the same computations in all threads");
	c.nontrivial(plan.size() * steps > 2);
}
void matrices(Ctx& c) { separate(c, "matrices"); }
void solvers(Ctx& c) { separate(c, "solvers"); }
void meshes(Ctx& c) { separate(c, "meshes"); }
void mixed(Ctx& c) { separate(c, nullptr); }
void shared(Ctx& c)
{
	Src& s = c.s;
	const size_t shape = s.raw(readers().size());
	const uint64_t seed = s.raw((uint64_t)1 << 32);
	Plan plan(s.size(2, 4));
	const size_t steps = s.size(1, 3);
	for(auto& p : plan) for(size_t k = 0; k < steps; ++k) p.push_back(Job{0, s.raw((uint64_t)1 << 32)});
	NOTE(plan.size() << " threads, " << steps << " times, read the same " << readers()[shape].name << " with seed " << seed);
	c.label(readers()[shape].name);
	explore(c, plan, true, shape, seed);
	c.nontrivial(plan.size() * steps > 2);
}
}
INST(40, std::string("matrices and vectors"), matrices);
INST(40, std::string("factorisations and solvers"), solvers);
INST(40, std::string("elements, meshes and files"), meshes);
INST(30, std::string("everything"), mixed);
INST(60, std::string("reading shared objects"), shared);
