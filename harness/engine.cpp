#include "pbt.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <algorithm>

// Implemented in the harness (needs the exception type of the library)
const char* pbt_translate_exception();

namespace pbt {
std::vector<Law>& laws() { static std::vector<Law> l; return l; }

static std::string gScratch;
const std::string& scratch() { return gScratch; }

enum { ST_IDLE = 0, ST_RUN = 1, ST_PASS = 2, ST_FAIL = 3, ST_DISCARD = 4 };
static const unsigned MAXW = 32, MAXLAW = 256;
static const unsigned CASE_CPU_S = 20, HEAVY_CPU_S = 120;// Laws with less than one case per unit are heavy ones
static unsigned gLimit = CASE_CPU_S;

struct Slot {
	volatile uint32_t status;
	uint32_t count;
	volatile uint64_t law, idx, serial;
	volatile uint32_t timeout;
	uint64_t evals[MAXLAW], nontriv[MAXLAW], discards[MAXLAW];
	char msg[8192];
	char notes[65536];
	uint64_t choices[MAX_CHOICES];
};
static Slot* gSlots;
static Slot* gCur;

static uint64_t gLastSerial; static unsigned gTicks;
static void onProf(int)
{
	if(gCur->serial != gLastSerial) { gLastSerial = gCur->serial; gTicks = 0; return; }
	if(++gTicks >= gLimit) { gCur->timeout = 1; _exit(77); }
}
static void armTimer(Slot* s)
{
	gCur = s; gLastSerial = s->serial; gTicks = 0;
	signal(SIGPROF, onProf);
	struct itimerval t; t.it_interval.tv_sec = 1; t.it_interval.tv_usec = 0; t.it_value = t.it_interval;
	setitimer(ITIMER_PROF, &t, NULL);
}
static void put(char* dst, size_t cap, const std::string& s)
{
	size_t n = std::min(cap - 1, s.size());
	memcpy(dst, s.data(), n); dst[n] = 0;
}

// Runs one case in this process. Returns status.
static uint32_t runCase(Slot* sl, const Law& law, uint64_t seed, const std::vector<uint64_t>* rep, bool verbose, Ctx& c)
{
	sl->count = 0; sl->msg[0] = 0; sl->notes[0] = 0; sl->timeout = 0;
	c.s.buf = sl->choices; c.s.cnt = &sl->count; c.s.rep = rep; c.s.st = seed;
	c.verbose = verbose; c.nontriv = false; c.labels.clear(); c.notes = sl->notes; c.notesCap = sizeof sl->notes;
	gLimit = law.quick < 1 ? HEAVY_CPU_S : CASE_CPU_S;
	sl->status = ST_RUN; sl->serial++;
	uint32_t st = ST_PASS;
	try { law.fn(c); }
	catch(const Discard&) { st = ST_DISCARD; }
	catch(const Fail& f) { put(sl->msg, sizeof sl->msg, f.msg); st = ST_FAIL; }
	catch(const std::exception& e) { put(sl->msg, sizeof sl->msg, std::string("unexpected exception: ") + e.what()); st = ST_FAIL; }
	catch(...) { put(sl->msg, sizeof sl->msg, std::string("unexpected exception: ") + pbt_translate_exception()); st = ST_FAIL; }
	sl->status = st;
	return st;
}

struct Outcome { bool fail, timeout; std::string msg, notes; std::vector<uint64_t> choices; };

static void redirect(const char* errfile)
{
	int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
static std::string slurp(const std::string& f)
{
	std::ifstream i(f.c_str()); std::stringstream b; b << i.rdbuf(); return b.str();
}
static int waitFor(pid_t p)
{
	int st = 0;
	while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	return st;
}

// Runs a case in a child process
static Outcome isolated(const Law& law, uint64_t seed, const std::vector<uint64_t>* rep, bool verbose)
{
	Slot* sl = &gSlots[MAXW];
	const std::string err = gScratch + "/child.err";
	sl->status = ST_IDLE; sl->timeout = 0; sl->count = 0; sl->msg[0] = 0; sl->notes[0] = 0;
	fflush(NULL);
	pid_t p = fork();
	if(p == 0) {
		redirect(verbose ? err.c_str() : NULL);
		armTimer(sl);
		Ctx c;
		runCase(sl, law, seed, rep, verbose, c);
		_exit(0);
	}
	int st = waitFor(p);
	Outcome o; o.timeout = false;
	o.choices.assign(sl->choices, sl->choices + std::min(sl->count, MAX_CHOICES));
	o.msg = sl->msg; o.notes = sl->notes;
	if(sl->status == ST_FAIL) { o.fail = true; return o; }
	if(sl->status == ST_RUN) {
		o.fail = true; o.timeout = sl->timeout;
		std::ostringstream m;
		if(sl->timeout) m << "no result after " << (law.quick < 1 ? HEAVY_CPU_S : CASE_CPU_S) << " s of CPU time";
		else if(WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st);
		else m << "process ended with code " << WEXITSTATUS(st);
		if(verbose) {
			std::string e = slurp(err);
			m << "\n" << e.substr(0, 6000);
		}
		o.msg = m.str();
		return o;
	}
	o.fail = false;
	return o;
}

static double now()
{
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::vector<uint64_t> shrink(const Law& law, std::vector<uint64_t> best, bool timeout)
{
	if(timeout) return best;// Every candidate would need the full limit
	const double end = now() + 60;
	unsigned budget = 4000;
	auto tryIt = [&](const std::vector<uint64_t>& cand) -> bool {
		if(budget == 0 || now() > end) { budget = 0; return false; }
		--budget;
		Outcome o = isolated(law, 0, &cand, false);
		if(!o.fail || o.timeout) return false;
		if(o.choices.size() > best.size()) return false;
		if(o.choices.size() == best.size() && !(o.choices < best)) return false;
		best = o.choices; return true;
	};
	bool progress = true;
	while(progress && budget) {
		progress = false;
		for(size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && budget; len /= 2) {
			for(size_t i = 0; i + len <= best.size() && budget;) {
				std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + len);
				if(tryIt(c)) progress = true; else i += len > 8 ? len / 2 : 1;
			}
			if(len == 1) break;
		}
		for(size_t i = 0; i < best.size() && budget; ++i) {// Smaller length and less items
			if(best[i] == 0 || best[i] > 64) continue;
			for(size_t k = 1; k <= 6 && i < best.size() && best[i] > 0; ++k)
				for(size_t off = 1; off <= 2 && i + off + k <= best.size() && best[i] > 0; ++off) {
					std::vector<uint64_t> c(best); c[i]--; c.erase(c.begin() + i + off, c.begin() + i + off + k);
					if(tryIt(c)) { progress = true; break; }
				}
		}
		for(size_t i = 0; i < best.size() && budget; ++i) {
			if(i >= best.size() || best[i] == 0) continue;
			std::vector<uint64_t> c(best); c[i] = 0;
			if(tryIt(c)) { progress = true; continue; }
			uint64_t lo = 0;
			while(i < best.size() && best[i] > lo + 1 && budget) {
				uint64_t mid = lo + (best[i] - lo) / 2;
				c = best; c[i] = mid;
				if(tryIt(c)) progress = true; else lo = mid;
			}
		}
	}
	return best;
}

static std::string jstr(const std::string& s)
{
	std::string o = "\"";
	for(unsigned char ch : s) {
		char b[8];
		if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if(ch == '\n') o += "\\n";
		else if(ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o + "\"";
}

static uint64_t caseSeed(uint64_t seed, const Law& l, uint64_t idx)
{
	return mix(mix(seed * 0x9e3779b97f4a7c15ULL + 12345) ^ hash_str(l.name.c_str()) ^ mix(idx + 77));
}

// Replays the cases of one worker in one process, for failures which need state
// of earlier cases
static bool replaySequence(uint64_t seed, const Law& law, unsigned w, unsigned W, uint64_t idx)
{
	Slot* sl = &gSlots[MAXW];
	sl->status = ST_IDLE; sl->idx = 0;
	fflush(NULL);
	pid_t p = fork();
	if(p == 0) {
		redirect(NULL); armTimer(sl);
		for(uint64_t i = w; i <= idx; i += W) {
			Ctx c; sl->idx = i;
			if(runCase(sl, law, caseSeed(seed, law, i), NULL, false, c) == ST_FAIL) _exit(1);
		}
		_exit(0);
	}
	int st = waitFor(p);
	return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static int replayFile(const std::string& path)
{
	std::ifstream f(path.c_str());
	std::string line, lawName, kind = "choices";
	std::vector<uint64_t> ch; uint64_t seed = 0, idx = 0; unsigned w = 0, W = 1;
	while(std::getline(f, line)) {
		std::istringstream i(line); std::string k; i >> k;
		if(k == "law:") { i >> std::ws; std::getline(i, lawName); }
		else if(k == "kind:") i >> kind;
		else if(k == "seed:") i >> seed;
		else if(k == "index:") i >> idx;
		else if(k == "worker:") i >> w >> W;
		else if(k == "choices:") { uint64_t v; while(i >> v) ch.push_back(v); }
	}
	for(const Law& l : laws()) {
		if(l.name != lawName) continue;
		if(kind == "sequence") {
			bool b = replaySequence(seed, l, w, W, idx);
			std::cout << (b ? "still fails\n" : "passes\n");
			return b ? 1 : 0;
		}
		Outcome o = isolated(l, 0, &ch, true);
		std::cout << "law: " << l.name << "\n" << o.notes << (o.fail ? "FAILS: " + o.msg : std::string("passes")) << "\n";
		return o.fail ? 1 : 0;
	}
	std::cerr << "unknown law " << lawName << "\n";
	return 2;
}

} // namespace pbt

using namespace pbt;

int main(int argc, char** argv)
{
	std::string out, replay, only; uint64_t seed = 1; double mult = 1; unsigned W = 8;
	gScratch = "/tmp";
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--out") out = nxt();
		else if(a == "--seed") seed = strtoull(nxt().c_str(), NULL, 10);
		else if(a == "--mult") mult = atof(nxt().c_str());
		else if(a == "--workers") W = atoi(nxt().c_str());
		else if(a == "--scratch") gScratch = nxt();
		else if(a == "--replay") replay = nxt();
		else if(a == "--only") only = nxt();
	}
	if(W > MAXW) W = MAXW;
	std::sort(laws().begin(), laws().end(), [](const Law& a, const Law& b) { return a.name < b.name; });
	if(laws().size() > MAXLAW) { std::cerr << "too many laws\n"; return 2; }
	gSlots = (Slot*)mmap(NULL, sizeof(Slot) * (MAXW + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(gSlots == MAP_FAILED) { perror("mmap"); return 2; }
	if(!replay.empty()) return replayFile(replay);

	const double t0 = now();
	std::vector<uint64_t> total(laws().size());
	for(size_t l = 0; l < laws().size(); ++l) {
		total[l] = (uint64_t)std::ceil(laws()[l].quick * mult);
		if(!only.empty() && laws()[l].name.find(only) == std::string::npos) total[l] = 0;
	}

	std::vector<pid_t> pids(W);
	for(unsigned w = 0; w < W; ++w) {
		fflush(NULL);
		pid_t p = fork();
		if(p == 0) {
			Slot* sl = &gSlots[w];
			std::ostringstream ef; ef << gScratch << "/worker" << w << ".err";
			redirect(ef.str().c_str());
			armTimer(sl);
			std::vector<uint64_t> hashes;
			std::map<std::string, uint64_t> labels;
			std::vector<std::pair<uint64_t, uint64_t> > samples;
			for(size_t l = 0; l < laws().size(); ++l) {
				sl->law = l;
				unsigned got = 0;
				for(uint64_t i = w; i < total[l]; i += W) {
					sl->idx = i;
					Ctx c;
					uint32_t st = runCase(sl, laws()[l], caseSeed(seed, laws()[l], i), NULL, false, c);
					if(st == ST_FAIL) _exit(3);
					if(st == ST_DISCARD) { sl->discards[l]++; continue; }
					sl->evals[l]++;
					for(const char* lb : c.labels) labels[laws()[l].name + ": " + lb]++;
					if(c.nontriv) {
						sl->nontriv[l]++;
						uint64_t h = hash_str(laws()[l].name.c_str());
						for(uint32_t k = 0; k < sl->count; ++k) h = mix(h ^ sl->choices[k]);
						hashes.push_back(h);
						if(w == 0 && ++got == 3) samples.push_back(std::make_pair(l, i));
					}
				}
			}
			std::ostringstream fn; fn << gScratch << "/stats." << w;
			std::ofstream o(fn.str().c_str(), std::ios::binary);
			o << hashes.size() << " " << labels.size() << " " << samples.size() << "\n";
			for(auto& s : samples) o << s.first << " " << s.second << "\n";
			for(auto& s : labels) o << s.second << " " << s.first << "\n";
			o.write((const char*)hashes.data(), hashes.size() * 8);
			o.close();
			_exit(0);
		}
		pids[w] = p;
	}

	int failW = -1;
	unsigned alive = W;
	bool retrySpawn = false;
	while(alive) {
		int st; pid_t p = waitpid(-1, &st, 0);
		if(p < 0) { if(errno == EINTR) continue; break; }
		unsigned w = 0;
		while(w < W && pids[w] != p) ++w;
		if(w == W) continue;
		pids[w] = 0; --alive;
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		if(failW < 0) {
			failW = w;
			for(unsigned k = 0; k < W; ++k) if(pids[k]) kill(pids[k], SIGKILL);
		}
	}
	(void)retrySpawn;

	uint64_t evals = 0, nontriv = 0, disc = 0;
	std::ostringstream lawJson;
	for(size_t l = 0; l < laws().size(); ++l) {
		uint64_t e = 0, n = 0, d = 0;
		for(unsigned w = 0; w < W; ++w) { e += gSlots[w].evals[l]; n += gSlots[w].nontriv[l]; d += gSlots[w].discards[l]; }
		evals += e; nontriv += n; disc += d;
		lawJson << (l ? ", " : "") << jstr(laws()[l].name) << ": {\"cases\": " << e << ", \"nontrivial\": " << n << ", \"discarded\": " << d << "}";
	}

	std::ofstream o(out.empty() ? "/dev/stdout" : out.c_str());
	if(failW < 0) {
		std::vector<uint64_t> all; std::map<std::string, uint64_t> labels; std::vector<std::pair<uint64_t, uint64_t> > samples;
		for(unsigned w = 0; w < W; ++w) {
			std::ostringstream fn; fn << gScratch << "/stats." << w;
			std::ifstream i(fn.str().c_str(), std::ios::binary);
			size_t nh = 0, nl = 0, ns = 0; i >> nh >> nl >> ns;
			for(size_t k = 0; k < ns; ++k) { uint64_t a, b; i >> a >> b; samples.push_back(std::make_pair(a, b)); }
			for(size_t k = 0; k < nl; ++k) { uint64_t n; std::string s; i >> n; i.get(); std::getline(i, s); labels[s] += n; }
			if(!nl) i.get();
			size_t off = all.size(); all.resize(off + nh);
			i.read((char*)(all.data() + off), nh * 8);
		}
		std::sort(all.begin(), all.end());
		size_t distinct = std::unique(all.begin(), all.end()) - all.begin();
		o << "{\"ok\": true, \"evaluations\": " << evals << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct
			<< ", \"discarded\": " << disc << ", \"wall\": " << now() - t0 << ",\n\"laws\": {" << lawJson.str() << "},\n\"labels\": {";
		bool first = true;
		for(auto& s : labels) { o << (first ? "" : ", ") << jstr(s.first) << ": " << s.second; first = false; }
		o << "},\n\"samples\": [";
		first = true;
		for(auto& s : samples) {
			Outcome oc = isolated(laws()[s.first], caseSeed(seed, laws()[s.first], s.second), NULL, true);
			o << (first ? "" : ", ") << "{\"law\": " << jstr(laws()[s.first].name) << ", \"index\": " << s.second << ", \"case\": " << jstr(oc.notes.substr(0, 1500)) << "}";
			first = false;
		}
		o << "]}\n";
		return 0;
	}

	// A failure: confirm, shrink, confirm
	Slot* fs = &gSlots[failW];
	const Law& law = laws()[fs->law];
	const uint64_t idx = fs->idx;
	std::ostringstream ef; ef << gScratch << "/worker" << failW << ".err";
	std::string firstMsg = fs->msg[0] ? std::string(fs->msg) : slurp(ef.str()).substr(0, 6000);
	unsigned again = 0; Outcome oc;
	for(int k = 0; k < 3; ++k) { oc = isolated(law, caseSeed(seed, law, idx), NULL, true); if(oc.fail) ++again; if(oc.timeout && k == 0) { again = 3; break; } }
	std::string kind = "choices";
	std::vector<uint64_t> best = oc.choices;
	bool confirmed = again == 3;
	if(confirmed) {
		best = shrink(law, best, oc.timeout);
		Outcome r;
		unsigned k = 0;
		for(; k < 3; ++k) { r = isolated(law, 0, &best, true); if(!r.fail || r.timeout) { ++k; break; } }
		if(r.fail) oc = r;
		else { best = oc.choices; }
	} else {
		unsigned n = 0;
		for(int k = 0; k < 3; ++k) if(replaySequence(seed, law, failW, W, idx)) ++n;
		if(n == 3) { confirmed = true; kind = "sequence"; oc.msg = firstMsg; }
	}
	o << "{\"ok\": false, \"confirmed\": " << (confirmed ? "true" : "false") << ", \"evaluations\": " << evals << ", \"nontrivial\": " << nontriv
		<< ", \"distinct_nontrivial\": " << nontriv << ", \"wall\": " << now() - t0
		<< ",\n\"law\": " << jstr(law.name) << ", \"kind\": " << jstr(kind) << ", \"seed\": " << seed << ", \"index\": " << idx << ", \"worker\": " << failW << ", \"workers\": " << W
		<< ",\n\"message\": " << jstr(oc.msg.empty() ? firstMsg : oc.msg) << ",\n\"first_message\": " << jstr(firstMsg) << ",\n\"notes\": " << jstr(oc.notes) << ",\n\"choices\": [";
	for(size_t k = 0; k < best.size(); ++k) o << (k ? ", " : "") << best[k];
	o << "]}\n";
	return 1;
}
