// Blocks allocated between trackBegin and trackEnd
#include <cstdlib>
#include <cstddef>
#include <new>
namespace {
const size_t CAP = 1 << 18;
void* table[CAP];
bool on = false;
size_t slot(void* p) { size_t h = ((size_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 40; return h % CAP; }
void* const GONE = (void*)1;
void* get(size_t n)
{
	void* p = malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	if(on) {
		size_t i = slot(p);
		for(size_t k = 0; k < CAP; ++k, i = (i + 1) % CAP) if(!table[i] || table[i] == GONE) { table[i] = p; break; }
	}
	return p;
}
void put(void* p)
{
	if(on && p) {
		size_t i = slot(p);
		for(size_t k = 0; k < CAP && table[i]; ++k, i = (i + 1) % CAP) if(table[i] == p) { table[i] = GONE; break; }
	}
	free(p);
}
}
void trackBegin() { for(size_t i = 0; i < CAP; ++i) table[i] = nullptr; on = true; }
size_t trackEnd() { on = false; size_t n = 0; for(size_t i = 0; i < CAP; ++i) n += table[i] && table[i] != GONE; return n; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
