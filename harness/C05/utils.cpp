// Integer helpers
#include "../common.h"
#include "Utils.h"
using namespace h;

namespace {
unsigned long long pascal(size_t n, size_t k)
{
	static unsigned long long t[70][70];
	static bool init = false;
	if(!init) {
		for(size_t i = 0; i < 67; ++i) { t[i][0] = t[i][i] = 1; for(size_t j = 1; j < i; ++j) t[i][j] = t[i - 1][j - 1] + t[i - 1][j]; }
		init = true;
	}
	return t[n][k];
}
template<class T> void integral(Ctx& c, size_t nBinom, size_t nFac)
{
	Src& s = c.s;
	const size_t n = s.size(0, nBinom), k = s.size(0, n);
	const T b = NS::Math::binom((T)n, (typename std::make_unsigned<T>::type)k);
	NOTE("binom(" << n << "," << k << ")");
	REQ((unsigned long long)b == pascal(n, k), "binom(" << n << "," << k << ") is " << (long long)b << " instead of " << pascal(n, k));
	const size_t f = s.size(0, nFac);
	unsigned long long want = 1;
	for(size_t i = 2; i <= f; ++i) want *= i;
	REQ((unsigned long long)NS::Math::factorial((T)f) == want, "factorial(" << f << ") is " << (long long)NS::Math::factorial((T)f) << " instead of " << want);
	const long p = std::is_signed<T>::value ? s.num(100) : s.range(0, 200);
	const int sg = (int)NS::Math::sign_pow((T)p);
	REQ(sg == ((p % 2 == 0) ? 1 : -1), "sign_pow(" << p << ") is " << sg);
	const long a = std::is_signed<T>::value ? s.num(100) : s.range(0, 100), d = std::is_signed<T>::value ? s.num(100) : s.range(0, 100);
	REQ((long)NS::t_min((T)a, (T)d) == std::min(a, d) && (long)NS::t_max((T)a, (T)d) == std::max(a, d), "t_min/t_max of " << a << "," << d);
	c.nontrivial(n > 3 && k > 1 && k < n - 1);
}
LAW(integer_helpers_int, 1500) { integral<int>(c, 27, 12); }
LAW(integer_helpers_unsigned, 1500) { integral<unsigned>(c, 27, 12); }
LAW(integer_helpers_long, 1500) { integral<long>(c, 56, 20); }
LAW(integer_helpers_size_t, 1500) { integral<size_t>(c, 56, 20); }
LAW(integer_helpers_short, 1500) { integral<short>(c, 13, 7); }
// Generalised binomial coefficient
template<class T> void realBinom(Ctx& c)
{
	Src& s = c.s;
	const double n = (double)s.num(80) / 4;
	const unsigned k = (unsigned)s.size(0, 10);
	long double want = 1, cond = 1;
	for(unsigned i = 0; i < k; ++i) { want = want * ((long double)n - i) / (i + 1); cond = std::max(cond, std::fabs(want)); }
	const double got = (double)NS::Math::binom((T)n, (NS::uint32)k);
	NOTE("binom(" << n << "," << k << ")");
	REQ(std::fabs(got - (double)want) <= 8 * (k + 1) * std::numeric_limits<T>::epsilon() * (double)std::fabs(want), "binom(" << n << "," << k << ") is " << got << " instead of " << (double)want);
	c.nontrivial(k > 1);
}
LAW(real_binomial_double, 1500) { realBinom<double>(c); }
LAW(real_binomial_float, 1500) { realBinom<float>(c); }
}
