// C10: decimals, zero padding, sub-second parts (asan+ubsan).
#include "drv.h"
#include "base/fmt_base.h"
#include <limits>
using namespace drv; using namespace learnlog; using namespace learnlog::base::fmt_base;
static std::string take(fmt_memory_buf &b) { return std::string(b.data(), b.size()); }
template <class T> static std::string dec(T n) { return std::to_string(n); }
template <class T> static void one(T n, const char *ty) {
    { fmt_memory_buf b; b.push_back('<'); append_int(n, b); eqs(take(b), "<" + dec(n), std::string("append_int ") + ty); }
    if (n < 0) return;
    eq(count_unsigned_digits(n), dec(n).size(), std::string("count_unsigned_digits ") + ty + " of " + dec(n));
    for (size_t w = 0; w <= 24; w++) { fmt_memory_buf b; b.push_back('<'); fill_uint(n, w, b); std::string d = dec(n); eqs(take(b), "<" + (d.size() < w ? std::string(w - d.size(), '0') : "") + d, std::string("fill_uint ") + ty + " of " + d + " to " + std::to_string(w)); }
}
template <class T> static void type(const char *ty) {
    section(ty, [ty] { Rng r(sizeof(T)); std::vector<T> v; const T M = std::numeric_limits<T>::max(), m = std::numeric_limits<T>::min(); v.push_back(m); v.push_back(M); v.push_back(0); if (m < 0) { v.push_back((T)-1); v.push_back(m + 1); }
        T p = 1; while (true) { v.push_back(p); v.push_back(p - 1); v.push_back(p + 1); if (p > M / 10) break; p *= 10; }
        for (long i = 0; i < 12000 && i <= (long)std::min<unsigned long>(M, 12000); i++) v.push_back((T)i);
        for (int i = 0; i < (thorough() ? 60000 : 3000); i++) v.push_back((T)(r.next() >> r.below(64)));
        for (T x : v) one<T>(x, ty); });
}
int main() {
    type<int>("int"); type<unsigned>("unsigned"); type<long>("long"); type<unsigned long>("unsigned long"); type<unsigned char>("unsigned char"); type<unsigned short>("unsigned short"); type<short>("short"); type<long long>("long long"); type<unsigned long long>("unsigned long long");
    section("sub-second", [] { Rng r(9); for (int i = 0; i < (thorough() ? 400000 : 40000); i++) { long t = (long)(r.next() >> (1 + r.below(34))); if (!(i % 5)) t = t / 1000000000 * 1000000000 + (i % 3 ? 999999999 : 0); if (t < 0) t = 0; sys_clock::time_point tp{sys_clock::duration(t)}; long f = t % 1000000000;
        eq(precise_time<milliseconds>(tp).count(), f / 1000000, "milliseconds of " + std::to_string(t)); eq(precise_time<microseconds>(tp).count(), f / 1000, "microseconds of " + std::to_string(t)); eq(precise_time<nanoseconds>(tp).count(), f, "nanoseconds of " + std::to_string(t)); } });
    return finish();
}
