// C14: directory, suffix and rolled names of every short path over an alphabet of separators, dots and letters (asan+ubsan).
#include "cap.h"
#include "sinks/rolling_file_sink.h"
#include <set>
using namespace learnlog::base;
static std::string dir_(const std::string &p) { for (size_t i = p.size(); i-- > 0;) if (p[i] == '/') return p.substr(0, i); return ""; }
static std::string suf_(const std::string &p) { size_t s = 0; for (size_t i = 0; i < p.size(); i++) if (p[i] == '/') s = i + 1; for (size_t i = p.size(); i-- > s;) if (p[i] == '.') return i == s ? "" : p.substr(i); return ""; }
static void one(const std::string &p) { eqs(os::get_dir(p), dir_(p), "directory of \"" + show(p) + "\""); size_t k = file_base::suffix_pos(p); ok(k <= p.size(), "position in \"" + show(p) + "\""); eqs(p.substr(k), suf_(p), "suffix of \"" + show(p) + "\""); }
static void all(std::string p, const char *al, size_t n) { one(p); if (p.size() < n) for (const char *c = al; *c; c++) all(p + *c, al, n); }
int main() {
    mkscratch();
    section("every short path", [] { all("", "/.a", thorough() ? 11 : 9); all("", "/.a\\ ", thorough() ? 8 : 6); }, 300);
    section("long paths", [] { Rng r(1); for (int q = 0; q < 20000; q++) { std::string p; size_t n = r.below(60); for (size_t i = 0; i < n; i++) { uint64_t k = r.below(8); p += k == 0 ? '/' : k == 1 ? '.' : (char)r.below(256); } one(p); } });
    section("rolled names", [] { std::string here = scratch(); for (const char *b : {"log.txt", "log", ".hidden", ".hid.den", "a.b.c", "d.d/x", "d.d/.x", "d/x.y", "x.", "d.d/..", "_1.log"}) for (size_t N : {1, 2, 9, 10, 11, 99, 100, 1000, 9999, 10000}) { std::string base = here + "/" + b; sinks::rolling_file_sink_st s(base, 100, N); std::string sf = suf_(base), st = base.substr(0, base.size() - sf.size()); std::set<std::string> seen; 
        for (size_t i = 1; i <= N; i = i < 30 || i + 30 >= N ? i + 1 : i * 2 < N - 30 ? i * 2 : N - 30) { std::string d = std::to_string(i), w = std::to_string(N); while (d.size() < w.size()) d = "0" + d; std::string got = s.get_rolling_filename(i); eqs(got, st + "_" + d + sf, "rolled name"); ok(seen.insert(got).second, "two numbers share the name " + got); eqs(os::get_dir(got), dir_(base), "directory of a rolled name"); } eqs(s.base_filename(), base, "base name"); } }, 120);
    section("long rolled names", [] { std::string d = scratch(); while (d.size() < 300) { d += "/a directory " + std::string(60, 'd'); } d += "/" + std::string(120, 'f') + ".txt"; sinks::rolling_file_sink_st s(d, 100, 12); eqs(s.get_rolling_filename(7), d.substr(0, d.size() - 4) + "_07.txt", "long rolled name"); eqs(slurp(d.substr(0, d.size() - 4) + "_01.txt"), "", "the file exists"); eq(access((d.substr(0, d.size() - 4) + "_01.txt").c_str(), F_OK), 0, "the file exists"); });
    return finish();
}
