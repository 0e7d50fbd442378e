// C12: rolling files against a model of the directory (asan+ubsan).
#include "cap.h"
#include "sinks/rolling_file_sink.h"
#include "include/learnlog.h"
#include "include/sync_factory.h"
#include <map>
#include <fcntl.h>
using namespace learnlog::sinks;
struct Raw : formatter { void format(const base::log_msg &m, fmt_memory_buf &b) override { b.append(m.msg.data(), m.msg.data() + m.msg.size()); } formatter_uni_ptr clone() const override { return formatter_uni_ptr(new Raw); } };
static std::string nm(const std::string &d, size_t i, size_t n) { std::string a = std::to_string(i), w = std::to_string(n); while (a.size() < w.size()) a = "0" + a; return d + "/log_" + a + ".txt"; }
static bool there(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static void put(const std::string &p, const std::string &t) { FILE *f = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static int dirs = 0;
static std::string fresh() { std::string d = scratch() + "/d" + std::to_string(getpid()) + "_" + std::to_string(dirs++); mkdir(d.c_str(), 0700); return d; }
static void run(size_t M, size_t N, Rng &r, int msgs, int pre, bool flushing) {
    std::string d = fresh(); std::map<size_t, std::string> model; std::string h = "limit " + std::to_string(M) + " files " + std::to_string(N);
    for (size_t i = 1; i <= N + 1; i++) if (pre == 2 || (pre == 1 && r.below(2))) { model[i] = "old" + std::to_string(i); put(nm(d, i, N), model[i]); }
    size_t cur = 1; while (cur < N && model.count(cur)) cur++; model[cur] = ""; bool linked = true; std::string cut;      // cut: text of a current file that was removed meanwhile
    { sinks::rolling_file_sink_mt s(d + "/log.txt", M, N); s.set_formatter(formatter_uni_ptr(new Raw)); 
      for (int k = 0; k < msgs; k++) { size_t n = r.below(3) ? r.below(M + 1) : r.below(2 * M + 3); if (r.below(6) == 0) n = 0; if (M > 5000 && r.below(4)) n = r.below(300); std::string t; for (size_t i = 0; i < n; i++) t += (char)('a' + (k + i) % 26); base::log_msg m(level::info, t, "n"); s.log(m);
        std::string &now = linked ? model[cur] : cut; if (now.size() + n > M && now.size() > 0) { while (cur < N && model.count(cur)) cur++; model[cur] = t; linked = true; } else now += t;
        if (r.below(12) == 0) { size_t q = 1 + r.below(N); if (model.count(q)) { if (q == cur) { linked = false; cut = model[q]; } model.erase(q); unlink(nm(d, q, N).c_str()); } }
        if (flushing && linked && r.below(4) == 0) { s.flush(); eqs(slurp(nm(d, cur, N)), model[cur], h + ": current file after a flush"); }
        if (r.below(10) == 0) { size_t q = cur + r.below(3); if (q <= N && q != cur && !model.count(q)) { model[q] = "foreign"; put(nm(d, q, N), "foreign"); } } }
    }
    for (size_t i = 0; i <= N + 2; i++) { eq(there(nm(d, i, N)), model.count(i) != 0, h + ": file " + std::to_string(i) + " exists"); if (model.count(i)) eqs(slurp(nm(d, i, N)), model[i], h + ": file " + std::to_string(i)); }
    std::string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {}
}
int main() {
    mkscratch();
    int reps = thorough() ? 12 : 2;
    section("rolling against a model", [reps] { Rng r(1); for (int q = 0; q < reps; q++) for (size_t M : {1, 2, 3, 10, 64, 1000}) for (size_t N : {1, 2, 3, 9, 10, 12}) for (int pre = 0; pre < 3; pre++) run(M, N, r, 40, pre, q % 2 == 0); }, 200);
    section("rolling with buffered output", [reps] { Rng r(2); for (int q = 0; q < reps; q++) for (size_t M : {5000, 20000, 4096}) for (size_t N : {1, 3}) run(M, N, r, 200, q % 3, false); }, 200);
    section("limits", [] { std::string d = fresh(); struct X { size_t m, n; bool ok; }; for (X x : {X{0, 1, false}, X{1, 10001, false}, X{0, 20000, false}, X{1, 10000, true}, X{1, 1, true}, X{1, (size_t)-1, false}}) { bool thrown = false; try { sinks::rolling_file_sink_st s(d + "/x" + std::to_string(x.m) + "_" + std::to_string(x.n % 100000) + ".log", x.m, x.n); } catch (const std::exception &) { thrown = true; } eq(thrown, !x.ok, "limits " + std::to_string(x.m) + " " + std::to_string(x.n)); } });
    section("large numbers", [] { std::string d = fresh(); for (int i = 1; i <= 1200; i++) put(nm(d, i, 10000), "x"); { sinks::rolling_file_sink_st s(d + "/log.txt", 3, 10000); s.set_formatter(formatter_uni_ptr(new Raw)); for (int i = 0; i < 30; i++) { base::log_msg m(level::info, "abc", "n"); s.log(m); } } for (int i = 1; i <= 1230; i++) eqs(slurp(nm(d, i, 10000)), i <= 1200 ? "x" : "abc", "file " + std::to_string(i)); ok(!there(nm(d, 1231, 10000)), "one too many"); });
    section("a failing formatter leaves the file alone", [] { std::string d = fresh(); struct T : formatter { int n = 0; void format(const base::log_msg &m, fmt_memory_buf &b) override { b.append(m.msg.data(), m.msg.data() + m.msg.size()); if (n++ % 2) throw std::runtime_error("f"); } formatter_uni_ptr clone() const override { return nullptr; } }; { sinks::rolling_file_sink_st s(d + "/log.txt", 10, 5); s.set_formatter(formatter_uni_ptr(new T)); for (int i = 0; i < 6; i++) { base::log_msg m(level::info, i % 2 ? "yyyyyyyyyyyyyyyyy" : "xxxxx", "n"); try { s.log(m); } catch (const std::exception &) {} } } eqs(slurp(nm(d, 1, 5)), "xxxxxxxxxx", "file 1"); eqs(slurp(nm(d, 2, 5)), "xxxxx", "file 2"); ok(!there(nm(d, 3, 5)), "file 3"); });
    section("the factories hand their arguments on", [] { for (int k = 0; k < 2; k++) { std::string d = fresh(); { auto l = k ? learnlog::rolling_file_logger_st("r" + std::to_string(k), d + "/log.txt", 200, 12) : learnlog::rolling_file_logger_mt("r" + std::to_string(k), d + "/log.txt", 200, 12); l->set_pattern("%v"); for (int i = 0; i < 25; i++) l->info("0123456789012345678"); l->flush(); learnlog::remove_logger("r" + std::to_string(k)); } std::string e = k ? "st" : "mt"; for (int i = 1; i <= 3; i++) eq(slurp(nm(d, i, 12)).size(), (size_t)(i < 3 ? 200 : 100), e + ": file " + std::to_string(i)); } });
    return finish();
}
