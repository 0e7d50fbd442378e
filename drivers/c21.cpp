// C21: workers, hooks and refused worker counts (asan+ubsan).
#include "pools.h"
using namespace drv; using namespace learnlog;
struct Watch { std::mutex m; std::map<std::thread::id, int> st; int starts = 0, stops = 0; std::string bad;      // 1: started, 2: stopped
    void start() { std::lock_guard<std::mutex> g(m); starts++; int &x = st[std::this_thread::get_id()]; if (x != 0) bad = "start hook called twice in a thread"; x = 1; }
    void stop() { std::lock_guard<std::mutex> g(m); stops++; int &x = st[std::this_thread::get_id()]; if (x != 1) bad = "stop hook without start hook"; x = 2; }
    void work(bool strict) { std::lock_guard<std::mutex> g(m); auto i = st.find(std::this_thread::get_id()); if (strict && (i == st.end() || i->second != 1)) bad = "message processed outside start and stop"; } };
static int threads() { int n = 0; FILE *f = fopen("/proc/self/status", "r"); char b[256]; while (f && fgets(b, sizeof b, f)) if (sscanf(b, "Threads: %d", &n) == 1) break; if (f) fclose(f); return n; }
static void settle(int n, const std::string &h) { for (int i = 0; i < 4000 && threads() != n; i++) usleep(1000); eq(threads(), n, h); }
int main() {
    for (int k = 0; k < 3; k++) {
        section((std::string("hooks ") + KN[k]).c_str(), [k] { size_t ns[] = {1, 2, 3, 7, 33}; for (int run = 0; run < (thorough() ? 6 : 2); run++) for (size_t n : ns) for (int a = 2; a <= 4; a++) { size_t q = 3 + run * 61; std::string h = who(k, q, n) + ", " + std::to_string(a - 2) + " hooks"; Watch w; auto c = cap(); c->hook = [&](const Rec &) { w.work(a > 2); }; int before = threads();
            { Fn s = [&] { usleep(run % 2 ? 300 : 0); w.start(); }, e = [&] { if (a > 3) w.stop(); }; TPP tp = a == 4 ? pool(k, q, n, s, e) : a == 3 ? pool(k, q, n, s) : pool(k, q, n);
              eq(tp->threads_size(), n, h + ": worker count"); eq(tp->message_queue_size(), q, h + ": queue size"); eq((int)tp->message_queue_type(), k, h + ": queue kind"); settle(before + (int)n, h + ": threads running");
              auto l = std::make_shared<async_logger>("x", c, tp); std::vector<std::thread> ps; for (size_t p = 0; p < n; p++) ps.emplace_back([&] { for (int i = 0; i < 4; i++) l->info("m"); }); for (auto &x : ps) x.join(); if (run % 2) l->flush(); l.reset(); tp.reset(); }
            settle(before, h + ": threads after the pool"); eq(c->got.size(), n * 4, h + ": messages"); eqs(w.bad, "", h); eq(w.starts, a > 2 ? (int)n : 0, h + ": start hooks"); eq(w.stops, a > 3 ? (int)n : 0, h + ": stop hooks"); eq(w.st.size(), a > 2 ? n : 0, h + ": threads with a start hook"); } }, 120);
        section((std::string("hooks of idle pools ") + KN[k]).c_str(), [k] { for (int i = 0; i < 40; i++) { Watch w; size_t n = 1 + i % 6; { TPP tp = pool(k, 1 + i % 3, n, [&] { w.start(); }, [&] { w.stop(); }); } eqs(w.bad, "", "idle"); eq(w.starts, (int)n, who(k, 1, n) + ": start hooks"); eq(w.stops, (int)n, who(k, 1, n) + ": stop hooks"); } });
        section((std::string("most workers ") + KN[k]).c_str(), [k] { std::atomic<int> a{0}, b{0}; { TPP tp = pool(k, 8, 1024, [&] { a++; }, [&] { b++; }); eq(tp->threads_size(), (size_t)1024, "1024 workers"); } eq(a.load(), 1024, std::string(KN[k]) + ": start hooks"); eq(b.load(), 1024, std::string(KN[k]) + ": stop hooks"); }, 120);
        section((std::string("refused ") + KN[k]).c_str(), [k] { size_t bad[] = {0, 1025, 1026, 2048, 4096, 65536, (size_t)1 << 32, ((size_t)1 << 32) + 5, (size_t)-1}; for (size_t n : bad) for (int a = 2; a <= 4; a++) { int before = threads(); std::atomic<int> hooks{0}; bool t = false; try { Fn s = [&] { hooks++; }; if (a == 4) pool(k, 8, n, s, s); else if (a == 3) pool(k, 8, n, s); else pool(k, 8, n); } catch (const std::exception &e) { t = *e.what() != 0; } ok(t, who(k, 8, n) + ": refused"); eq(hooks.load(), 0, who(k, 8, n) + ": hooks"); eq(threads(), before, who(k, 8, n) + ": threads"); } });
    }
    return finish();
}
