// C22: periodic functions against facts of time that hold on any machine (thread sanitizer).
// FLAGS: -fsanitize=thread -g -O1 -std=c++11
// LDFLAGS: -fsanitize=thread
#include "reg.h"
#include "base/periodic_function.h"
typedef std::chrono::steady_clock clk; typedef std::chrono::milliseconds ms;
static long since(clk::time_point t) { return (long)std::chrono::duration_cast<ms>(clk::now() - t).count(); }
int main() {
    section("no thread for an interval of zero or less", [] { for (int i : {0, -1, -1000}) { std::atomic<int> n{0}; { base::periodic_function p([&] { n++; }, ms(i)); std::this_thread::sleep_for(ms(30)); } eq(n.load(), 0, "calls"); } for (double d : {0.0, -0.5}) { std::atomic<int> n{0}; { base::periodic_function p([&] { n++; }, std::chrono::duration<double, std::milli>(d)); std::this_thread::sleep_for(ms(30)); } eq(n.load(), 0, "calls"); } });
    section("one interval before each call", [] { for (int iv : {3, 20, 60}) { std::vector<clk::time_point> t; auto t0 = clk::now(); { base::periodic_function p([&] { t.push_back(clk::now()); }, ms(iv)); std::this_thread::sleep_for(ms(iv * 4)); } for (size_t i = 0; i < t.size(); i++) { auto a = i ? t[i - 1] : t0; ok(t[i] - a >= ms(iv), "the interval before a call"); } }
        std::vector<clk::time_point> b, e; { base::periodic_function p([&] { b.push_back(clk::now()); std::this_thread::sleep_for(ms(b.size() % 3 == 1 ? 70 : 1)); e.push_back(clk::now()); }, ms(15)); std::this_thread::sleep_for(ms(400)); } for (size_t i = 1; i < b.size(); i++) ok(b[i] - e[i - 1] >= ms(15), "a full interval after a long call");
        for (int part : {300, 1200, 2400}) { auto t = clk::now(); int n = 0; { base::periodic_function p([&] { n++; }, ms(3000)); std::this_thread::sleep_for(ms(part)); } if (since(t) < 3000) eq(n, 0, "a call before its interval passed"); } });
    section("called again and again", [] { std::atomic<int> n{0}; base::periodic_function p([&] { n++; }, ms(2)); auto t0 = clk::now(); while (n < 10 && since(t0) < 20000) std::this_thread::sleep_for(ms(2)); ok(n >= 10, "calls"); });
    section("never two calls at once; a running call is finished; none after", [] { for (int k = 0; k < (thorough() ? 300 : 60); k++) { std::atomic<int> in{0}, n{0}, bad{0}; { base::periodic_function p([&] { if (in++) bad++; n++; std::this_thread::sleep_for(std::chrono::microseconds(k % 7 * 500)); in--; }, std::chrono::microseconds(300)); std::this_thread::sleep_for(std::chrono::microseconds(k * 97 % 4000)); } eq(in.load(), 0, "a call is still running"); int m = n; std::this_thread::sleep_for(ms(2)); eq(n.load(), m, "calls after destruction"); eq(bad.load(), 0, "overlapping calls"); } });
    section("destruction does not wait for the interval", [] { for (int k = 0; k < (thorough() ? 3000 : 600); k++) { auto t0 = clk::now(); std::atomic<int> n{0}; { base::periodic_function p([&] { n++; }, std::chrono::seconds(40)); if (k % 3 == 1) std::this_thread::yield(); if (k % 3 == 2) std::this_thread::sleep_for(std::chrono::microseconds(k % 200)); } ok(since(t0) < 20000, "the destructor waited"); eq(n.load(), 0, "calls before the interval passed"); if (since(t0) >= 20000) return; } });
    section("flush_every", [] { clean(); auto a = cap(), b = cap(); auto la = std::make_shared<logger>("a", a), lb = std::make_shared<logger>("b", b); reg().register_logger(la); reg().register_logger(lb); auto t0 = clk::now(); reg().flush_every(ms(5)); auto fl = [](CapP c) { std::lock_guard<std::mutex> g(c->m); return c->flushes; }; while ((fl(a) < 3 || fl(b) < 3) && since(t0) < 20000) std::this_thread::sleep_for(ms(1)); ok(fl(a) >= 3 && fl(b) >= 3, "every registered logger is flushed"); reg().flush_every(std::chrono::seconds(600)); int x = fl(a), y = fl(b); std::this_thread::sleep_for(ms(60)); eq(fl(a), x, "the old flusher is gone"); eq(fl(b), y, "the old flusher is gone"); reg().flush_every(ms(4)); t0 = clk::now(); while (fl(a) < x + 2 && since(t0) < 20000) std::this_thread::sleep_for(ms(1)); ok(fl(a) >= x + 2, "the new flusher works"); reg().flush_every(ms(0)); std::this_thread::sleep_for(ms(5)); x = fl(a); std::this_thread::sleep_for(ms(40)); eq(fl(a), x, "an interval of zero stops it"); });
    section("closing the registry while its flusher is about to flush", [] { clean(); auto c = cap(); reg().register_logger(std::make_shared<logger>("a", c)); reg().flush_every(ms(150)); auto t0 = clk::now(); while (since(t0) < 5000) { { std::lock_guard<std::mutex> g(c->m); if (c->flushes > 0) break; } std::this_thread::sleep_for(ms(1)); } std::atomic<int> in{0}; std::thread e([&] { reg().exec_all([&](logger_shr_ptr) { in = 1; std::this_thread::sleep_for(ms(400)); }); }); while (!in) std::this_thread::sleep_for(ms(1)); std::thread t([] { reg().close_registry(); }); e.join(); t.join(); int n = c->flushes; std::this_thread::sleep_for(ms(200)); eq(c->flushes, n, "flushes after the registry was closed"); });
    return finish();
}
