// C20: asynchronous loggers (asan+ubsan).
#include "pools.h"
using namespace drv; using namespace learnlog;
int main() {
    for (int k = 0; k < 3; k++) {
        section((std::string("delivery and flush levels ") + KN[k]).c_str(), [k] { for (int lv = 0; lv <= 6; lv++) for (int fl = 0; fl <= 6; fl++) for (int off = 0; off <= 6; off += 3) for (int ns = 0; ns <= 3; ns++) { if (off && ns == 0) continue; auto thr = [off](int i) { return std::min(6, i * 2 + off); }; TPP tp = pool(k, 1 + fl, 1); std::vector<CapP> cs; std::vector<sink_shr_ptr> ss; for (int i = 0; i < ns; i++) { cs.push_back(cap(i, thr(i))); ss.push_back(cs.back()); } auto l = std::make_shared<async_logger>("a", ss.begin(), ss.end(), tp); l->set_log_level((level::level_enum)lv); l->set_flush_level((level::level_enum)fl); std::vector<std::vector<std::string>> want(ns); std::vector<std::string> ord(ns); std::string h = std::string(KN[k]) + " level " + std::to_string(lv) + " flush level " + std::to_string(fl);
            for (int m = 0; m < 6; m++) { std::string t = "m" + std::to_string(m); l->log((level::level_enum)m, t); if (m >= lv) for (int i = 0; i < ns; i++) { if (m >= thr(i)) { want[i].push_back(t); ord[i] += "L"; } if (m >= fl) ord[i] += "F"; } std::fill(t.begin(), t.end(), '?'); }
            tp.reset(); for (int i = 0; i < ns; i++) { std::string g; for (auto &r : cs[i]->got) g += r.text + ","; std::string w; for (auto &x : want[i]) w += x + ","; eqs(g, w, h + ": messages of sink " + std::to_string(i)); eqs(cs[i]->order, ord[i], h + ": writes and flushes of sink " + std::to_string(i)); } } }, 120);
        section((std::string("off ") + KN[k]).c_str(), [k] { TPP tp = pool(k, 4, 1); auto c = cap(); auto l = std::make_shared<async_logger>("a", c, tp); l->set_log_level(level::trace); l->set_flush_level(level::off); l->critical("c"); l->log(level::off, "o"); tp.reset(); eqs(c->order, "LL", std::string(KN[k]) + ": nothing is flushed at flush level off"); });
        section((std::string("flush returns after the sinks were flushed ") + KN[k]).c_str(), [k] { struct Slow : Cap { void flush() override { usleep(3000); Cap::flush(); } }; for (int n = 1; n <= 3; n++) { TPP tp = pool(k, 2, n); auto a = std::make_shared<Slow>(); auto b = std::make_shared<Slow>(); a->set_level(level::trace); b->set_level(level::off); std::vector<sink_shr_ptr> ss{a, b}; auto l = std::make_shared<async_logger>("a", ss.begin(), ss.end(), tp); for (int i = 1; i <= 5; i++) { l->flush(); eq(a->flushes, i, std::string(KN[k]) + ": first sink flushed when flush() returns"); eq(b->flushes, i, std::string(KN[k]) + ": second sink flushed when flush() returns"); } ok(a->take().empty(), "nothing logged"); } });
        section((std::string("a flush waits as long as it takes ") + KN[k]).c_str(), [k] { TPP tp = pool(k, 8, 1); auto c = cap(); c->hook = [](const Rec &) { usleep(700000); }; auto l = std::make_shared<async_logger>("a", c, tp); l->info("1"); l->info("2"); l->info("3"); l->flush(); size_t n; { std::lock_guard<std::mutex> g(c->m); n = c->got.size(); } eq(n, (size_t)3, "messages written when flush returns"); eq(c->flushes, 1, "flushes"); });
        section((std::string("the pool is gone ") + KN[k]).c_str(), [k] { TPP tp = pool(k, 8, 2); auto c = cap(); auto l = std::make_shared<async_logger>("a", c, tp); l->set_flush_level(level::error); l->info("1"); l->flush(); tp.reset(); size_t n = c->got.size(); int f = c->flushes; Err e; l->info("2"); eq(e.reports(), 1, std::string(KN[k]) + ": one report for a message without a pool"); l->critical("3"); eq(e.reports(), 1, "one report"); l->flush(); eq(e.reports(), 1, std::string(KN[k]) + ": one report for a flush without a pool"); l->trace("4"); eq(e.reports(), 0, "a message below the level"); eq(c->got.size(), n, "nothing is written"); eq(c->flushes, f, "nothing is flushed"); l->set_log_level(level::off); l->info("5"); eq(e.reports(), 0, "off"); auto m = l->clone("b"); m->set_log_level(level::info); m->info("6"); eq(e.reports(), 1, "a clone without a pool"); ok(c.use_count() >= 2, "sinks kept"); });
        section((std::string("failing sinks ") + KN[k]).c_str(), [k] { for (int bad = 0; bad < 8; bad++) { TPP tp = pool(k, 8, 1); std::vector<CapP> cs; std::vector<sink_shr_ptr> ss; for (int i = 0; i < 3; i++) { cs.push_back(cap(i)); if (bad >> i & 1) { cs[i]->throw_at = 0; cs[i]->throw_flush = 1; } ss.push_back(cs[i]); } auto l = std::make_shared<async_logger>("a", ss.begin(), ss.end(), tp); l->set_flush_level(level::error); Err e; int n = __builtin_popcount(bad); l->info("xyz"); l->info("x"); l->flush(); eq(e.reports(), 2 * n, std::string(KN[k]) + ": one report per failing sink"); l->error("abc"); l->info("y"); tp->enqueue_flush(async_logger_shr_ptr(l)).get(); eq(e.reports(), 3 * n, std::string(KN[k]) + ": reports of a message that is flushed"); for (int i = 0; i < 3; i++) { eq(cs[i]->got.size(), (size_t)4, std::string(KN[k]) + ": messages of sink " + std::to_string(i)); eqs(cs[i]->order, "LLFLFLF", "order of sink " + std::to_string(i)); } } });
        section((std::string("a worker flushes with a full queue ") + KN[k]).c_str(), [k] { for (size_t w = 1; w <= 2; w++) { TPP tp = pool(k, 1, w); auto c = cap(); c->hook = [](const Rec &) { usleep(100); }; auto l = std::make_shared<async_logger>("a", c, tp); l->set_flush_level(level::info); std::vector<std::thread> t; for (int p = 0; p < 3; p++) t.emplace_back([&] { for (int i = 0; i < 60; i++) l->info("m"); }); for (auto &x : t) x.join(); l->flush(); tp.reset(); eq(c->got.size(), (size_t)180, std::string(KN[k]) + ": messages"); eq(c->flushes, 181, std::string(KN[k]) + ": flushes"); } }, 30);
        section((std::string("delivery happens in a worker ") + KN[k]).c_str(), [k] { std::mutex m; std::set<std::thread::id> ws; TPP tp = pool(k, 8, 3, [&] { std::lock_guard<std::mutex> g(m); ws.insert(std::this_thread::get_id()); }); struct S : Cap { std::vector<std::thread::id> ids; void log(const base::log_msg &x) override { { std::lock_guard<std::mutex> g(m); ids.push_back(std::this_thread::get_id()); } Cap::log(x); } void flush() override { { std::lock_guard<std::mutex> g(m); ids.push_back(std::this_thread::get_id()); } Cap::flush(); } }; auto c = std::make_shared<S>(); c->set_level(level::trace); auto l = std::make_shared<async_logger>("a", c, tp); l->set_flush_level(level::warn); for (int i = 0; i < 20; i++) l->warn("x"); l->flush(); tp.reset(); eq(c->ids.size(), (size_t)41, "calls"); for (auto &i : c->ids) ok(ws.count(i) == 1, std::string(KN[k]) + ": a worker calls the sinks"); });
        section((std::string("destroyed meanwhile ") + KN[k]).c_str(), [k] { for (int run = 0; run < (thorough() ? 200 : 40); run++) { TPP tp = pool(k, 16, 1 + run % 2); auto c = cap(); auto l = std::make_shared<async_logger>("a", c, tp); Err e; std::atomic<int> sent{0}; std::thread t([&] { for (int i = 0; i < 50; i++) { l->info("m"); sent++; if (i % 10 == 9) l->flush(); } }); while (sent < run) if (sent >= 50) break; tp.reset(); t.join(); int rep = e.reports(); eq((int)c->got.size() + c->flushes + rep, 55, std::string(KN[k]) + ": every call is either served or reported"); } }, 120);
    }
    section("names and settings", [] { TPP tp = pool(0, 8, 1); auto c = cap(); auto l = std::make_shared<async_logger>("nm", c, tp); ok(l->is_async(), "async"); eqs(std::string(l->name().data(), l->name().size()), "nm", "name"); l->info("x"); l->flush(); eqs(c->got.at(0).name, "nm", "name in the message"); eq(c->got[0].tid, base::os::thread_id(), "thread id of the caller"); auto m = l->clone("other"); m->info("y"); m->flush(); eqs(c->got.at(1).name, "other", "name of a clone"); sinks::sink *a = l->sinks()[0].get(); ok(a == c.get(), "sink"); });
    return finish();
}
