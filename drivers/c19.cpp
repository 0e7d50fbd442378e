// C19: pools under load (asan+ubsan).
#include "pools.h"
using namespace drv; using namespace learnlog;
// producers x loggers; every message once, at its own logger, in each producer's order when one worker serves
static void load(int k, size_t q, size_t w, int P, int M, bool slow) {
    std::string h = who(k, q, w) + ", " + std::to_string(P) + " producers"; std::vector<CapP> cs; std::vector<async_logger_shr_ptr> ls; TPP tp = pool(k, q, w);
    for (int i = 0; i < P; i++) { cs.push_back(cap(i)); if (slow) cs[i]->hook = [](const Rec &r) { if (r.text.size() % 7 == 0) usleep(200); }; ls.push_back(std::make_shared<async_logger>("l" + std::to_string(i), cs[i], tp)); }
    std::vector<std::thread> t; std::atomic<int> go{0};
    for (int p = 0; p < P; p++) t.emplace_back([&, p] { go++; while (go < P) std::this_thread::yield(); std::string s; for (int i = 0; i < M; i++) { s.assign(i % 13, '.'); s += std::to_string(p) + ":" + std::to_string(i); ls[(p + i) % P]->info(s); std::fill(s.begin(), s.end(), '#'); if (i % 50 == 49) { ls[p]->flush(); if (w == 1) { int n = 0; { std::lock_guard<std::mutex> g(cs[p]->m); std::string me = std::to_string(p) + ":"; for (auto &r : cs[p]->got) { std::string x = r.text.substr(r.text.find_first_not_of('.')); if (x.compare(0, me.size(), me) == 0) n++; } } int want = 0; for (int j = 0; j <= i; j++) if ((p + j) % P == p) want++; eq(n, want, h + ": messages before a flush are written when it returns"); } } } });
    for (auto &x : t) x.join(); std::weak_ptr<base::thread_pool> wk = tp; tp.reset(); ok(wk.expired(), h + ": gone");
    std::map<std::string, int> seen; std::vector<std::vector<int>> order(P * P);
    for (int i = 0; i < P; i++) { eq(cs[i]->flushes, M / 50, h + ": flushes of a logger"); for (auto &r : cs[i]->got) { eqs(r.name, "l" + std::to_string(i), h + ": logger"); size_t d = r.text.find_first_not_of('.'), c = r.text.find(':'); if (d == std::string::npos || c == std::string::npos) fail(h + ": text " + show(r.text)); int p = atoi(r.text.c_str() + d), n = atoi(r.text.c_str() + c + 1); eq(d, (size_t)(n % 13), h + ": text " + r.text); eq((p + n) % P, i, h + ": delivered by its logger"); seen[r.text.substr(d)]++; order[p * P + i].push_back(n); } }
    eq((int)seen.size(), P * M, h + ": messages processed"); for (auto &x : seen) if (x.second != 1) fail(h + ": message " + x.first + " processed " + std::to_string(x.second) + " times");
    if (w == 1) for (auto &o : order) for (size_t j = 1; j < o.size(); j++) if (o[j] < o[j - 1]) fail(h + ": order of one producer");
}
int main() {
    for (int k = 0; k < 3; k++) {
        section((std::string("load ") + KN[k]).c_str(), [k] { size_t qs[] = {1, 2, 5, 64, 2000}; for (size_t q : qs) for (size_t w : {1, 2, 4}) for (int P : {1, 2, 4}) load(k, q, w, P, thorough() ? 500 : 100, q == 5); }, 120);
        section((std::string("drain ") + KN[k]).c_str(), [k] { for (int run = 0; run < (thorough() ? 200 : 40); run++) { size_t w = 1 + run % 4; auto c = cap(); c->hook = [](const Rec &) { usleep(100); }; std::string h = who(k, 64, w) + ": drained when destroyed"; { TPP tp = pool(k, 64, w); auto l = std::make_shared<async_logger>("x", c, tp); for (int i = 0; i < 20; i++) l->info("m"); std::thread o([&] { for (int i = 0; i < 5; i++) l->info("p"); }); o.join(); std::vector<std::future<void>> f; for (int i = 0; i < 3; i++) f.push_back(tp->enqueue_flush(async_logger_shr_ptr(l))); tp.reset(); for (auto &x : f) ok(x.wait_for(std::chrono::seconds(0)) == std::future_status::ready, h + ": flush completed"); } eq(c->got.size(), (size_t)25, h); eq(c->flushes, 3, h + ": flushes"); } });
        section((std::string("last message of another thread ") + KN[k]).c_str(), [k] { int lost = 0, runs = thorough() ? 4000 : 800; for (int i = 0; i < runs; i++) { auto c = cap(); { TPP tp = pool(k, 64, 1 + i % 3); auto l = std::make_shared<async_logger>("x", c, tp); l->info("m"); std::atomic<int> go{0}; std::thread p([&] { l->info("p"); go = 1; }); while (!go) {} tp.reset(); p.join(); } if (c->got.size() != 2) lost++; } eq(lost, 0, std::string(KN[k]) + ": runs that lost a message when the pool was destroyed"); }, 120);
        section((std::string("pools one after the other from the same threads ") + KN[k]).c_str(), [k] { const int P = 3; std::mutex m; std::condition_variable cv; int gen = 0, done = 0; bool stop = false; std::vector<async_logger_shr_ptr> cur; std::vector<std::thread> t; for (int p = 0; p < P; p++) t.emplace_back([&, p] { int g = 0; for (;;) { std::vector<async_logger_shr_ptr> l; { std::unique_lock<std::mutex> x(m); cv.wait(x, [&] { return stop || gen > g; }); if (stop) return; g = gen; l = cur; } for (int i = 0; i < 10; i++) for (auto &y : l) y->info(std::to_string(p)); l.clear(); { std::unique_lock<std::mutex> x(m); done++; } cv.notify_all(); } });
            for (int run = 0; run < (thorough() ? 200 : 40); run++) { std::vector<CapP> cs; std::vector<TPP> tps; { std::unique_lock<std::mutex> x(m); cur.clear(); for (int j = 0; j < 1 + run % 3; j++) { cs.push_back(cap(j)); tps.push_back(pool(k, 16, 1 + (run + j) % 3)); cur.push_back(std::make_shared<async_logger>("l", cs[j], tps[j])); } gen++; done = 0; } cv.notify_all(); { std::unique_lock<std::mutex> x(m); cv.wait(x, [&] { return done == P; }); cur.clear(); } tps.clear(); for (auto &c : cs) eq(c->got.size(), (size_t)(10 * P), std::string(KN[k]) + ": messages of run " + std::to_string(run)); }
            { std::unique_lock<std::mutex> x(m); stop = true; } cv.notify_all(); for (auto &x : t) x.join(); });
        section((std::string("pools one after the other in the same storage ") + KN[k]).c_str(), [k] { typedef base::lockfree_concurrent_thread_pool C; typedef base::lock_thread_pool A; typedef base::lockfree_thread_pool B; static const size_t Z = sizeof(C) + sizeof(A) + sizeof(B); char *mem = (char *)aligned_alloc(128, (Z + 127) / 128 * 128);
            for (int run = 0; run < 40; run++) { auto c = cap(); { size_t w = 1 + (run * 5) % 4; base::thread_pool *p = k == 0 ? (base::thread_pool *)new (mem) A(8, w) : k == 1 ? (base::thread_pool *)new (mem) B(8, w) : (base::thread_pool *)new (mem) C(8, w); TPP tp(p, [](base::thread_pool *x) { x->~thread_pool(); }); auto l = std::make_shared<async_logger>("x", c, tp); for (int i = 0; i < 5; i++) l->info("m"); std::thread([&] { l->info("p"); }).join(); l->flush(); } eq(c->got.size(), (size_t)6, std::string(KN[k]) + ": messages of run " + std::to_string(run)); eq(c->flushes, 1, "flush"); } free(mem); });
        section((std::string("unused pools end ") + KN[k]).c_str(), [k] { for (int i = 0; i < 60; i++) { TPP tp = pool(k, 1 + i % 5, 1 + i % 7); kase(); } });
        section((std::string("flush requests of loggers without sinks ") + KN[k]).c_str(), [k] { std::vector<sink_shr_ptr> none; for (int i = 0; i < 20; i++) { TPP tp = pool(k, 4, 1 + i % 3); auto l = std::make_shared<async_logger>("x", none.begin(), none.end(), tp); for (int j = 0; j < 3; j++) { bool done = false; std::string why; auto f = tp->enqueue_flush(l->shared_from_this()); try { f.get(); done = true; } catch (const std::exception &e) { why = e.what(); } ok(done, "the flush request is completed: " + why); l->info("m"); } } });
        section((std::string("more workers than producers ") + KN[k]).c_str(), [k] { for (int i = 0; i < 30; i++) { auto c = cap(); { TPP tp = pool(k, 8, 6); auto l = std::make_shared<async_logger>("x", c, tp); for (int j = 0; j < 3; j++) { std::thread([&] { l->info("a"); l->info("b"); }).join(); } l->flush(); } eq(c->got.size(), (size_t)6, who(k, 8, 6) + ": messages"); eq(c->flushes, 1, "flush"); } });
        section((std::string("every kind of message ") + KN[k]).c_str(), [k] { auto c = cap(); TPP tp = pool(k, 4, 1); auto l = std::make_shared<async_logger>("name", c, tp); l->set_log_level(level::trace); std::vector<std::string> ts; for (int n : {0, 1, 5, 249, 250, 251, 252, 600, 5000}) { std::string s; for (int i = 0; i < n; i++) s += (char)(i * 7 + n); ts.push_back(s); } for (size_t i = 0; i < ts.size(); i++) { std::string s = ts[i]; l->log(source_loc{"f.cpp", (int)i + 1, "fn"}, (level::level_enum)(i % 6), s); std::fill(s.begin(), s.end(), 'z'); } l->flush(); eq(c->got.size(), ts.size(), "messages"); for (size_t i = 0; i < ts.size(); i++) { Rec r = c->got[i]; eqs(r.text, ts[i], "text"); eqs(r.name, "name", "name"); eq(r.level, (int)(i % 6), "level"); eq(r.line, (int)i + 1, "line"); eqs(r.file, "f.cpp", "file"); eqs(r.fn, "fn", "function"); eq(r.tid, base::os::thread_id(), "thread id of the caller"); } });
    }
    // a queue may free a thread's producer, and with it the listener, as soon as the thread's exit was reported to it
    section("thread exit", [] { typedef moodycamel::details::ThreadExitListener L; static std::atomic<int> told{0}; for (int n = 0; n < 4; n++) { told = 0; std::thread t([n] { for (int i = 0; i < n; i++) { L *l = new L(); l->callback = [](void *p) { delete (L *)p; told++; }; l->userData = l; moodycamel::details::ThreadExitNotifier::subscribe(l); } }); t.join(); eq(told.load(), n, "producers told that the thread ended"); } });
    return finish();
}
