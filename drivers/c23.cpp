// C23: pools and the registry (asan+ubsan).
#include "reg.h"
struct D : Cap { static std::atomic<int> &live() { static std::atomic<int> n{0}; return n; } D() { live()++; } ~D() { live()--; } };
template <class F> static void create(const char *kind, base::msg_queue_type want) {
    for (int have = 0; have < 4; have++) for (int au = 0; au < 2; au++) { clean(); reg().set_auto_register_logger(au); reg().register_thread_pool(nullptr); thread_pool_shr_ptr tp; if (have == 1) tp = std::make_shared<base::lock_thread_pool>(37, 2); if (have == 2) tp = std::make_shared<base::lockfree_thread_pool>(64, 3); if (have == 3) tp = std::make_shared<base::lockfree_concurrent_thread_pool>(64, 1); if (tp) reg().register_thread_pool(tp);
        auto syn = std::make_shared<logger>("sync", cap()); reg().register_logger(syn); auto old = tp ? std::make_shared<async_logger>("old", cap(), tp) : nullptr; if (old) { reg().register_logger(old); reg().set_default_logger(old); }
        auto l = F::template create<sinks::null_sink_mt>("new"); auto now = reg().get_thread_pool(); std::string h = std::string(kind) + " with pool kind " + std::to_string(have); ok(!!now, h + ": a pool"); eq((int)now->message_queue_type(), (int)want, h + ": kind"); ok(reg().get_logger("sync") == syn, h + ": sync logger stays"); ok((reg().get_logger("new") == l) == (au == 1), h + ": registered");
        bool keep = tp && tp->message_queue_type() == want; ok((now == tp) == keep, h + ": pool kept iff it matches"); if (tp) { eq(now->message_queue_size(), tp->message_queue_size(), h + ": size"); eq(now->threads_size(), tp->threads_size(), h + ": workers"); ok((reg().get_logger("old") == old) == keep && (reg().get_default_logger() == old) == keep, h + ": async loggers go with their pool"); } else { eq(now->message_queue_size(), (size_t)8192, h + ": default size"); eq(now->threads_size(), (size_t)1, h + ": default workers"); }
        Err e; l->critical("x"); l->flush(); eq(e.reports(), 0, h + ": the logger works"); if (!keep && old) { tp.reset(); old->flush(); eq(e.reports(), 1, h + ": the old pool is gone"); }
        auto m = F::template create<sinks::null_sink_mt>("second"); ok(reg().get_thread_pool() == now, h + ": the second logger keeps the pool"); } }
int main() {
    section("replacing the pool", [] { for (int n = 0; n < (thorough() ? 200 : 60); n++) { Rng r(n); clean(); Model M; auto tp = std::make_shared<base::lock_thread_pool>(16, 1); reg().register_thread_pool(tp); for (int i = 0; i < 8; i++) { if (r.below(4) == 0) continue; logger_shr_ptr l; if (r.below(2)) l = std::make_shared<async_logger>(nm(i), cap(), tp); else l = std::make_shared<logger>(nm(i), cap()); reg().register_logger(l); M.m[nm(i)] = l; if (r.below(3) == 0) { reg().set_default_logger(l); M.d = l; } }
        thread_pool_shr_ptr q; if (r.below(4)) q = std::make_shared<base::lock_thread_pool>(8, 1); reg().register_thread_pool(q); for (auto it = M.m.begin(); it != M.m.end();) if (it->second->is_async()) it = M.m.erase(it); else ++it; if (M.d && M.d->is_async()) M.d.reset(); M.check("after replacing the pool"); ok(reg().get_thread_pool() == q, "current pool"); reg().register_thread_pool(nullptr); } });
    section("an async default logger that is not registered", [] { clean(); auto tp = std::make_shared<base::lock_thread_pool>(16, 1); auto l = std::make_shared<async_logger>("x", cap(), tp); reg().set_default_logger(l); reg().set_default_logger(l); auto o = std::make_shared<logger>("x", cap()); reg().register_thread_pool(tp); ok(!reg().get_default_logger() && !reg().get_logger("x"), "gone"); reg().register_logger(l); reg().register_thread_pool(tp); ok(!reg().get_logger("x"), "registering the current pool again drops its loggers too"); ok(reg().get_thread_pool() == tp, "pool"); reg().register_logger(o); reg().set_default_logger(o); reg().register_thread_pool(nullptr); ok(reg().get_default_logger() == o, "a synchronous default stays"); });
    section("factory lock", [] { create<async_factory_lock>("lock", base::lock); }); section("factory lockfree", [] { create<async_factory_lockfree>("lockfree", base::lockfree); }); section("factory lockfree_concurrent", [] { create<async_factory_lockfree_concurrent>("lockfree_concurrent", base::lockfree_concurrent); });
    section("concurrent creation keeps one pool", [] { for (int run = 0; run < (thorough() ? 100 : 25); run++) { clean(); reg().register_thread_pool(nullptr); std::atomic<int> go{0}; std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([&, k] { go++; while (go < 4) {} auto l = async_factory_lock::create<sinks::null_sink_mt>("n" + std::to_string(k)); l->info("x"); l->flush(); }); for (auto &x : t) x.join(); int n = 0; reg().exec_all([&](logger_shr_ptr) { n++; }); eq(n, 4, "loggers created at the same time"); } });
    section("close", [] { for (int k = 0; k < 3; k++) { clean(); int before = D::live(); auto tp = std::make_shared<base::lockfree_thread_pool>(64, 2); reg().register_thread_pool(tp); std::weak_ptr<base::thread_pool> w = tp; tp.reset(); auto c = cap(); reg().register_logger(std::make_shared<logger>("c", c)); reg().register_logger(std::make_shared<async_logger>("d", std::make_shared<D>(), w)); sync_factory::create<D>("e"); reg().set_default_logger(reg().get_logger("c")); reg().flush_every(std::chrono::milliseconds(2)); while (c->flushes < 2) usleep(500); Err e; learnlog::close(); int f = c->flushes; usleep(15000); eq(c->flushes, f, "the flusher has stopped"); ok(w.expired(), "the pool is dropped"); eq(D::live().load(), before, "the loggers are dropped"); ok(!reg().get_default_logger() && !reg().get_logger("c") && !reg().get_thread_pool(), "nothing is left"); eq(e.reports(), 0, "reports"); learnlog::close(); } });
    section("initialize_thread_pool", [] { clean(); learnlog::initialize_thread_pool<base::lockfree_concurrent_thread_pool>(100, 3); auto p = reg().get_thread_pool(); ok(!!p, "pool"); eq(p->message_queue_size(), (size_t)100, "size"); eq(p->threads_size(), (size_t)3, "workers"); eq((int)p->message_queue_type(), 2, "kind"); Err e; learnlog::initialize_thread_pool<base::lock_thread_pool>(100, 0); eq(e.reports(), 1, "reports"); ok(reg().get_thread_pool() == p, "a failed creation changes nothing"); });
    return finish();
}
