// C17: the registry against a model: random histories, concurrent use (asan+ubsan).
#include "reg.h"
static logger_shr_ptr mk(Rng &r, int i) { return std::make_shared<logger>(nm(i), cap((int)r.below(9))); }
int main() {
    section("initial state", [] { auto d = reg().get_default_logger(); ok(!!d && d->name() == "default_logger", "default logger"); ok(reg().get_logger("default_logger") == d, "default logger is registered"); int n = 0; reg().exec_all([&](logger_shr_ptr) { n++; }); eq(n, 1, "loggers at the start"); });
    section("random histories", [] { for (int run = 0; run < (thorough() ? 300 : 60); run++) { Rng r(1700 + run); Model M; clean(); M.check("empty");
        for (int k = 0; k < 80; k++) { int i = (int)r.below(8); std::string h = "run " + std::to_string(run) + " step " + std::to_string(k); switch (r.below(9)) {
            case 0: case 1: case 2: { auto l = mk(r, i); bool t = M.m.count(nm(i)); bool th = throws([&] { reg().register_logger(l); }); eq(th, t, h + ": registration fails iff the name is taken"); if (!t) M.m[nm(i)] = l; break; }
            case 3: reg().remove_logger(nm(i)); M.m.erase(nm(i)); if (M.d && M.d->name() == nm(i)) M.d.reset(); break;
            case 4: { auto l = mk(r, i); reg().set_default_logger(l); M.d = l; M.m[nm(i)] = l; break; }
            case 5: if (r.below(3) == 0) { reg().set_default_logger(nullptr); M.d.reset(); } else if (M.m.count(nm(i))) { auto l = M.m[nm(i)]; reg().set_default_logger(l); M.d = l; } break;
            case 6: if (r.below(8) == 0) { reg().remove_all(); M.m.clear(); M.d.reset(); } break;
            case 7: { auto l = mk(r, i); bool t = M.au && M.m.count(nm(i)); bool th = throws([&] { reg().initialize_logger(l); }); eq(th, t, h + ": initialisation fails iff the name is taken"); if (M.au && !t) M.m[nm(i)] = l; break; }
            case 8: M.au = r.below(2); reg().set_auto_register_logger(M.au); break; }
            M.check(h); } } });
    section("a default logger that is only default", [] { clean(); auto a = std::make_shared<logger>("x", cap()), b = std::make_shared<logger>("x", cap()); reg().set_default_logger(a); reg().remove_all(); reg().register_logger(b); ok(!reg().get_default_logger(), "default"); reg().set_default_logger(a); ok(reg().get_logger("x") == a, "the default logger is registered under its name"); reg().remove_logger("y"); ok(reg().get_default_logger() == a, "another name"); reg().remove_logger("x"); ok(!reg().get_default_logger(), "cleared"); });
    section("flush_all visits each once", [] { clean(); std::vector<CapP> c; for (int i = 0; i < 40; i++) { c.push_back(cap(i)); reg().register_logger(std::make_shared<logger>("n" + std::to_string(i), c.back())); if (i % 7 == 3) c.back()->throw_flush = 1; } Err e; for (int k = 1; k < 4; k++) { reg().flush_all(); for (auto &x : c) eq(x->flushes, k, "flushes"); } });
    section("exec_all passes an exception on and stays usable", [] { clean(); for (int i = 0; i < 5; i++) reg().register_logger(std::make_shared<logger>("n" + std::to_string(i), cap())); ok(throws([] { reg().exec_all([](logger_shr_ptr) { throw std::runtime_error("x"); }); }), "exception"); int n = 0; reg().exec_all([&](logger_shr_ptr) { n++; }); eq(n, 5, "after an exception"); });
    section("concurrent registration: exactly one wins", [] { clean(); for (int run = 0; run < (thorough() ? 400 : 80); run++) { std::atomic<int> won{0}, go{0}; std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([&, k] { auto l = std::make_shared<logger>("same", cap()), o = std::make_shared<logger>("own" + std::to_string(k), cap()); go++; while (go < 4) std::this_thread::yield(); if (!throws([&] { reg().register_logger(l); })) won++; reg().register_logger(o); reg().get_logger("own0"); reg().flush_all(); reg().set_default_logger(o); reg().remove_logger("own" + std::to_string(k)); }); for (auto &x : t) x.join(); eq(won.load(), 1, "winners"); int n = 0; reg().exec_all([&](logger_shr_ptr) { n++; }); eq(n, 1, "registered at the end"); ok(!reg().get_default_logger() || reg().get_default_logger()->name().size() == 4, "default"); reg().remove_all(); } });
    section("flush_all while another thread is inside the registry", [] { clean(); auto c = cap(); reg().register_logger(std::make_shared<logger>("n", c)); for (int i = 0; i < 5; i++) { std::atomic<int> in{0}, out{0}; std::thread t([&] { reg().exec_all([&](logger_shr_ptr) { in = 1; for (int j = 0; j < 50 && !out; j++) usleep(1000); }); }); while (!in) usleep(50); int n = c->flushes; reg().flush_all(); out = 1; ok(c->flushes > n, "flushed when flush_all returns"); t.join(); } });
    return finish();
}
