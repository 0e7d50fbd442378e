// C03: buffered and asynchronous messages (asan+ubsan).
#include "drv.h"
#include "base/log_msg_buf.h"
#include "base/async_msg.h"
#include "include/async_logger.h"
#include <future>
using namespace drv; using namespace learnlog; using namespace learnlog::base;
struct Spec { std::string name, msg; int lvl; int line; long t; size_t tid; const char *file, *fn; };
static std::string text(Rng &r) { static const size_t L[] = {0, 1, 3, 17, 100, 249, 250, 251, 499, 500, 501, 600, 2000, 9000}; std::string s(L[r.below(14)], 'x'); for (auto &c : s) c = (char)r.below(256); return s; }
static Spec spec(Rng &r) { Spec s; s.name = text(r); s.msg = text(r); s.lvl = r.below(7); s.line = r.below(3) ? (int)r.below(100000) : 0; s.t = r.next() >> 3; s.tid = r.next(); s.file = "dir/file.cpp"; s.fn = "func"; return s; }
static log_msg make(const Spec &s, const std::string &n, const std::string &m) { log_msg x(sys_clock::time_point(sys_clock::duration(s.t)), source_loc{s.file, s.line, s.fn}, (level::level_enum)s.lvl, fmt_string_view(m.data(), m.size()), fmt_string_view(n.data(), n.size())); x.tid = s.tid; return x; }
template <class M> static void same(const M &m, const Spec &s, const std::string &h) {
    eqs(std::string(m.logger_name.data(), m.logger_name.size()), s.name, "name after " + h); eqs(std::string(m.msg.data(), m.msg.size()), s.msg, "text after " + h);
    eq((int)m.level, s.lvl, "level after " + h); eq(m.loc.line, s.line, "line after " + h); ok(m.loc.filename == s.file && m.loc.funcname == s.fn, "location after " + h);
    eq((long)m.time.time_since_epoch().count(), s.t, "time after " + h); eq(m.tid, s.tid, "thread id after " + h); }
template <class M> static M from(const Spec &s) { std::string *n = new std::string(s.name), *m = new std::string(s.msg); M b(make(s, *n, *m)); std::fill(n->begin(), n->end(), '#'); std::fill(m->begin(), m->end(), '#'); delete n; delete m; return b; }
int main() {
    section("plain message", [] { Rng r(1); for (int i = 0; i < 300; i++) { Spec s = spec(r); log_msg m = make(s, s.name, s.msg); same(m, s, "construction"); std::string n = s.name, t = s.msg; long a = sys_clock::now().time_since_epoch().count(); log_msg q(source_loc{"f", 3, "g"}, level::warn, t, n); long b = sys_clock::now().time_since_epoch().count(); ok(a <= q.time.time_since_epoch().count() && q.time.time_since_epoch().count() <= b, "current time"); eq(q.tid, os::thread_id(), "thread id"); log_msg z(level::info, t, n); ok(z.loc.empty() && !z.loc.filename && !z.loc.funcname, "empty location"); eq((int)z.level, (int)level::info, "level"); eqs(std::string(z.msg.data(), z.msg.size()), t, "text"); eqs(std::string(z.logger_name.data(), z.logger_name.size()), n, "name"); } });
    section("chains", [] { Rng r(2); int N = thorough() ? 60000 : 5000;
        for (int i = 0; i < N; i++) { const int K = 4; std::vector<std::unique_ptr<log_msg_buf>> b(K); std::vector<Spec> s(K); std::vector<char> live(K, 0); std::string h;
            for (int st = 0; st < 10; st++) { int d = r.below(K), f = r.below(K), op = r.below(7);
                if (op == 0 || !live[f]) { s[d] = spec(r); b[d].reset(new log_msg_buf(from<log_msg_buf>(s[d]))); live[d] = 1; h += " new" + std::to_string(d); }
                else if (op == 1 && d != f) { b[d].reset(new log_msg_buf(*b[f])); s[d] = s[f]; live[d] = 1; h += " copy"; }
                else if (op == 2 && d != f) { b[d].reset(new log_msg_buf(std::move(*b[f]))); s[d] = s[f]; live[d] = 1; live[f] = 0; h += " move"; }
                else if (op == 3 && b[d]) { *b[d] = *b[f]; s[d] = s[f]; live[d] = 1; h += " assign"; }
                else if (op == 4 && b[d] && d != f) { *b[d] = std::move(*b[f]); s[d] = s[f]; live[d] = 1; live[f] = 0; h += " moveassign"; }
                else if (op == 5) { b[d].reset(); live[d] = 0; h += " drop"; }
                else if (op == 6) { b[d].reset(new log_msg_buf()); ok(b[d]->msg.size() == 0 && b[d]->logger_name.size() == 0, "default is empty"); s[d] = Spec{"", "", (int)b[d]->level, 0, 0, 0, nullptr, nullptr}; live[d] = 0; }
                for (int k = 0; k < K; k++) if (live[k]) same(*b[k], s[k], h); } } });
    section("async", [] { Rng r(3); int N = thorough() ? 20000 : 2000; auto lg = std::make_shared<async_logger>("a", sinks_init_list{}, std::weak_ptr<thread_pool>()), lg2 = std::make_shared<async_logger>("b", sinks_init_list{}, std::weak_ptr<thread_pool>());
        for (int i = 0; i < N; i++) { Spec s = spec(r); std::string n = s.name, m = s.msg; auto p = lg; async_msg a(std::move(p), async_msg_type::log, make(s, n, m)); n.assign(n.size(), '#'); m.assign(m.size(), '#');
            same(a, s, "async"); ok(a.logger == lg && a.msg_type == async_msg_type::log, "logger and kind"); async_msg b(std::move(a)); same(b, s, "async move"); ok(b.logger == lg && b.msg_type == async_msg_type::log, "logger and kind moved");
            Spec s2 = spec(r); auto p2 = lg2; async_msg c(std::move(p2), async_msg_type::log, make(s2, s2.name, s2.msg)); c = std::move(b); same(c, s, "async move assign"); ok(c.logger == lg, "logger moved over another");
            std::promise<void> pr; auto fut = pr.get_future(); auto p3 = lg2; async_msg f(std::move(p3), async_msg_type::flush, std::move(pr)); c = std::move(f); ok(c.msg_type == async_msg_type::flush && c.logger == lg2, "flush request"); async_msg g(std::move(c)); ok(g.msg_type == async_msg_type::flush && g.logger == lg2, "flush request moved"); ok(fut.wait_for(std::chrono::seconds(0)) == std::future_status::timeout, "not completed yet"); g.flush_promise.set_value(); ok(fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "completed through the moved promise");
            async_msg t(async_msg_type::terminate); ok(t.msg_type == async_msg_type::terminate && !t.logger, "terminate request"); auto p4 = lg; async_msg t2(std::move(p4), async_msg_type::terminate); t = std::move(t2); ok(t.logger == lg && t.msg_type == async_msg_type::terminate, "control request moved"); } });
    return finish();
}
