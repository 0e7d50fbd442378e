// C18: global settings against a model (asan+ubsan).
#include "reg.h"
struct Made { std::shared_ptr<std::ostringstream> o; logger_shr_ptr l; std::string pat = "%+"; int lv = 2, fl = 6; };
static Made mk(const std::string &n) { Made x; x.o = std::make_shared<std::ostringstream>(); x.l = std::make_shared<logger>(n, std::make_shared<sinks::ostream_sink_mt>(*x.o)); return x; }
static std::string say(Made &x) { int k = (int)x.l->get_log_level(); x.l->set_log_level(level::trace); x.o->str(""); x.l->critical("T"); std::string s = x.o->str(); x.l->set_log_level((level::level_enum)k); return s; }
static const char *P[] = {"%v", "<%n>%v", "%l:%v", "%%%v!", ""};
static std::string shown(const Made &x) { std::string s; const std::string &p = x.pat; for (size_t i = 0; i < p.size(); i++) if (p[i] != '%') s += p[i]; else { i++; s += p[i] == 'v' ? "T" : p[i] == 'n' ? x.l->name() : p[i] == 'l' ? "critical" : "%"; } return s + "\n"; }
static void same(Made &x, const std::string &h) { eq((int)x.l->get_log_level(), x.lv, h + ": level of " + x.l->name()); eq((int)x.l->get_flush_level(), x.fl, h + ": flush level of " + x.l->name()); if (x.pat != "%+") eqs(say(x), shown(x), h + ": formatter of " + x.l->name()); }
int main() {
    section("random histories", [] { Err e; for (int run = 0; run < (thorough() ? 200 : 40); run++) { Rng r(1800 + run); clean(); reg().set_global_log_level(level::info); reg().set_global_flush_level(level::off); reg().set_global_pattern("%v"); std::vector<Made> all; std::map<std::string, int> in; int lv = 2, fl = 6; std::string pat = "%v"; bool au = true;
        for (int k = 0; k < 60; k++) { std::string h = "run " + std::to_string(run) + " step " + std::to_string(k), n = nm((int)r.below(8)); int v = (int)r.below(7); std::string p = P[r.below(5)]; bool have = in.count(n);
            switch (r.below(9)) {
            case 0: case 1: { Made x = mk(n); x.l->set_pattern("other"); x.lv = lv; x.fl = fl; x.pat = pat; bool th = throws([&] { reg().initialize_logger(x.l); }); eq(th, au && have, h + ": initialisation fails iff the name is taken"); all.push_back(x); if (au && !have) in[n] = (int)all.size() - 1; break; }
            case 2: reg().set_global_log_level((level::level_enum)v); lv = v; for (auto &i : in) all[i.second].lv = v; break;
            case 3: reg().set_global_flush_level((level::level_enum)v); fl = v; for (auto &i : in) all[i.second].fl = v; break;
            case 4: reg().set_global_pattern(p); pat = p; for (auto &i : in) all[i.second].pat = p; break;
            case 5: reg().set_global_formatter(formatter_uni_ptr(new sinks::pattern_formatter(p))); pat = p; for (auto &i : in) all[i.second].pat = p; break;
            case 6: { bool th = throws([&] { reg().set_pattern(n, p); }); eq(th, !have, h + ": set_pattern"); if (have) all[in[n]].pat = p; break; }
            case 7: { bool th = throws([&] { reg().set_log_level(n, (level::level_enum)v); }); eq(th, !have, h + ": set_log_level"); if (have) all[in[n]].lv = v; th = throws([&] { reg().set_flush_level(n, (level::level_enum)v); }); eq(th, !have, h + ": set_flush_level"); if (have) all[in[n]].fl = v; break; }
            case 8: au = r.below(3) != 0; reg().set_auto_register_logger(au); if (r.below(2)) { reg().remove_logger(n); in.erase(n); } break; }
            for (auto &x : all) same(x, h); int cnt = 0; reg().exec_all([&](logger_shr_ptr l) { cnt++; auto i = in.find(l->name()); ok(i != in.end() && all[i->second].l == l, h + ": the registered logger is the first of its name"); }); eq(cnt, (int)in.size(), h + ": loggers"); } } });
    section("registration and a global level never miss each other", [] { for (int run = 0; run < (thorough() ? 600 : 150); run++) { clean(); reg().set_global_log_level(level::info); auto l = std::make_shared<logger>("x", cap()); std::atomic<int> go{0}; std::thread a([&] { go++; while (go < 2) {} reg().initialize_logger(l); }), b([&] { go++; while (go < 2) {} reg().set_global_log_level(level::error); reg().set_global_flush_level(run % 2 ? level::warn : level::info); }); a.join(); b.join(); eq((int)l->get_log_level(), 4, "level"); eq((int)l->get_flush_level(), run % 2 ? 3 : 2, "flush level"); } });
    section("every logger gets a formatter of its own", [] { clean(); std::vector<CapP> c; for (int i = 0; i < 9; i++) { c.push_back(cap(i)); reg().register_logger(std::make_shared<logger>("n" + std::to_string(i), c.back())); } reg().set_global_formatter(formatter_uni_ptr(new sinks::pattern_formatter("%v|"))); std::set<sinks::formatter *> s; for (auto &x : c) { eq(x->given.size(), (size_t)1, "formatters given"); ok(s.insert(x->given[0].get()).second, "shared formatter"); } auto z = cap(); reg().initialize_logger(std::make_shared<logger>("late", z)); ok(z->given.size() >= 1 && s.insert(z->given.back().get()).second, "formatter of a late logger"); });
    section("factories initialise", [] { clean(); reg().set_global_log_level(level::warn); reg().set_global_flush_level(level::error); auto a = sync_factory::create<sinks::null_sink_mt>("s1"); auto b = async_factory_lock::create<sinks::null_sink_mt>("s2"); for (logger_shr_ptr l : {logger_shr_ptr(a), logger_shr_ptr(b)}) { eq((int)l->get_log_level(), 3, "level"); eq((int)l->get_flush_level(), 4, "flush level"); ok(reg().get_logger(l->name()) == l, "registered"); } Err e; auto again = sync_factory::create<sinks::null_sink_mt>("s1"); ok(again && again != a && reg().get_logger("s1") == a, "a taken name"); eq(e.reports(), 1, "reports"); reg().close_registry(); });
    return finish();
}
