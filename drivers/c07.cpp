// C07: the grammar of patterns, the items of a line, custom flags (asan+ubsan).
#include "pat.h"
struct Star : custom_flag_formatter { char c; explicit Star(char x) : c(x) { set_spaces_info(spaces_info(7, spaces_info::fill_side::center, true)); }   // settings of its own count for nothing
    void format(const base::log_msg &m, const std::tm &, fmt_memory_buf &b) override { std::string t = std::string("<") + c + std::to_string(m.msg.size()) + ">"; filler f(t.size(), spaces_info_, b); f.fill_msg(fmt_string_view(t.data(), t.size())); }
    std::unique_ptr<custom_flag_formatter> clone() const override { return std::unique_ptr<custom_flag_formatter>(new Star(c)); } };
static std::string star(char f, const Item &t, const Rf &m) { return law(std::string("<") + f + std::to_string(m.text.size()) + ">", t.w, t.side == 'l' ? 'l' : t.side, t.trunc); }
static void one(const std::string &p, const std::string &custom, const Rf &m, int how, const std::string &eol = "|\n") {
    // exactly sized: reading past the end is caught
    std::string q; q.reserve(p.size()); q = p; std::unique_ptr<pattern_formatter> f;
    if (how == 0 && custom.empty()) f.reset(new pattern_formatter(q, eol));
    else if (how == 1) { f.reset(new pattern_formatter("%v %z", eol)); for (char c : custom) f->add_custom_flag<Star>(c, c); f->set_pattern(q); }
    else { pattern_formatter::cust_flag_table t; for (char c : custom) t[c] = std::unique_ptr<custom_flag_formatter>(new Star(c)); f.reset(new pattern_formatter(q, eol, std::move(t))); }
    auto it = parse(p, custom); State st; size_t a, b; auto cs = [&](char fl, const Item &i) { return star(fl, i, m); };
    std::string want = render(it, m, st, a, b, custom, cs) + eol, before = how == 2 ? std::string(300, '#') : ""; kase();
    base::log_msg lm = m.msg(); std::string got = run(*f, lm, before); if (got != before + want) eqs(got, before + want, "pattern \"" + show(p) + "\"" + (custom.empty() ? "" : " with custom " + custom));
    State s2; if (how == 3) { auto g = f->clone(); f.reset(); fmt_memory_buf o; g->format(m.msg(), o); kase(); want = render(it, m, s2, a, b, custom, cs) + eol; if (std::string(o.data(), o.size()) != want) eqs(std::string(o.data(), o.size()), want, "clone of pattern \"" + show(p) + "\""); }
}
static Rf still() { Rf m; m.name = "nm"; m.text = "hello"; m.level = 3; m.line = 12; m.file = "f.cc"; m.fn = "fn"; m.time = 1730000000123456789L; m.tid = 77; return m; }
int main() {
    section("every pattern over the grammar's alphabet", [] { Rf m = still(); const char A[] = {'%', '-', '=', '!', '0', '7', 'v', 'Q', 'n', ' '}; int N = thorough() ? 6 : 5; std::vector<int> ix; 
        for (int len = 0; len <= N; len++) { ix.assign(len, 0); for (;;) { std::string p; for (int i : ix) p += A[i]; one(p, "", m, 0); int k = len - 1; while (k >= 0 && ++ix[k] == 10) ix[k--] = 0; if (k < 0) break; } } }, 300);
    section("every character as a flag", [] { Rf m = still(); for (int c = 0; c < 256; c++) for (const char *s : {"", "-", "=", "9", "-9!", "=12", "64", "65!", "0", "0!", "00012", "!", "-!", "=="}) for (const char *e : {"", "x", "%", "%%"}) for (int cu = 0; cu < 3; cu++) for (int how = 1; how < 4; how++) { if ((strchr("WXYZ", c) && c) || (c < 2 && cu == 1)) continue; std::string p = std::string("a%") + s + (char)c + e; one(p, cu == 0 ? "" : cu == 1 ? std::string(1, (char)c) : "v*", m, how); } });
    section("widths of any length", [] { Rf m = still(); Rng r(7); for (int i = 0; i < 4000; i++) { std::string d; for (size_t k = 0, n = 1 + r.below(r.below(10) ? 6 : 400); k < n; k++) d += '0' + r.below(10); if (!r.below(3)) d = std::string(r.below(30), '0') + std::to_string(r.below(70)); if (!r.below(9)) d = std::to_string(r.next()); if (!r.below(9)) d = std::to_string(4294967296ull + r.below(80)); one("%" + std::string(r.below(2) ? "-" : "") + d + (r.below(2) ? "!" : "") + "v%3n", "", m, 0); } });
    section("long random patterns", [] { Rng r(70); int N = thorough() ? 60000 : 8000; for (int i = 0; i < N; i++) { Rf m = rnd(r); std::string p; for (size_t k = 0, n = r.below(i % 10 ? 30 : 600); k < n; k++) switch (r.below(9)) { case 0: case 1: case 2: p += "%"; break; case 3: p += "nlabcymdHMSEFGTptv@ABC%+^$"[r.below(26)]; break; case 4: p += "-=!"[r.below(3)]; break; case 5: p += (char)('0' + r.below(10)); break; case 6: p += (char)r.below(256); break; default: p += "nlvQ*z "[r.below(7)]; }
        for (char &c : p) if (strchr("WXYZ", c) && c) c = 'v'; std::string cu; if (r.below(3) == 0) { cu = "*"; if (r.below(2)) cu += "n"; if (r.below(3) == 0) cu += "%"; if (r.below(3) == 0) cu += "\xe9"; } int how = cu.empty() ? r.below(4) : 1 + r.below(3); static const char *E[] = {"\n", "", "\r\n", "%v"}; one(p, cu, m, how, E[r.below(4)]); } });
    section("parsing again replaces the items", [] { Rf m = still(); pattern_formatter f("%v %n x", "\n"); for (const char *p : {"%l", "", "abc", "%v%v", "%"}) { f.set_pattern(p); State st; size_t a, b; eqs(run(f, m.msg()), render(parse(p), m, st, a, b) + "\n", p); } pattern_formatter d; State st; size_t a, b; eqs(run(d, m.msg()), render(parse("%+"), m, st, a, b) + "\n", "default pattern"); });
    return finish();
}
