// C08: one padding and truncation law for every field (asan+ubsan).
#include "pat.h"
int main() {
    section("filler: every length, width, side, truncation", [] { std::string big(200, 'x'); for (size_t i = 0; i < big.size(); i++) big[i] = 'a' + i % 26; int step = thorough() ? 1 : 3;
        for (size_t W = 0; W <= 64; W++) for (size_t L = 0; L <= 130; L += (L < 66 ? 1 : step)) for (int side = 0; side < 3; side++) for (int tr = 0; tr < 2; tr++) for (int pre = 0; pre < 3; pre++) {
            std::string c = big.substr(0, L), before(pre * 123, '#'); fmt_memory_buf b; b.append(before.data(), before.data() + before.size());
            { spaces_info si(W, side == 0 ? spaces_info::fill_side::left : side == 1 ? spaces_info::fill_side::right : spaces_info::fill_side::center, tr != 0); filler f(L, si, b); f.fill_msg(fmt_string_view(c.data(), c.size())); }
            kase(); std::string got(b.data(), b.size()), want = before + law(c, (int)W, "lrc"[side], tr != 0); if (got != want) eqs(got, want, "filler W=" + std::to_string(W) + " L=" + std::to_string(L) + " side " + "lrc"[side] + (tr ? " truncated" : "")); } });
    section("disabled", [] { for (size_t L = 0; L < 300; L++) { std::string c(L, 'q'); fmt_memory_buf b; b.push_back('#'); { spaces_info si; filler f(L, si, b); f.fill_msg(fmt_string_view(c.data(), c.size())); } eqs(std::string(b.data(), b.size()), "#" + c, "disabled"); } });
    section("every flag under every setting", [] { Rng r(8); int N = thorough() ? 40 : 4;
        for (const char *f = PADDED; *f; f++) for (int side = 0; side < 3; side++) for (int tr = 0; tr < 2; tr++) for (int W = 0; W <= 64; W++) { std::string p = std::string("%") + (side == 0 ? "" : side == 1 ? "-" : "=") + std::to_string(W) + (tr ? "!" : "") + *f; pattern_formatter pf(p, "\n");
            State st; if (strchr("WXYZ", *f)) { Rf q = rnd(r); run(pf, q.msg()); st.last[0] = q.time; }
            for (int i = 0; i < N; i++) { Rf m = rnd(r); if (strchr("WXYZ", *f) && i % 2) m.time = st.last[0] + (long)r.below(5000000000UL); std::string before(r.below(3) * 240, '#'), got = run(pf, m.msg(), before), want = before + law(field(*f, m, st, 0), W, "lrc"[side], tr != 0) + "\n"; kase(); if (got != want) eqs(got, want, p); } } });
    section("several fields in one line keep their own settings", [] { Rng r(88); for (int i = 0; i < (thorough() ? 60000 : 4000); i++) { std::string p; int n = 1 + r.below(5); for (int k = 0; k < n; k++) { p += "%"; int s = r.below(3); if (s) p += s == 1 ? "-" : "="; if (r.below(4)) { p += std::to_string(r.below(70)); if (r.below(2)) p += "!"; } p += "nlabcymdHMSEFGTptv@ABC"[r.below(22)]; } pattern_formatter pf(p, "|"); auto it = parse(p); State st; size_t a, b; Rf m = rnd(r); eqs(run(pf, m.msg()), render(it, m, st, a, b) + "|", p); } });
    return finish();
}
