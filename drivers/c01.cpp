// C01: circular_queue against a bounded deque, exhaustive short histories and long seeded ones.
#include "drv.h"
#include "base/circular_queue.h"
using namespace drv;
struct It { int v; bool live; static int copies; It(int x = -1) : v(x), live(true) {} It(const It &o) : v(o.v), live(o.live) { copies++; } It(It &&o) : v(o.v), live(o.live) { o.v = -7; } It &operator=(const It &o) { v = o.v; live = o.live; copies++; return *this; } It &operator=(It &&o) { v = o.v; live = o.live; if (&o != this) o.v = -7; return *this; } };
int It::copies = 0;
typedef learnlog::base::circular_queue<It> Q;
struct M { size_t cap; std::deque<int> d; size_t ovr; M() : cap(0), ovr(0) {} };
static void cmp(Q &q, M &m, const std::string &h) {
    const Q &cq = q;
    eq(q.size(), m.d.size(), "size after " + h); eq(q.empty(), m.d.empty(), "empty after " + h); eq(q.full(), m.cap > 0 && m.d.size() == m.cap, "full after " + h); eq(q.override_count(), m.ovr, "override_count after " + h);
    if (!m.d.empty()) { eq(q.front().v, m.d.front(), "front after " + h); eq(cq.front().v, m.d.front(), "const front after " + h); }
    for (size_t i = 0; i < m.d.size(); i++) eq(q.at(i).v, m.d[i], "at(" + std::to_string(i) + ") after " + h);
}
static void step(Q &q, M &m, int op, int &n, std::string &h) {
    switch (op) {
    case 0: { It x(n); q.push_back(std::move(x)); if (m.cap) { m.d.push_back(n); if (m.d.size() > m.cap) { m.d.pop_front(); m.ovr++; } } h += "+"; n++; break; }
    case 1: if (m.cap == 0 || !m.d.empty()) { q.pop_front(); if (m.cap) m.d.pop_front(); h += "-"; } break;
    case 2: { Q c(q); M k = m; cmp(c, k, h + "copy"); c.push_back(It(1000)); if (!m.d.empty()) c.pop_front(); cmp(q, m, h + "copy changed"); h += "C"; break; }
    case 3: { Q c(std::move(q)); M k = m; cmp(c, k, h + "moved-to"); M z; cmp(q, z, h + "moved-from"); q.push_back(It(1)); q.pop_front(); cmp(q, z, h + "moved-from used"); q = std::move(c); cmp(q, m, h + "moved back"); M z2; cmp(c, z2, h + "moved-from (assign)"); h += "M"; break; }
    case 4: { Q c(3); for (int i = 0; i < 5; i++) c.push_back(It(5)); { Q d(2), e(q); for (int i = 0; i < 7; i++) d.push_back(It(6)); d = std::move(e); M kd = m; cmp(d, kd, h + "move assigned over a used one"); } c = q; M k = m; cmp(c, k, h + "copy assigned"); c.push_back(It(1000)); cmp(q, m, h + "copy assigned, changed"); h += "A"; break; }
    case 5: q.reset_override_count(); m.ovr = 0; h += "R"; break;
    case 6: q.clear(); m = M(); h += "X"; break;
    }
}
int main() {
    section("short", [] { for (size_t cap = 1; cap <= 5; cap++) for (int L = 0; L < (thorough() ? 390625 : 15625); L++) { Q q(cap); M m; m.cap = cap; int n = 0; std::string h = "cap " + std::to_string(cap) + " "; int x = L; for (int i = 0; i < (thorough() ? 8 : 6); i++) { step(q, m, x % 5, n, h); x /= 5; cmp(q, m, h); } } });
    section("long", [] { for (int r = 0; r < (thorough() ? 400 : 60); r++) { Rng g(r); size_t cap = 1 + g.below(20); Q q(cap); M m; m.cap = cap; int n = 0; std::string h = "cap " + std::to_string(cap) + " "; int bias = g.below(4); for (int i = 0; i < 400; i++) { int op = g.below(100) < 90 ? (g.below(4) < (unsigned)bias + 1 ? 0 : 1) : 1 + g.below(5); step(q, m, op, n, h); cmp(q, m, h.substr(h.size() > 80 ? h.size() - 80 : 0)); } } });
    section("inert", [] { Q q; M m; cmp(q, m, "default"); int n = 0; std::string h = "inert "; for (int i = 0; i < 40; i++) { step(q, m, (i * 3) % 7, n, h); cmp(q, m, h); } Q p(4); M mp; mp.cap = 4; h = "cap 4 "; for (int i = 0; i < 9; i++) step(p, mp, 0, n, h); step(p, mp, 6, n, h); cmp(p, mp, h); for (int i = 0; i < 20; i++) { step(p, mp, i % 4, n, h); cmp(p, mp, h); } p = Q(2); mp.cap = 2; for (int i = 0; i < 20; i++) { step(p, mp, i % 3 == 2, n, h); cmp(p, mp, h); } });
    return finish();
}
