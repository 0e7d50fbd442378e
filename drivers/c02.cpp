// C02: block_queue with real threads.  FLAGS are the defaults (asan+ubsan).
#include "drv.h"
#include <thread>
#include <mutex>
#include <chrono>
#include "base/block_queue.h"
using namespace drv;
typedef std::unique_ptr<int> P;
typedef learnlog::base::block_queue<P> Q;
static P mk(int x) { return P(new int(x)); }
static void put(Q &q, int how, int x) { P p = mk(x); if (how == 0) q.enqueue(std::move(p)); else if (how == 1) q.enqueue_nowait(std::move(p)); else q.enqueue_if_have_room(std::move(p)); }
static void sleepms(int m) { std::this_thread::sleep_for(std::chrono::milliseconds(m)); }
int main() {
    section("sequential", [] {
        for (int cap = 1; cap <= 4; cap++) for (int L = 0; L < 1024; L++) {
            Q q(cap); std::deque<int> m; size_t ovr = 0, disc = 0; int n = 0; std::string h = "cap " + std::to_string(cap) + " ";
            int x = L; for (int i = 0; i < 10; i++) { int op = (x >> (i % 10)) & 1 ? (i * 7 + L) % 3 : 3 + (i + L) % 2;
                if (op == 0 && (int)m.size() == cap) op = 1;
                if (op < 3) { if (op == 1 && (int)m.size() == cap) { m.pop_front(); ovr++; m.push_back(n); } else if (op == 2 && (int)m.size() == cap) disc++; else m.push_back(n); put(q, op, n++); h += "enq"[op]; }
                else if (op == 3 && !m.empty()) { P p; q.dequeue(p); ok(!!p, "dequeue gives an item " + h); eq(*p, m.front(), "dequeue " + h); m.pop_front(); h += "d"; }
                else { P p = mk(-5); bool r = q.dequeue_for(p, std::chrono::milliseconds(0)); eq(r, !m.empty(), "dequeue_for result " + h); if (r) { eq(*p, m.front(), "dequeue_for " + h); m.pop_front(); } else { ok(!!p, "output kept"); eq(*p, -5, "output untouched " + h); } h += "t"; }
                eq(q.size(), m.size(), "size " + h); eq(q.get_override_count(), ovr, "override " + h); eq(q.get_discard_count(), disc, "discard " + h); }
            q.reset_override_count(); q.reset_discard_count(); eq(q.get_override_count(), (size_t)0, "reset override"); eq(q.get_discard_count(), (size_t)0, "reset discard"); eq(q.size(), m.size(), "size kept by resets"); } });
    // every way of adding wakes every way of waiting, and the other way round
    for (int how = 0; how < 3; how++) for (int timed = 0; timed < 2; timed++)
        section(("wake consumer, enqueue kind " + std::to_string(how) + " timed " + std::to_string(timed)).c_str(), [=] {
            for (int r = 0; r < 3; r++) { Q q(2); int got = -1; std::thread t([&] { P p; if (timed) { if (q.dequeue_for(p, std::chrono::milliseconds(60000))) got = *p; } else { q.dequeue(p); got = *p; } }); sleepms(20); put(q, how, 42 + r); t.join(); eq(got, 42 + r, "woken consumer"); } }, 10);
    for (int timed = 0; timed < 2; timed++)
        section(("wake producer, timed " + std::to_string(timed)).c_str(), [=] {
            for (int r = 0; r < 3; r++) { Q q(1); put(q, 0, 1); bool done = false; std::thread t([&] { put(q, 0, 2); done = true; }); sleepms(20); ok(!done, "producer blocks while full"); P p; if (timed) { ok(q.dequeue_for(p, std::chrono::milliseconds(1000)), "timed"); } else q.dequeue(p); eq(*p, 1, "oldest"); t.join(); q.dequeue(p); eq(*p, 2, "second"); eq(q.get_override_count(), (size_t)0, "blocking enqueue never overwrites"); } }, 10);
    section("two consumers", [] { for (int r = 0; r < 20; r++) { Q q(4); int s = 0; std::mutex m; auto f = [&] { P p; q.dequeue(p); std::lock_guard<std::mutex> l(m); s += *p; }; std::thread a(f), b(f); sleepms(2); put(q, r % 3, 1); put(q, (r + 1) % 3, 10); a.join(); b.join(); eq(s, 11, "both consumers served"); } }, 20);
    section("two producers, room for two", [] { for (int r = 0; r < 40; r++) { Q q(2); put(q, 0, 1); put(q, 0, 2); std::thread a([&] { put(q, 0, 4); }), b([&] { put(q, 0, 8); }); sleepms(r % 4 + 1); int s = 0; auto get = [&] { P p; if (r % 2) q.dequeue(p); else ok(q.dequeue_for(p, std::chrono::milliseconds(20000)), "item comes"); s += *p; }; get(); get(); a.join(); b.join(); get(); get(); eq(s, 15, "both producers served"); eq(q.size(), (size_t)0, "nothing left"); } }, 20);
    section("two producers", [] { for (int r = 0; r < 20; r++) { Q q(1); put(q, 0, 0); std::thread a([&] { put(q, 0, 1); }), b([&] { put(q, 0, 2); }); sleepms(2); int s = 0; for (int i = 0; i < 3; i++) { P p; if (i % 2) q.dequeue(p); else ok(q.dequeue_for(p, std::chrono::milliseconds(20000)), "item comes"); s += *p; } a.join(); b.join(); eq(s, 3, "both producers served"); eq(q.get_override_count(), (size_t)0, "nothing overwritten"); } }, 20);
    section("timeout", [] { Q q(2); P p = mk(9); auto t0 = std::chrono::steady_clock::now(); bool r = q.dequeue_for(p, std::chrono::milliseconds(80)); auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); ok(!r, "times out"); ok(ms >= 70 && ms < 5000, "waits about as long as asked: " + std::to_string(ms)); eq(*p, 9, "output untouched"); }, 20);
    section("stress", [] {
        int N = thorough() ? 60000 : 8000;
        for (int mode = 0; mode < 2; mode++) { Q q(mode ? 3 : 64); std::vector<std::thread> t; std::vector<std::vector<int>> got(3); std::vector<int> seen(4 * N, 0);
            for (int i = 0; i < 4; i++) t.emplace_back([&, i] { for (int k = 0; k < N; k++) put(q, 0, i * N + k); });
            for (int j = 0; j < 3; j++) t.emplace_back([&, j] { for (;;) { P p; if (j == 0) { if (!q.dequeue_for(p, std::chrono::milliseconds(5))) continue; } else q.dequeue(p); if (*p < 0) break; got[j].push_back(*p); } });
            for (int i = 0; i < 4; i++) t[i].join(); for (int j = 0; j < 3; j++) put(q, 0, -1); for (int j = 0; j < 3; j++) t[4 + j].join();
            for (auto &g : got) { std::vector<int> last(4, -1); for (int v : g) { seen[v]++; ok(last[v / N] < v, "per-producer order kept"); last[v / N] = v; } }
            for (int i = 0; i < 4 * N; i++) eq(seen[i], 1, "item " + std::to_string(i) + " delivered exactly once"); eq(q.get_override_count(), (size_t)0, "no overwrite"); } }, 120);
    section("discard count", [] { Q q(1); put(q, 0, 0); std::vector<std::thread> t; for (int i = 0; i < 4; i++) t.emplace_back([&] { for (int k = 0; k < 20000; k++) put(q, 2, k); }); for (auto &x : t) x.join(); eq(q.get_discard_count(), (size_t)80000, "discards counted exactly"); }, 60);
    return finish();
}
