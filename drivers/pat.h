// Reference reading of patterns and fields, written from the documentation, for C07/C08/C09/C11.
#pragma once
#include "drv.h"
#include "sinks/formatters/pattern_formatter.h"
#include <map>
#include <ctime>
namespace drv {
using namespace learnlog; using namespace learnlog::sinks;
struct Rf { std::string name, text, file, fn; bool hasfile = true, hasfn = true; int level = 0, line = 0; long time = 0; size_t tid = 0;
    // the message, made over texts that carry junk behind their end
    base::log_msg msg() const { base::log_msg m(sys_clock::time_point(sys_clock::duration(time)), source_loc{hasfile ? file.c_str() : nullptr, line, hasfn ? fn.c_str() : nullptr}, (level::level_enum)level, fmt_string_view(text.data(), text.size()), fmt_string_view(name.data(), name.size())); m.tid = tid; return m; } };
inline std::string pad0(long v, size_t w) { std::string d = std::to_string(v); return d.size() < w ? std::string(w - d.size(), '0') + d : d; }
inline std::string law(const std::string &c, int w, char side, bool trunc) { if (w < 0) return c; if (c.size() < (size_t)w) { size_t k = w - c.size(); if (side == 'l') return std::string(k, ' ') + c; if (side == 'r') return c + std::string(k, ' '); return std::string(k / 2, ' ') + c + std::string(k - k / 2, ' '); } return trunc ? c.substr(0, w) : c; }
static const char *PADDED = "nlabcymdHMSEFGTWXYZptv@ABC";
struct State { std::map<int, long> last; };      // item -> time of the previous message it formatted
inline bool is_flag(char c) { return (strchr(PADDED, c) && c) || c == '+' || c == '^' || c == '$' || c == '%'; }
static const char *LEVELS7[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
// content of one field; st/item only for the since-previous flags
inline std::string field(char f, const Rf &m, State &st, int item) {
    static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char *O[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    time_t s = m.time / 1000000000; long ns = m.time % 1000000000; struct tm t; localtime_r(&s, &t); std::string hms = pad0(t.tm_hour, 2) + ":" + pad0(t.tm_min, 2) + ":" + pad0(t.tm_sec, 2); bool loc = m.line > 0;
    switch (f) {
        case 'n': return m.name; case 'l': return LEVELS7[m.level]; case 'a': return D[t.tm_wday]; case 'b': return O[t.tm_mon]; case 'c': return std::string(D[t.tm_wday]) + " " + O[t.tm_mon] + " " + pad0(t.tm_mday, 2) + " " + hms + " " + pad0(t.tm_year + 1900, 4);
        case 'y': return pad0(t.tm_year + 1900, 4); case 'm': return pad0(t.tm_mon + 1, 2); case 'd': return pad0(t.tm_mday, 2); case 'H': return pad0(t.tm_hour, 2); case 'M': return pad0(t.tm_min, 2); case 'S': return pad0(t.tm_sec, 2); case 'T': return hms;
        case 'E': return pad0(ns / 1000000, 3); case 'F': return pad0(ns / 1000, 6); case 'G': return pad0(ns, 9);
        case 'W': case 'X': case 'Y': case 'Z': { long d = m.time - st.last[item]; if (d < 0) d = 0; st.last[item] = m.time; return std::to_string(d / (f == 'W' ? 1 : f == 'X' ? 1000 : f == 'Y' ? 1000000 : 1000000000)); }
        case 'p': return std::to_string(getpid()); case 't': return std::to_string(m.tid); case 'v': return m.text;
        case '@': return loc ? m.file + ":" + std::to_string(m.line) : ""; case 'A': return loc ? m.file : ""; case 'B': return loc ? std::to_string(m.line) : ""; case 'C': return loc && m.hasfn ? m.fn : "";
        case '%': return "%";
        case '+': return "[" + pad0(t.tm_year + 1900, 4) + "-" + pad0(t.tm_mon + 1, 2) + "-" + pad0(t.tm_mday, 2) + " " + hms + "." + pad0(ns / 1000000, 3) + "] " + (m.name.empty() ? "" : "[" + m.name + "] ") + "[" + LEVELS7[m.level] + "] " + (loc ? "[" + m.file + ":" + pad0(m.line, 5) + "] " : "") + m.text;
    }
    return "";
}
struct Item { char flag; int w; char side; bool trunc; std::string lit; };
inline std::vector<Item> parse(const std::string &p, const std::string &custom = "") {
    std::vector<Item> v; size_t i = 0, n = p.size();
    while (i < n) {
        if (p[i] != '%') { if (v.empty() || v.back().flag) v.push_back(Item{0, -1, 'l', false, ""}); v.back().lit += p[i++]; continue; }
        i++; Item t{0, -1, 'l', false, ""}; if (i < n && p[i] == '-') { t.side = 'r'; i++; } else if (i < n && p[i] == '=') { t.side = 'c'; i++; }
        if (i < n && p[i] >= '0' && p[i] <= '9') { t.w = 0; while (i < n && p[i] >= '0' && p[i] <= '9') { t.w = t.w * 10 + (p[i++] - '0'); if (t.w > 64) t.w = 64; } if (i < n && p[i] == '!') { t.trunc = true; i++; } }
        if (i >= n) break;
        char f = p[i++]; t.flag = f; if (custom.find(f) == std::string::npos && !is_flag(f)) { t.flag = 1; t.lit = std::string("%") + f; } v.push_back(t);
    }
    return v;
}
// text of the items, the colour range; custom: the text of a custom flag
inline std::string render(const std::vector<Item> &v, const Rf &m, State &st, size_t &cs, size_t &ce, const std::string &custom = "", std::function<std::string(char, const Item &)> cust = nullptr) {
    std::string o; cs = ce = 0; int k = 0;
    for (auto &t : v) { k++; if (t.flag == 0 || t.flag == 1) { o += t.lit; continue; } if (custom.find(t.flag) != std::string::npos) { o += cust(t.flag, t); continue; }
        if (t.flag == '^') { cs = o.size(); continue; } if (t.flag == '$') { ce = o.size(); continue; } std::string c = field(t.flag, m, st, k);
        if (t.flag == '+') { cs = o.size() + c.find("] [" + std::string(LEVELS7[m.level]) + "]") + 3; if (!m.name.empty()) cs = o.size() + 26 + m.name.size() + 3 + 1; else cs = o.size() + 26 + 1; ce = cs + strlen(LEVELS7[m.level]); o += c; continue; }
        if (t.flag == '%') { o += c; continue; } o += law(c, t.w, t.side, t.trunc); }
    return o;
}
inline Rf rnd(Rng &r) { Rf m; static const char *fs[] = {"/src/dir/file.cpp", "f.h", "", "a b.cc"}; m.name = std::string(r.below(3) ? r.below(12) : r.below(90), 'n'); for (size_t i = 0, n = r.below(4) ? r.below(20) : r.below(700); i < n; i++) m.text += (char)(r.below(6) ? 33 + r.below(90) : r.below(256)); m.level = r.below(7); m.line = r.below(3) ? (int)(r.below(r.below(2) ? 200 : 2000000000)) : 0; if (!r.below(9)) m.line = -5; m.file = fs[r.below(4)]; m.fn = r.below(2) ? "main" : "operator()"; if (!r.below(4)) m.hasfn = false; if (m.line <= 0 && r.below(2)) m.hasfile = m.hasfn = false;
    m.time = (long)(r.next() >> (1 + r.below(3))) % 4102444800000000000L; if (!r.below(3)) m.time = 1730000000000000000L + (long)r.below(3000000000UL); if (!r.below(5)) m.time = m.time / 1000000000 * 1000000000 + (r.below(2) ? 999999999 : 0); m.tid = r.next() >> r.below(64); return m; }
inline std::string run(pattern_formatter &f, const base::log_msg &m, const std::string &before = "") { fmt_memory_buf b; b.append(before.data(), before.data() + before.size()); f.format(m, b); return std::string(b.data(), b.size()); }
}
using namespace drv; using namespace learnlog;
