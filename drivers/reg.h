// The registry against a model of it.
#pragma once
#include "cap.h"
#include "include/learnlog.h"
#include "include/async_logger.h"
#include "include/sync_factory.h"
#include "include/async_factory.h"
#include "base/registry.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"
#include <map>
#include <set>
#include <thread>
#include <atomic>
namespace drv {
typedef base::registry Reg;
inline Reg &reg() { return Reg::instance(); }
template <class F> bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
inline std::string nm(int i) { static const char *t[] = {"a", "b", "", "default_logger", "a b", "a much longer name that does not fit any small buffer", "A", "default"}; return t[i % 8]; }
struct Model { std::map<std::string, logger_shr_ptr> m; logger_shr_ptr d; bool au = true; int lv = 2, fl = 6; std::string pat = "%+", fm = "%+";
    void check(const std::string &h) { std::map<std::string, logger_shr_ptr> seen; int n = 0; reg().exec_all([&](logger_shr_ptr l) { n++; ok(!!l, h + ": a null logger is registered"); seen[l->name()] = l; }); eq(n, (int)m.size(), h + ": loggers visited"); ok(seen == m, h + ": loggers registered");
        for (int i = 0; i < 8; i++) { auto it = m.find(nm(i)); ok(reg().get_logger(nm(i)) == (it == m.end() ? logger_shr_ptr() : it->second), h + ": lookup of \"" + nm(i) + "\""); } ok(reg().get_default_logger() == d, h + ": default logger"); } };
inline void clean() { reg().remove_all(); reg().set_auto_register_logger(true); }
}
