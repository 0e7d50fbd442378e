// A sink that records everything it is given, and a stderr capture.
#pragma once
#include "drv.h"
#include "include/logger.h"
#include "sinks/sink.h"
#include "sinks/formatters/formatter.h"
#include <mutex>
#include <stdexcept>
#include <fcntl.h>
namespace drv {
using namespace learnlog;
struct Rec { std::string name, text; int level, line; std::string file, fn; long time; size_t tid; const void *addr; };
inline std::vector<std::string> &journal() { static std::vector<std::string> j; return j; }
struct Cap : sinks::sink {
    std::vector<Rec> got; int flushes = 0, fmts = 0, id = 0; int throw_at = -1, throw_flush = 0; bool odd = false; std::mutex m; std::vector<formatter_uni_ptr> given; std::string order;
    std::function<void(const Rec &)> hook;
    void log(const base::log_msg &x) override { Rec r{std::string(x.logger_name.data(), x.logger_name.size()), std::string(x.msg.data(), x.msg.size()), (int)x.level, x.loc.line, x.loc.filename ? x.loc.filename : "", x.loc.funcname ? x.loc.funcname : "", (long)x.time.time_since_epoch().count(), x.tid, &x};
        { std::lock_guard<std::mutex> l(m); got.push_back(r); order += "L"; } if (hook) hook(r); if (throw_at >= 0 && (int)r.text.size() % 3 == throw_at) { if (odd) throw 7; throw std::runtime_error("sink " + std::to_string(id)); } }
    void flush() override { { std::lock_guard<std::mutex> l(m); flushes++; order += "F"; } if (throw_flush) throw std::runtime_error("flush " + std::to_string(id)); }
    void set_pattern(const std::string &) override { fmts++; }
    void set_formatter(formatter_uni_ptr f) override { fmts++; given.push_back(std::move(f)); }
    std::vector<Rec> take() { std::lock_guard<std::mutex> l(m); std::vector<Rec> r; r.swap(got); return r; }
};
typedef std::shared_ptr<Cap> CapP;
inline CapP cap(int id = 0, int level = 0) { auto c = std::make_shared<Cap>(); c->id = id; c->set_level((level::level_enum)level); return c; }
inline void same(const Rec &a, const Rec &b, const std::string &h) { eqs(a.text, b.text, h + ": text"); eqs(a.name, b.name, h + ": logger name"); eq(a.level, b.level, h + ": level"); eq(a.line, b.line, h + ": line"); eqs(a.file, b.file, h + ": file"); eqs(a.fn, b.fn, h + ": function"); if (b.time) eq(a.time, b.time, h + ": time"); if (b.tid) eq(a.tid, b.tid, h + ": thread id"); }
// what is written to stderr while it lives
struct Err { int old; char path[64]; Err() { fflush(stderr); strcpy(path, "/tmp/vcerrXXXXXX"); int fd = mkstemp(path); old = dup(2); dup2(fd, 2); close(fd); }
    std::string take() { fflush(stderr); std::string s = slurp(path); if (truncate(path, 0)) {} lseek(2, 0, SEEK_SET); return s; }
    int reports() { std::string s = take(); int n = 0; for (size_t p = 0; (p = s.find("[*** EXCEPTION #", p)) != std::string::npos; p++) n++; return n; }
    ~Err() { fflush(stderr); dup2(old, 2); close(old); unlink(path); } };
}
using namespace drv; using namespace learnlog;
