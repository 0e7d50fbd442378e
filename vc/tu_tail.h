// Instantiations that make every template under contract appear with a full body in the AST.
namespace learnlog { namespace vcinst {
struct Elem { Elem(); Elem(const Elem&); Elem(Elem&&); Elem& operator=(const Elem&); Elem& operator=(Elem&&); };
struct Flag : sinks::custom_flag_formatter { explicit Flag(int); void format(const base::log_msg&, const std::tm&, fmt_memory_buf&) override; std::unique_ptr<sinks::custom_flag_formatter> clone() const override; };
} }
template class learnlog::base::circular_queue<learnlog::vcinst::Elem>;
template class learnlog::base::block_queue<learnlog::vcinst::Elem>;
template class learnlog::base::circular_queue<learnlog::base::log_msg_buf>;
template class learnlog::base::block_queue<learnlog::base::async_msg>;
template class learnlog::sinks::basic_sink<std::mutex>;
template class learnlog::sinks::basic_sink<learnlog::base::null_mutex>;
template class learnlog::sinks::basic_file_sink<std::mutex>;
template class learnlog::sinks::rolling_file_sink<std::mutex>;
template class learnlog::sinks::ostream_sink<std::mutex>;
template class learnlog::sinks::null_sink<std::mutex>;
template class learnlog::sinks::std_sink<learnlog::base::static_mutex>;
template class learnlog::sinks::stdout_sink<learnlog::base::static_mutex>;
template class learnlog::sinks::stderr_sink<learnlog::base::static_mutex>;
template class learnlog::sinks::ansicolor_sink<learnlog::base::static_mutex>;
template class learnlog::sinks::stdout_ansicolor_sink<learnlog::base::static_mutex>;
template class learnlog::sinks::stderr_ansicolor_sink<learnlog::base::static_mutex>;
template class learnlog::sinks::duration_formatter<std::chrono::nanoseconds>;
template class learnlog::sinks::duration_formatter<std::chrono::microseconds>;
template class learnlog::sinks::duration_formatter<std::chrono::milliseconds>;
template class learnlog::sinks::duration_formatter<std::chrono::seconds>;
namespace learnlog { namespace vcinst {
inline void use(logger& l, base::registry& r, fmt_memory_buf& b, sys_clock::time_point tp, sinks_init_list il) {
    l.log(source_loc{}, level::info, "{} {}", 1, 2.5);
    l.log(level::info, "{} {}", 1, 2.5);
    l.log(source_loc{}, level::info, 42);
    l.log(level::info, 42);
    l.log(level::info, std::string());
    l.log(source_loc{}, level::info, fmt_string_view("x"));
    l.log(tp, source_loc{}, level::info, fmt_string_view("x"));
    l.log(level::info, fmt_string_view("x"));
    l.trace("{}", 1); l.debug("{}", 1); l.info("{}", 1); l.warn("{}", 1); l.error("{}", 1); l.critical("{}", 1);
    l.trace("{} {}", 1, 2); l.debug("{} {}", 1, 2); l.info("{} {}", 1, 2); l.warn("{} {}", 1, 2); l.error("{} {}", 1, 2); l.critical("{} {}", 1, 2);
    l.log(level::info, "{} {}", 1, 2); l.log(source_loc{}, level::info, "{} {}", 1, 2);
    learnlog::log(source_loc{}, level::info, "{} {}", 1, 2); learnlog::log(level::info, "{} {}", 1, 2);
    learnlog::trace("{} {}", 1, 2); learnlog::debug("{} {}", 1, 2); learnlog::info("{} {}", 1, 2);
    learnlog::warn("{} {}", 1, 2); learnlog::error("{} {}", 1, 2); learnlog::critical("{} {}", 1, 2);
    learnlog::log(level::info, std::string()); learnlog::trace(std::string()); learnlog::debug(std::string()); learnlog::info(std::string());
    learnlog::warn(std::string()); learnlog::error(std::string()); learnlog::critical(std::string());
    l.trace(1); l.debug(1); l.info(1); l.warn(1); l.error(1); l.critical(1);
    l.trace(std::string()); l.debug(std::string()); l.info(std::string());
    l.warn(std::string()); l.error(std::string()); l.critical(std::string());
    learnlog::log(source_loc{}, level::info, "{}", 1); learnlog::log(level::info, "{}", 1);
    learnlog::log(source_loc{}, level::info, 42); learnlog::log(level::info, 42);
    learnlog::trace("{}", 1); learnlog::debug("{}", 1); learnlog::info("{}", 1);
    learnlog::warn("{}", 1); learnlog::error("{}", 1); learnlog::critical("{}", 1);
    learnlog::trace(1); learnlog::debug(1); learnlog::info(1); learnlog::warn(1); learnlog::error(1); learnlog::critical(1);
    logger l2("n", il); logger l3("n", sink_shr_ptr()); logger l4("n");
    async_logger a2("n", il, std::weak_ptr<base::thread_pool>());
    async_logger a3("n", sink_shr_ptr(), std::weak_ptr<base::thread_pool>());
    std::vector<sink_shr_ptr> sv; async_logger a4("n", sv.begin(), sv.end(), std::weak_ptr<base::thread_pool>());
    r.flush_every(milliseconds(1)); learnlog::flush_every(milliseconds(1));
    r.initialize_thread_pool<base::lock_thread_pool>(1, 1);
    learnlog::initialize_thread_pool<base::lockfree_thread_pool>(1, 1);
    async_factory_lock::create<sinks::null_sink_mt>("n");
    async_factory_lockfree::create<sinks::null_sink_mt>("n");
    async_factory_lockfree_concurrent::create<sinks::null_sink_mt>("n");
    sync_factory::create<sinks::null_sink_mt>("n");
    learnlog::create<sinks::null_sink_mt>("n");
    learnlog::create_async_lock<sinks::null_sink_mt>("n");
    learnlog::create_async_lockfree<sinks::null_sink_mt>("n");
    learnlog::create_async_lockfree_concurrent<sinks::null_sink_mt>("n");
    using namespace base::fmt_base;
    append_int((int)1, b); append_int((unsigned)1, b); append_int((long)1, b); append_int((unsigned long)1, b);
    append_int((unsigned char)1, b); append_int((unsigned short)1, b); append_int((short)1, b);
    fill_uint((int)1, 1, b); fill_uint((unsigned)1, 1, b); fill_uint((long)1, 1, b); fill_uint((unsigned long)1, 1, b);
    fill_uint((unsigned char)1, 1, b); fill_uint((unsigned short)1, 1, b);
    count_unsigned_digits((int)1); count_unsigned_digits((unsigned)1); count_unsigned_digits((long)1);
    count_unsigned_digits((unsigned long)1); count_unsigned_digits((unsigned char)1); count_unsigned_digits((unsigned short)1);
    precise_time<milliseconds>(tp); precise_time<microseconds>(tp); precise_time<nanoseconds>(tp);
    sinks::spaces_info si; sinks::filler f(1, si, b);
    f.fill_msg(fmt_string_view("x")); f.fill_msg(1); f.fill_msg(1u); f.fill_msg(1L); f.fill_msg(1UL);
    base::os::in_terminal(nullptr);
    sinks::pattern_formatter pf(""); pf.add_custom_flag<Flag>('x', 1);
}
} }
// the functions that make loggers, called the way a user calls them
namespace learnlog { namespace vcinst {
inline logger_shr_ptr fac_basic_file_mt(const std::string& n, const filename_t& f, bool t) { return basic_file_logger_mt(n, f, t); }
inline logger_shr_ptr fac_basic_file_default_mt(const std::string& n, const filename_t& f) { return basic_file_logger_mt(n, f); }
inline logger_shr_ptr fac_basic_file_async_mt(const std::string& n, const filename_t& f, bool t) { return basic_file_logger_mt<async_factory_lock>(n, f, t); }
inline logger_shr_ptr fac_rolling_file_mt(const std::string& n, const filename_t& f, size_t a, size_t b) { return rolling_file_logger_mt(n, f, a, b); }
inline logger_shr_ptr fac_rolling_file_async_mt(const std::string& n, const filename_t& f, size_t a, size_t b) { return rolling_file_logger_mt<async_factory_lock>(n, f, a, b); }
inline logger_shr_ptr fac_stdout_mt(const std::string& n) { return stdout_logger_mt(n); }
inline logger_shr_ptr fac_stdout_async_mt(const std::string& n) { return stdout_logger_mt<async_factory_lock>(n); }
inline logger_shr_ptr fac_stderr_mt(const std::string& n) { return stderr_logger_mt(n); }
inline logger_shr_ptr fac_stderr_async_mt(const std::string& n) { return stderr_logger_mt<async_factory_lock>(n); }
inline logger_shr_ptr fac_stdout_color_mt(const std::string& n) { return stdout_color_logger_mt(n); }
inline logger_shr_ptr fac_stdout_color_async_mt(const std::string& n) { return stdout_color_logger_mt<async_factory_lock>(n); }
inline logger_shr_ptr fac_stderr_color_mt(const std::string& n) { return stderr_color_logger_mt(n); }
inline logger_shr_ptr fac_stderr_color_async_mt(const std::string& n) { return stderr_color_logger_mt<async_factory_lock>(n); }
inline logger_shr_ptr mk_basic_file_mt(const std::string& n, const filename_t& f, bool t) { return create<sinks::basic_file_sink_mt>(n, f, t); }
inline logger_shr_ptr mk_rolling_file_mt(const std::string& n, const filename_t& f, size_t a, size_t b) { return create<sinks::rolling_file_sink_mt>(n, f, a, b); }
inline logger_shr_ptr mk_ostream_mt(const std::string& n, std::ostream& o) { return create<sinks::ostream_sink_mt>(n, o); }
inline logger_shr_ptr mk_null_mt(const std::string& n) { return create<sinks::null_sink_mt>(n); }
inline logger_shr_ptr mk_stdout_mt(const std::string& n) { return create<sinks::stdout_sink_mt>(n); }
inline logger_shr_ptr mk_stderr_mt(const std::string& n) { return create<sinks::stderr_sink_mt>(n); }
inline logger_shr_ptr mk_stdout_color_mt(const std::string& n) { return create<sinks::stdout_color_sink_mt>(n); }
inline logger_shr_ptr mk_stderr_color_mt(const std::string& n) { return create<sinks::stderr_color_sink_mt>(n); }
inline logger_shr_ptr fac_basic_file_st(const std::string& n, const filename_t& f, bool t) { return basic_file_logger_st(n, f, t); }
inline logger_shr_ptr fac_basic_file_default_st(const std::string& n, const filename_t& f) { return basic_file_logger_st(n, f); }
inline logger_shr_ptr fac_basic_file_async_st(const std::string& n, const filename_t& f, bool t) { return basic_file_logger_st<async_factory_lock>(n, f, t); }
inline logger_shr_ptr fac_rolling_file_st(const std::string& n, const filename_t& f, size_t a, size_t b) { return rolling_file_logger_st(n, f, a, b); }
inline logger_shr_ptr fac_rolling_file_async_st(const std::string& n, const filename_t& f, size_t a, size_t b) { return rolling_file_logger_st<async_factory_lock>(n, f, a, b); }
inline logger_shr_ptr fac_stdout_st(const std::string& n) { return stdout_logger_st(n); }
inline logger_shr_ptr fac_stdout_async_st(const std::string& n) { return stdout_logger_st<async_factory_lock>(n); }
inline logger_shr_ptr fac_stderr_st(const std::string& n) { return stderr_logger_st(n); }
inline logger_shr_ptr fac_stderr_async_st(const std::string& n) { return stderr_logger_st<async_factory_lock>(n); }
inline logger_shr_ptr fac_stdout_color_st(const std::string& n) { return stdout_color_logger_st(n); }
inline logger_shr_ptr fac_stdout_color_async_st(const std::string& n) { return stdout_color_logger_st<async_factory_lock>(n); }
inline logger_shr_ptr fac_stderr_color_st(const std::string& n) { return stderr_color_logger_st(n); }
inline logger_shr_ptr fac_stderr_color_async_st(const std::string& n) { return stderr_color_logger_st<async_factory_lock>(n); }
inline logger_shr_ptr mk_basic_file_st(const std::string& n, const filename_t& f, bool t) { return create<sinks::basic_file_sink_st>(n, f, t); }
inline logger_shr_ptr mk_rolling_file_st(const std::string& n, const filename_t& f, size_t a, size_t b) { return create<sinks::rolling_file_sink_st>(n, f, a, b); }
inline logger_shr_ptr mk_ostream_st(const std::string& n, std::ostream& o) { return create<sinks::ostream_sink_st>(n, o); }
inline logger_shr_ptr mk_null_st(const std::string& n) { return create<sinks::null_sink_st>(n); }
inline logger_shr_ptr mk_stdout_st(const std::string& n) { return create<sinks::stdout_sink_st>(n); }
inline logger_shr_ptr mk_stderr_st(const std::string& n) { return create<sinks::stderr_sink_st>(n); }
inline logger_shr_ptr mk_stdout_color_st(const std::string& n) { return create<sinks::stdout_color_sink_st>(n); }
inline logger_shr_ptr mk_stderr_color_st(const std::string& n) { return create<sinks::stderr_color_sink_st>(n); }
} }
