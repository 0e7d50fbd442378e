"""C06: what the caller logged is what the sinks are given."""
from units.loggers import *
LEVELS = ('trace', 'debug', 'info', 'warn', 'error', 'critical')

class RecUnit(LogUnit):
    def contract(self, cls, name):
        if cls is None and name.split('::')[-1] == 'get_default_logger': return lambda ip, this, args, n, dst: Ptr(ip.c.ghost['default'], 'shared')
        return LogUnit.contract(self, cls, name)
class TidUnit(LogUnit):
    def contract(self, cls, name): return None
    def static_value(self, ip, d): return None if d.get('tls') else ip.c.fresh_int('initialised_by_another_thread')
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        if name == 'syscall':
            k = S(ip.tonum(ip.rv(argnodes[0])))
            if is_const(k) and cval(k) == 186: return z3.Int('current_thread')
            raise Unsupported('system call')
        return LogUnit.lib_function(self, ip, name, decl, argnodes, n, dst)
def params(*ts): return lambda m: len(m.params) == len(ts) and all(re.search(t, p['type']['qualType']) for t, p in zip(ts, m.params))

def level_const(ip, nm):
    for i, v in ip.ast.enums.items():
        d = ip.ast.by_id.get(i)
        if d and d.get('name') == nm and 'level_enum' in d.get('type', {}).get('qualType', ''): return I(v)
    raise Unsupported(f'level {nm}')
def expect(ip, lg, f, loc, text, time, rendered_args=None):
    """one message with exactly these fields reached the sinks iff the level passed; nothing else happened"""
    c = ip.c; tr = only(c.trace, ('sink_log_',)); reps = only(c.trace, ('report',)); rend = only(c.trace, ('render', 'render_failed')); now = [e.args[0] for e in c.trace if e.name == 'now']
    on = c.choose(f['level'] >= z3.Int('lg_level'))
    if not on:
        c.check('a disabled call has no effect and renders nothing', z3.BoolVal(not tr and not reps and not rend)); return
    failed = [e for e in rend if e.name == 'render_failed']
    if failed:
        c.check('nothing is output when rendering fails', z3.BoolVal(not tr)); c.check('the failure is reported once', z3.BoolVal(len(reps) == 1))
        if reps: c.check_text('the report carries the error', reps[0].args[0], failed[0].args[0])
        return
    c.check('exactly one message is handed to the sinks, nothing reported', z3.BoolVal(len(tr) == 1 and not reps))
    if rendered_args is None: c.check('plain text is not rendered', z3.BoolVal(not rend))
    if not tr: return
    m = tr[0].args[0]
    c.check('the caller\'s level', m.f['level'] == f['level']); c.check_text('the logger\'s name', m.f['logger_name'], sym_text('lg_name')); c.check('the calling thread\'s id', m.f['tid'] == z3.Int('current_thread'))
    if time is not None: c.check('the caller\'s time', m.f['time'] == time)
    else: c.check('the current time', Or(*[m.f['time'] == t for t in now]) if now else FALSE)
    for k, v in m.f['loc'].f.items():
        if loc is None: c.check('no source location when none was given', v == 0 if z3.is_expr(v) else z3.BoolVal(v.src is None if isinstance(v, CharP) else v.t is None))
        else:
            w = loc.f[k]; c.check('the caller\'s source location', v == w if z3.is_expr(v) else z3.BoolVal(same_ptr(v, w)))
    c.check_text('the text', m.f['msg'], text)
def start(ip):
    c = ip.c; lg = fresh_logger(ip, tracer='none'); f = fresh_scalars(ip, 'x'); return c, lg, f, root(ip, f['loc'], 'loc')
def calls(ip, lg, free):
    """a call of a logger's member, or of the free function of the same name, which uses the default logger"""
    def member(name, args, sel): return call(ip, 'logger', name, lg, args, sel)
    def function(name, args, sel):
        ip.c.ghost['default'] = lg; fs = [f for f in ip.ast.byqual.get(name, []) if f.body is not None and sel(f)]
        if not fs: raise Unsupported(f'learnlog::{name} not found')
        return ip.run_func(fs[0], None, args)
    return function if free else member
def u_plain(ip, u, free=False):
    c, lg, f, loc = start(ip); call = lambda ip, cls, name, lg, args, sel: calls(ip, lg, free)(name, args, sel); a = text_root(ip, 'text'); v = root(ip, view_lv(ip, a), 'v'); k = 3 + c.choose_nd(2) if free else c.choose_nd(5)
    if k == 0: call(ip, 'logger', 'log', lg, [f['time'], loc, f['level'], v], params('time_point', 'source_loc', 'level', 'string_view$')); expect(ip, lg, f, f['loc'], sym_text('text'), f['time'])
    elif k == 1: call(ip, 'logger', 'log', lg, [loc, f['level'], v], params('source_loc', 'level', 'string_view$')); expect(ip, lg, f, f['loc'], sym_text('text'), None)
    elif k == 2: call(ip, 'logger', 'log', lg, [f['level'], v], params('level', 'string_view$')); expect(ip, lg, f, None, sym_text('text'), None)
    elif k == 3: call(ip, 'logger', 'log', lg, [f['level'], a], params('level', r'basic_string<char> &$')); expect(ip, lg, f, None, sym_text('text'), None)
    else:
        i = c.choose_nd(6); f['level'] = level_const(ip, LEVELS[i]); call(ip, 'logger', LEVELS[i], lg, [a], params(r'basic_string<char> &$')); expect(ip, lg, f, None, sym_text('text'), None)
def u_rendered(ip, u, free=False, two=False):
    c, lg, f, loc = start(ip); call = lambda ip, cls, name, lg, args, sel: calls(ip, lg, free)(name, args, sel); a = text_root(ip, 'fmt'); v = root(ip, view_lv(ip, a), 'v'); x = root(ip, z3.Int('arg'), 'arg'); k = c.choose_nd(3 if two else 6)
    xs, vals = ([x, root(ip, z3.Int('arg2'), 'arg2')], [z3.Int('arg'), z3.Int('arg2')]) if two else ([x], [z3.Int('arg')])
    R = sym_text('rendered', ip.lib.text_id(ip, sym_text('fmt')), *vals); B = sym_text('rendered', ip.lib.text_id(ip, rope('{}')), z3.Int('arg'))
    ft, ps = ('format_string<int, int>', ('int', 'int')) if two else ('format_string<int>', ('int',))
    def level(): f['level'] = level_const(ip, LEVELS[i]); return LEVELS[i]
    if k == 0: call(ip, 'logger', 'log', lg, [loc, f['level'], v, *xs], params('source_loc', 'level', ft, *ps)); expect(ip, lg, f, f['loc'], R, None, True)
    elif k == 1: call(ip, 'logger', 'log', lg, [f['level'], v, *xs], params('level', ft, *ps)); expect(ip, lg, f, None, R, None, True)
    elif k == 2: i = c.choose_nd(6); call(ip, 'logger', level(), lg, [v, *xs], params(ft, *ps)); expect(ip, lg, f, None, R, None, True)
    elif k == 3: call(ip, 'logger', 'log', lg, [loc, f['level'], x], params('source_loc', 'level', '^const int &')); expect(ip, lg, f, f['loc'], B, None, True)
    elif k == 4: call(ip, 'logger', 'log', lg, [f['level'], x], params('level', '^const int &')); expect(ip, lg, f, None, B, None, True)
    else: i = c.choose_nd(6); call(ip, 'logger', level(), lg, [x], params('^const int &')); expect(ip, lg, f, None, B, None, True)
def u_with_trace(ip, u):
    """a disabled call on a logger whose backtrace is off"""
    c = ip.c; lg = fresh_logger(ip, tracer='some'); t = ip.c.read(lg, True).f['tracer_'].t; mut, ring, en = bt_fields(ip); c.assume(z3.Not(z3.Bool('lg_tr_on')))
    f = fresh_scalars(ip, 'x'); a = text_root(ip, 'fmt'); v = root(ip, view_lv(ip, a), 'v'); x = root(ip, z3.Int('arg'), 'arg')
    call(ip, 'logger', 'log', lg, [f['level'], v, x], params('level', 'format_string<int>', 'int')); expect(ip, lg, f, None, sym_text('rendered', ip.lib.text_id(ip, sym_text('fmt')), z3.Int('arg')), None, True)
def u_tid(ip, u):
    ip.c.assume(z3.And(z3.Int('current_thread') >= 1, z3.Int('current_thread') < 2 ** 31)); fs = ip.ast.byqual.get('os::thread_id', []); f = ip.ast.definition(fs[0].node['id']) if fs else None
    if f is None: raise Unsupported('os::thread_id not found')
    ip.c.check('every thread sees its own id', ip.val(ip.run_func(f, None, [])) == z3.Int('current_thread'))
def u_literal_kept(ip, u):
    """braces of a plain text are not interpreted: no rendering happens on any plain overload (all texts, braces included)"""
    u_plain(ip, u)
def units():
    K = lambda n, f, r, **k: U(n, f, r, base=k.pop('b', RecUnit), **k)
    fs = ['logger::log', 'logger::log_', 'logger::do_log_'] + ['logger::' + l for l in LEVELS] + ['log_msg::log_msg']
    return [K('plain text', fs, u_plain, stubs=('sink_log_',)), K('rendered text', fs, u_rendered, stubs=('sink_log_',)), K('two arguments', fs, lambda ip, u: u_rendered(ip, u, two=True), stubs=('sink_log_',)),
            K('default logger: plain text', ['learnlog::log'] + ['learnlog::' + l for l in LEVELS], lambda ip, u: u_plain(ip, u, True), stubs=('sink_log_',)), K('default logger: rendered text', [], lambda ip, u: u_rendered(ip, u, True), stubs=('sink_log_',)), K('default logger: two arguments', [], lambda ip, u: u_rendered(ip, u, True, True), stubs=('sink_log_',)), K('recorder off', fs, u_with_trace, stubs=('sink_log_',)), K('thread id', ['os::thread_id', 'os::_thread_id'], u_tid, b=TidUnit)]
