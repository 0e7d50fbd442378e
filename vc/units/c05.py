"""C05: level gates, delivery to every sink, flushing."""
from units.loggers import *
from units.c04 import entry
from units.flags import enum_value

class SinkUnit(LogUnit):
    handle_kinds = LogUnit.handle_kinds
def sinks_of(ip, lg): return ip.c.read(lg, True).f['sinks_']
def delivered(ip, lg, spec, tr, what='delivery'):
    """each sink whose level allows it gets the message once, in order; no other sink gets it"""
    c = ip.c; s = sinks_of(ip, lg); L = spec.f['level']
    def got(k):
        def p(e):
            c.check(f'{what}: sinks get the message in order', e.args[0].t == z3.Select(s.a, k)); m = e.args[1]
            check_snap(ip, m, spec, f'{what}: the very same message')
        return p
    check_each(ip, only(tr, ('sink.log',)), f'{what}: exactly the sinks whose level allows it get the message, once each', I(0), s.n,
               lambda k: [(L >= SINK_LEVEL(z3.Select(s.a, k)), [('sink.log', got(k))]), (z3.Not(L >= SINK_LEVEL(z3.Select(s.a, k))), None)])
def flushed(ip, lg, tr, what='flush'):
    c = ip.c; s = sinks_of(ip, lg)
    check_each(ip, only(tr, ('sink.flush',)), f'{what}: every sink is flushed once', I(0), s.n,
               lambda k: [(TRUE, [('sink.flush', lambda e: c.check(f'{what}: sinks are flushed in order', e.args[0].t == z3.Select(s.a, k)))])])
def names(tr):
    out = []
    for e in tr:
        if isinstance(e, FE):
            for _, t in e.alts: out += names(t)
        else: out.append(e.name)
    return out
def flush_after(ip, tr, what):
    """no flush before or between the deliveries"""
    seen = False
    for e in tr:
        ns = names([e]) if not isinstance(e, FE) else names([e])
        if 'sink.flush' in ns and 'sink.log' in ns: ip.c.violated(what, 'flush inside the delivery loop', 'post'); return
        if 'sink.flush' in ns: seen = True
        if 'sink.log' in ns and seen: ip.c.violated(what, 'delivery after a flush', 'post'); return
def u_sink_log(cls, outcomes=2):
    def run(ip, u):
        c = ip.c; lg = fresh_logger(ip, cls=cls, **({'extra': u.extra} if getattr(u, 'extra', None) else {})); m, spec, hold = fresh_msg(ip, 'm')
        call(ip, cls, u.entry, lg, [m])
        tr = only(c.trace, ('sink.log', 'sink.flush')); delivered(ip, lg, spec, c.trace)
        c.check('the logger changes nothing of itself', z3.BoolVal(loops.same(c.read(lg, True).f['sinks_'], sinks_of(ip, lg))))
        fl = z3.And(spec.f['level'] >= z3.Int('lg_flush'), spec.f['level'] != LEVEL_OFF)
        if c.choose(fl): flushed(ip, lg, c.trace, 'flush level reached'); flush_after(ip, tr, 'sinks are flushed after all of them got the message')
        else: check_each(ip, only(c.trace, ('sink.flush',)), 'nothing is flushed below the flush level', I(0), I(0), lambda k: [(TRUE, None)])
        if not c.choose(fl): c.check('no flush', z3.BoolVal(not only(c.trace, ('sink.flush',))))
    return run
def u_flush(ip, u):
    c = ip.c; lg = fresh_logger(ip); call(ip, 'logger', 'flush', lg); flushed(ip, lg, c.trace)
def u_gate(ip, u):
    c = ip.c; lg = fresh_logger(ip); k, f, (nm, args, pred) = entry(ip, c)
    call(ip, 'logger', nm, lg, args, pred); tr = only(c.trace, ('sink_log_',))
    if only(c.trace, ('report',)): return
    out = c.choose(f['level'] >= z3.Int('lg_level'))
    c.check('output, once, iff the level is at least the logger\'s', z3.BoolVal(len(tr) == (1 if out else 0)))
    if out and tr:
        m = tr[0].args[0]; c.check('with its level', m.f['level'] == f['level'])
        if k < 3: c.check_text('with its text', m.f['msg'], sym_text('text'))
def fresh_sink(ip):
    cl = ip.ast.classes['sink']; c = ip.c; f = {}
    for fd in ip.fields_of(cl):
        t = norm(strip_cv(qt(fd)))
        if 'atomic<' in t: f[fd['name']] = Atomic(z3.Int('sl'), 'int'); c.assume(z3.And(z3.Int('sl') >= 0, z3.Int('sl') <= 6))
        else: raise Unsupported('field of sink')
    return root(ip, Obj('sink', f), 'sink')
def u_sink_levels(ip, u):
    c = ip.c; s = fresh_sink(ip); l = lvl(ip, 'l'); g = call(ip, 'sink', 'get_level', s)
    c.check('should_log compares with the level reported', call(ip, 'sink', 'should_log', s, [l]) == (l >= g))
    n = lvl(ip, 'n'); call(ip, 'sink', 'set_level', s, [n]); c.check('the level set is the level reported', call(ip, 'sink', 'get_level', s) == n)
    c.check('should_log compares with the level set', call(ip, 'sink', 'should_log', s, [l]) == (l >= n))
def u_levels(ip, u):
    c = ip.c; lg = fresh_logger(ip); n, m = lvl(ip, 'n'), lvl(ip, 'm'); call(ip, 'logger', 'set_log_level', lg, [n]); call(ip, 'logger', 'set_flush_level', lg, [m])
    c.check('log level getter agrees', call(ip, 'logger', 'get_log_level', lg) == n); c.check('flush level getter agrees', call(ip, 'logger', 'get_flush_level', lg) == m)
    a = root(ip, view_lv(ip, text_root(ip, 'text')), 'v'); l = lvl(ip, 'l'); call(ip, 'logger', 'log', lg, [l, a], lambda f: 'level' in f.params[0]['type']['qualType'] and 'string_view' in f.params[1]['type']['qualType'])
    c.check('the level set is the gate', z3.BoolVal(bool(only(c.trace, ('sink_log_',)))) == (l >= n))
def u_levels2(ip, u):
    c = ip.c; lg = fresh_logger(ip); m = lvl(ip, 'm'); call(ip, 'logger', 'set_flush_level', lg, [m]); g, spec, _ = fresh_msg(ip, 'm'); call(ip, 'logger', 'sink_log_', lg, [g])
    want = z3.And(spec.f['level'] >= m, spec.f['level'] != LEVEL_OFF)
    if c.choose(want): flushed(ip, lg, c.trace, 'the flush level set decides')
    else: c.check('the flush level set decides', z3.BoolVal(not only(c.trace, ('sink.flush',))))
def u_ctor(ip, u):
    """a new logger has the name and the sinks given, and the default settings"""
    c = ip.c; need_fields(ip, 'logger', LOGGER); k = c.choose_nd(3); nm = text_root(ip, 'name'); o = root(ip, Obj('logger', {}), 'lg'); ty = lambda f, i: qt(f.params[i])
    if k == 0: ctor(ip, 'logger', o, [nm], nparams=1, pred=lambda f: 'string' in ty(f, 0)); want = None
    elif k == 1:
        s = root(ip, Handle('sink', z3.Int('s')), 's'); c.assume(z3.Int('s') > 0); want = (z3.K(z3.IntSort(), z3.Int('s')), I(1))
        ctor(ip, 'logger', o, [nm, s], nparams=2, pred=lambda f: 'sink' in ty(f, 1) and 'list' not in ty(f, 1))
    else: arr = sink_array(ip, 'given'); hold = root(ip, arr, 'given'); want = (arr.a, arr.n); ctor(ip, 'logger', o, [nm, Iter(hold, I(0)), Iter(hold, arr.n)], nparams=3)
    f = c.read(o, True).f; c.check_text('it has the name given', f['name_'].r, sym_text('name')); c.check('it does not call itself asynchronous', z3.Not(ip.tobool(f['is_async_'])))
    c.check('it has the default levels', z3.And(f['log_level_'] == enum_value(ip, 'info', 'level_enum'), f['flush_level_'] == enum_value(ip, 'off', 'level_enum'))); c.check_text('it has the default pattern', f['pattern_'].r, rope('%+'))
    c.check('it keeps no backtrace', z3.BoolVal(isinstance(f['tracer_'], Ptr) and f['tracer_'].t is None)); a = f['sinks_']
    if want is None: c.check('it has no sinks', (a.n if isinstance(a, Arr) else I(0)) == 0)
    else: i = c.fresh_int('i', 0); c.check('it has the sinks given, in order', z3.And(a.n == want[1], Implies(i < a.n, z3.Select(a.a, i) == z3.Select(want[0], i))))
def u_getters(ip, u):
    c = ip.c; lg = fresh_logger(ip); f = c.read(lg, True).f; b = ip.tobool(f['is_async_'])
    c.check('is_async() tells the kind of the logger', ip.tobool(call(ip, 'logger', 'is_async', lg)) == b)
    for m in ip.ast.methods('logger::sinks'):
        r = call(ip, 'logger', 'sinks', lg, pred=lambda f: f is m); c.check('sinks() is the list the messages go to', z3.BoolVal(r == lg.sub(('f', 'sinks_'))))
def units():
    K = lambda n, f, r, **k: U(n, f, r, base=SinkUnit, **k)
    return [K('sink levels', ['sink::should_log', 'sink::set_level', 'sink::get_level'], u_sink_levels), K('logger levels', ['logger::set_log_level', 'logger::get_log_level', 'logger::set_flush_level', 'logger::get_flush_level'], u_levels, stubs=('sink_log_',)),
        K('logger: construct', ['logger::logger'], u_ctor), K('logger: getters', ['logger::is_async', 'logger::sinks'], u_getters),
        K('flush level', ['logger::set_flush_level', 'logger::sink_log_'], u_levels2),
        K('gate', ['logger::log', 'logger::log_', 'logger::do_log_'], u_gate, stubs=('sink_log_',)),
        K('deliver', ['logger::sink_log_', 'logger::flush_sink_'], u_sink_log('logger'), entry='sink_log_'), K('flush', ['logger::flush', 'logger::flush_sink_'], u_flush)]
