"""C04: the recorder (backtracer) and its use by the logger."""
from units.loggers import *

class BTUnit(LogUnit):
    outcomes = 1; throws = True
    def call_object(self, ip, f, args):
        if not (isinstance(f, Opaque) and f.fam == 'consumer'): return NotImplemented
        v = ip.val(args[0]); ip.c.trace.append(Ev('consumed', v))
        if f.kw.get('throws') and ip.c.choose_nd(2): raise CppThrow(Exc('std', None))
        return None

def done(ip):
    ip.c.check('the recorder\'s lock is released', z3.BoolVal(not ip.c.locks))
def u_is_enabled(ip, u):
    c = ip.c; t = fresh_tracer(ip, guard=True); o = TV(ip, t); r = call(ip, BT, 'is_enabled', t); done(ip)
    c.check('reports whether it is on', r == o.on); n = TV(ip, t); same_items(c, 'changes nothing', n.ring, o.ring)
def u_enable(ip, u):
    c = ip.c; t = fresh_tracer(ip, guard=True); n = z3.Int('n'); c.assume(z3.And(n >= 1, n < 2 ** 40)); call(ip, BT, 'enable_with_size', t, [n]); done(ip); v = TV(ip, t)
    c.check('it is on', v.on); c.check('it starts empty with room for n messages', z3.And(v.ring.cap == n, v.ring.hi == v.ring.lo))
def u_disable(ip, u):
    c = ip.c; t = fresh_tracer(ip, guard=True); call(ip, BT, 'disable', t); done(ip); v = TV(ip, t)
    c.check('it is off', z3.Not(v.on)); c.check('nothing stays remembered', v.ring.hi == v.ring.lo)
def u_push(ip, u):
    c = ip.c; t = fresh_tracer(ip, guard=True); o = TV(ip, t); c.assume(o.ring.cap >= 1); m, spec, hold = fresh_msg(ip); call(ip, BT, 'push_back', t, [m]); done(ip); v = TV(ip, t)
    full = o.ring.hi - o.ring.lo == o.ring.cap; i = c.fresh_int('i', 0); n = v.ring.hi - v.ring.lo; sh = z3.If(full, 1, 0)
    c.check('one more is remembered, at most n', n == z3.If(full, o.ring.hi - o.ring.lo, o.ring.hi - o.ring.lo + 1)); c.check('capacity and state kept', z3.And(v.ring.cap == o.ring.cap, v.on == o.on))
    c.check('the others stay, in order', Implies(i < n - 1, z3.Select(v.ring.a, v.ring.lo + i) == z3.Select(o.ring.a, o.ring.lo + i + sh)))
    last = S(z3.Select(v.ring.a, v.ring.hi - 1)); b = c.ghost.get('bufs', {})
    hit = [k for k in b if c.prove(z3.Int(k) == last)]
    c.check('the new one is a buffered copy of the message', z3.BoolVal(bool(hit)))
    if hit: check_snap(ip, b[hit[0]], spec, 'remembered message')
def u_foreach(throws):
    def run(ip, u):
        c = ip.c; t = fresh_tracer(ip, guard=True); o = TV(ip, t)
        f = root(ip, Opaque('consumer', throws=throws), 'func')
        try: call(ip, BT, 'foreach_do', t, [f]); thrown = False
        except CppThrow: thrown = True
        done(ip); v = TV(ip, t)
        if thrown: return
        c.check('afterwards nothing is remembered', v.ring.hi == v.ring.lo); c.check('it stays on or off', v.on == o.on); c.check('it still has room for n messages', v.ring.cap == o.ring.cap)
        check_each(ip, only(c.trace, ('consumed',)), 'each remembered message is handed out once, oldest first', I(0), o.ring.hi - o.ring.lo,
                   lambda k: [(TRUE, [('consumed', lambda e: c.check('messages in order, oldest first', e.args[0].t == z3.Select(o.ring.a, o.ring.lo + k)))])])
    return run
def is_mv(f): return '&&' in f.type
def u_copy(kind):
    def run(ip, u):
        c = ip.c; s = fresh_tracer(ip, 's', guard=True); o = TV(ip, s)
        d = root(ip, Obj(BT, {}), 'd') if kind != 'assign' else fresh_tracer(ip, 'd')
        if kind == 'assign': ip.run_func(find(ip, BT, 'operator=', lambda f: not is_mv(f)), d, [s])
        else: ctor(ip, BT, d, [s], lambda f: is_mv(f) == (kind == 'move'), 1)
        done(ip); v = TV(ip, d); same_items(c, f'{kind}: same messages', v.ring, o.ring); c.check(f'{kind}: same state', v.on == o.on)
        if kind != 'move': w = TV(ip, s); same_items(c, f'{kind}: source unchanged', w.ring, o.ring); c.check(f'{kind}: source state unchanged', w.on == o.on)
    return run
# ---- the logger
def tracer_of(ip, lg):
    p = ip.c.read(lg, True).f['tracer_']
    return p.t if isinstance(p, Ptr) else None
def u_lg_enable(ip, u):
    c = ip.c; lg = fresh_logger(ip, tracer='any'); n = z3.Int('n'); c.assume(z3.And(n >= 1, n < 2 ** 40)); call(ip, 'logger', 'enable_backtrace_n', lg, [n]); t = tracer_of(ip, lg)
    c.check('a recorder exists', z3.BoolVal(t is not None))
    if t is not None: v = TV(ip, t); c.check('backtrace is on, empty, with the new size', z3.And(v.on, v.ring.cap == n, v.ring.hi == v.ring.lo))
def u_lg_disable(ip, u):
    c = ip.c; lg = fresh_logger(ip, tracer='any'); call(ip, 'logger', 'disable_backtrace', lg); t = tracer_of(ip, lg)
    if t is not None: v = TV(ip, t); c.check('backtrace is off and empty', z3.And(z3.Not(v.on), v.ring.hi == v.ring.lo))
    else: c.check('switching off a recorder that never was on is harmless', TRUE)
START, END = '*********************** Backtrace Start ***********************', '************************ Backtrace End ************************'
def u_lg_dump(ip, u):
    c = ip.c; lg = fresh_logger(ip, tracer='any'); t = tracer_of(ip, lg); o = TV(ip, t) if t else None
    call(ip, 'logger', 'dump_backtrace', lg); tr = only(c.trace, ('sink_log_',)); c.check('locks released', z3.BoolVal(not c.locks))
    if o is None or not c.choose(o.on): c.check('nothing is output when backtrace is off', z3.BoolVal(not tr)); return
    def banner(e, word, what):
        m = e.args[0]; ok = isinstance(m, Obj)
        c.check(f'{what} banner is a message of this logger', z3.BoolVal(ok))
        if ok:
            s = text_of(ip, m.f['msg']).concrete(); c.check(f'{what} banner announces the {what}', z3.BoolVal(s is not None and word in s)); c.check_text(f'{what} banner carries the logger name', m.f['logger_name'], sym_text('lg_name'))
    n = len(tr); c.check('a start banner, the messages, an end banner', z3.BoolVal(n >= 2 and not isinstance(tr[0], FE) and not isinstance(tr[-1], FE)))
    if n < 2 or isinstance(tr[0], FE) or isinstance(tr[-1], FE): return
    banner(tr[0], 'Start', 'start'); banner(tr[-1], 'End', 'end')
    check_each(ip, tr[1:-1], 'each remembered message is output once, oldest first', I(0), o.ring.hi - o.ring.lo,
               lambda k: [(TRUE, [('sink_log_', lambda e: c.check('the remembered message itself is output', z3.BoolVal(isinstance(e.args[0], Handle)) if not isinstance(e.args[0], Handle) else e.args[0].t == z3.Select(o.ring.a, o.ring.lo + k)))])])
    v = TV(ip, t); c.check('afterwards nothing is remembered', v.ring.hi == v.ring.lo); c.check('backtrace stays on', v.on)
def entry(ip, c):
    """one of the entry points of logging, with the expected message"""
    k = c.choose_nd(4); f = fresh_scalars(ip, 'x'); a = text_root(ip, 'text'); v = root(ip, view_lv(ip, a), 'v'); loc = root(ip, f['loc'], 'loc')
    P = lambda *ts: (lambda m: len(m.params) == len(ts) and all(re.search(t, p['type']['qualType']) for t, p in zip(ts, m.params)))
    return k, f, [('log', [f['time'], loc, f['level'], v], P('time_point', 'source_loc', 'level', 'string_view$')), ('log', [loc, f['level'], v], P('source_loc', 'level', 'string_view$')), ('log', [f['level'], v], P('level', 'string_view$')),
        ('log_', [loc, f['level'], v, root(ip, z3.Int('arg'), 'arg')], P('source_loc', 'level', 'string_view$', 'int'))][k]
def u_lg_log(ip, u):
    c = ip.c; lg = fresh_logger(ip, tracer='any'); t = tracer_of(ip, lg); o = TV(ip, t) if t else None
    if o: c.assume(Implies(o.on, o.ring.cap >= 1))
    k, f, (nm, args, pred) = entry(ip, c)
    call(ip, 'logger', nm, lg, args, pred); tr = only(c.trace, ('sink_log_',)); reps = only(c.trace, ('report',))
    if reps: return            # rendering failed: C06
    out = c.choose(f['level'] >= z3.Int('lg_level'))
    c.check('output iff the level is at least the logger\'s', z3.BoolVal(len(tr) == (1 if out else 0)))
    if not o: return
    v = TV(ip, t)
    if not c.choose(o.on): same_items(c, 'nothing is remembered while backtrace is off', v.ring, o.ring); return
    last = S(z3.Select(v.ring.a, v.ring.hi - 1)); b = c.ghost.get('bufs', {}); hit = [x for x in b if c.prove(z3.Int(x) == last)]
    c.check('exactly one message is remembered, whatever its level', z3.And(v.ring.hi - o.ring.hi == 1, z3.BoolVal(bool(hit) and len(b) == 1)))
    if hit:
        m = b[hit[0]]; c.check('remembered with its level', m.f['level'] == f['level']); c.check_text('remembered with the logger\'s name', m.f['logger_name'], sym_text('lg_name'))
        if k < 3: c.check_text('remembered with its text', m.f['msg'], sym_text('text'))
        if tr: c.check_text('the text output is the text remembered', m.f['msg'], tr[0].args[0].f['msg'])
        if k == 0: c.check('remembered with its time', m.f['time'] == f['time'])
def units():
    K = lambda n, f, r, **k: U(n, [f], r, base=BTUnit, **k)
    return [K('recorder: is_enabled', 'backtracer::is_enabled', u_is_enabled), K('recorder: enable', 'backtracer::enable_with_size', u_enable), K('recorder: disable', 'backtracer::disable', u_disable), K('recorder: push', 'backtracer::push_back', u_push),
        K('recorder: hand out', 'backtracer::foreach_do', u_foreach(False)), K('recorder: hand out to a failing consumer', 'backtracer::foreach_do', u_foreach(True)),
        K('recorder: copy', 'backtracer::backtracer', u_copy('copy')), K('recorder: move', 'backtracer::backtracer', u_copy('move')), K('recorder: assign', 'backtracer::operator=', u_copy('assign')),
        K('logger: enable backtrace', 'logger::enable_backtrace_n', u_lg_enable), K('logger: disable backtrace', 'logger::disable_backtrace', u_lg_disable),
        K('logger: dump', 'logger::dump_backtrace', u_lg_dump, stubs=('sink_log_',)), K('logger: remember', 'logger::log', u_lg_log, stubs=('sink_log_',))]
