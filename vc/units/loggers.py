"""Logger objects under contract: shared by C04, C05, C06, C11, C20, C24."""
from units.common import *
import units.c03 as c03
SINK_LEVEL = z3.Function('sink_level', z3.IntSort(), z3.IntSort())
LEVEL_OFF = 6

class LogUnit(c03.MsgUnit):
    """sinks are abstract: should_log compares levels (proved for sink::should_log), log and flush may throw a standard exception"""
    handle_kinds = frozenset(['async_logger', 'promise', 'sink', 'formatter', 'pattern_formatter', 'log_msg_buf', 'thread_pool'])
    value_kinds = frozenset(['log_msg_buf'])
    stubs = ()                 # methods of the logger replaced by their contract (an event)
    outcomes = 2               # normal, standard exception, other exception
    def contract(self, cls, name):
        if cls is None:
            if name.endswith('handle_excpt'): return c_report
            return c03.MsgUnit.contract(self, cls, name)
        if name in self.stubs: return lambda ip, this, args, n, dst: ip.c.trace.append(Ev(name, *[snap(ip, a) for a in args]))
    def handle_contract(self, kind, name):
        if kind == 'sink':
            if name == 'should_log': return lambda ip, h, args, n, dst: S(ip.tonum(ip.val(args[0])) >= SINK_LEVEL(h.t))
            if name in ('log', 'flush', 'set_formatter', 'set_pattern'): return lambda ip, h, args, n, dst: c_sink(ip, self, h, name, args)
    def on_access(self, c, lv, mode):
        g = c.ghost.get('guarded')
        if g and isinstance(lv, LV) and lv.path and lv.path[0][0] == 'f':
            r, fields, mutex = g
            if lv.root == r and lv.path[0][1] in fields and mutex not in c.locks: c.violated('the recorder\'s state is touched only under its lock', f'{lv.path[0][1]} ({mode})')
    def abstract_ctor(self, ip, t):
        if t == 'log_msg_buf': return c_buf
        if t.startswith('circular_queue<log_msg_buf>'): return c_ring
    def to_elem(self, ip, y, kind): return y if isinstance(y, Handle) else Unit.to_elem(self, ip, y, kind)
    # formatting through fmt: the rendered text is an unknown function of the format text and the arguments, or a standard exception
    def lib_construct(self, ip, t, args, ctype):
        if t in ('fmt::appender', 'fmt::basic_appender<char>', 'appender') or t.startswith('std::back_insert_iterator<'):
            v = ip.val(args[0]); return v if isinstance(v, Opaque) else Opaque('appender', out=args[0])
        if 'format_args' in t and args: return ip.val(args[0])
        return c03.MsgUnit.lib_construct(self, ip, t, args, ctype)
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        c = ip.c
        if name == 'make_format_args': return Opaque('fmtargs', args=[rid(ip, x) for x in ip.argv(argnodes)])
        if name == 'vformat_to':
            out, f, a = [ip.val(x) for x in ip.argv(argnodes)][:3]
            if not (isinstance(out, Opaque) and out.fam == 'appender' and isinstance(a, Opaque) and a.fam == 'fmtargs'): raise Unsupported('vformat_to')
            c.trace.append(Ev('render')); fail_render(ip)
            b = c.read(out.kw['out'], True); t = rendered(ip, text_of(ip, f), a.kw['args']); c.assume(z3.And(t.len() >= 0, t.len() < 2 ** 31)); c.write(out.kw['out'], Str(b.r + t, b.fam, c.newgen())); return out
        if name == 'vformat':
            f, a = [ip.val(x) for x in ip.argv(argnodes)][:2]
            if not (isinstance(a, Opaque) and a.fam == 'fmtargs'): raise Unsupported('vformat')
            c.trace.append(Ev('render')); fail_render(ip); t = rendered(ip, text_of(ip, f), a.kw['args']); c.assume(z3.And(t.len() >= 0, t.len() < 2 ** 31)); return Str(Rope([t]) if not isinstance(t, Rope) else t, 'string', c.newgen())
        if name == 'back_inserter': return Opaque('appender', out=ip.glv(argnodes[0]))
        return NotImplemented

def snap(ip, a):
    """value of an argument at the time of the call"""
    if isinstance(a, LV):
        v = ip.c.read(a, True)
        return snapmsg(ip, v) if isinstance(v, Obj) and v.cls in ('log_msg', 'log_msg_buf', 'async_msg') else v
    return a
def snapmsg(ip, o):
    """a message with its texts read out (reading checks that they are alive)"""
    f = dict(o.f); f['logger_name'] = text_of(ip, f['logger_name']); f['msg'] = text_of(ip, f['msg']); f.pop('buf_', None); f.pop('color_index_start', 0); f.pop('color_index_end', 0)
    return Obj(o.cls, f)
def c_report(ip, this, args, n, dst):
    ip.c.trace.append(Ev('report', text_of(ip, args[0])))
def fail(ip, u, ok_first=True):
    k = ip.c.choose_nd(u.outcomes)
    if k == 1:
        t = ip.c.fresh_text('what'); ip.c.assume(t.len() >= 0); ip.c.trace.append(Ev('thrown', t)); raise CppThrow(Exc('std', t))
    if k == 2: ip.c.trace.append(Ev('thrown_other')); raise CppThrow(Exc('other', None, 'other'))
def c_sink(ip, u, h, name, args):
    ip.c.trace.append(Ev('sink.' + name, h, *[snap(ip, a) for a in args]))
    for a in args:
        v = ip.val(a)
        if name == 'set_formatter' and isinstance(a, LV) and isinstance(v, (Handle, Ptr)): ip.c.write(a, ip.lib.moved(ip, v))
    if u.outcomes > 1 and name in ('log', 'flush'): fail(ip, u)
def rid(ip, x):
    v = ip.val(x)
    if z3.is_expr(v): return v
    if isinstance(v, (Str, View, CharP)): return ip.lib.text_id(ip, text_of(ip, v))
    if isinstance(v, Handle): return v.t
    raise Unsupported(f'argument {v} of a rendered message')
def rendered(ip, fmt, args):
    return sym_text('rendered', ip.lib.text_id(ip, fmt), *args)
def fail_render(ip):
    if ip.c.choose_nd(2):
        t = ip.c.fresh_text('render_error'); ip.c.assume(t.len() >= 0); ip.c.trace.append(Ev('render_failed', t)); raise CppThrow(Exc('std', t))
def c_buf(ip, args, ctype):
    """a buffered message represents the message it is made from (contract proved for C03)"""
    c = ip.c
    if not args: return Handle('log_msg_buf', c.fresh_int('defbuf'))
    v = ip.c.read(args[0], True)
    if isinstance(v, Handle):
        if '&&' in (ctype or ''): ip.c.write(args[0], Handle('log_msg_buf', c.fresh_int('movedfrom')))
        return v
    if isinstance(v, Obj):
        k = c.fresh_int('buf'); c.ghost['bufs'] = dict(c.ghost.get('bufs', {}), **{str(k): snapmsg(ip, v)}); return Handle('log_msg_buf', k)
    raise Unsupported('buffered message')
def c_ring(ip, args, ctype):
    c = ip.c
    if len(args) == 1 and z3.is_expr(ip.val(args[0])):
        n = ip.val(args[0]); return Ring(z3.K(z3.IntSort(), I(0)), I(0), I(0), n, I(0), 'log_msg_buf')
    if not args: return Ring(z3.K(z3.IntSort(), I(0)), I(0), I(0), I(0), I(0), 'log_msg_buf')
    v = c.read(args[0], True)
    if '&&' in (ctype or ''): c.write(args[0], v.moved(c))
    return v

LOGGER = ('name_', 'sinks_', 'tracer_', 'log_level_', 'flush_level_', 'pattern_', 'is_async_')
def lvl(ip, nm):
    t = z3.Int(nm); ip.c.assume(z3.And(t >= 0, t <= LEVEL_OFF)); return t
def sink_array(ip, nm='sinks'):
    c = ip.c; a = z3.Array(nm + '_a', z3.IntSort(), z3.IntSort()); n = z3.Int(nm + '_n'); c.assume(z3.And(n >= 0, n < 2 ** 40))
    q = z3.Int('qs'); c.assume(z3.ForAll([q], Implies(z3.And(0 <= q, q < n), z3.Select(a, q) > 0))); return Arr(a, n, 'sink')
def fresh_logger(ip, nm='lg', tracer='none', cls='logger', extra=None):
    c = ip.c; need_fields(ip, 'logger', LOGGER)
    s = lambda x: Str(sym_text(f'{nm}_{x}'), 'string', c.newgen())
    for x in ('name', 'pattern'): c.assume(z3.And(sym_text(f'{nm}_{x}').len() >= 0, sym_text(f'{nm}_{x}').len() < 2 ** 31))
    f = dict(name_=s('name'), sinks_=sink_array(ip, nm + '_sinks'), tracer_=Ptr(None, 'shared'), log_level_=lvl(ip, nm + '_level'), flush_level_=lvl(ip, nm + '_flush'), pattern_=s('pattern'), is_async_=z3.BoolVal(cls != 'logger'))
    if tracer == 'any' and c.choose_nd(2): tracer = 'some'
    if tracer == 'some': f['tracer_'] = Ptr(fresh_tracer(ip, nm + '_tr'), 'shared')
    f.update(extra or {})
    return root(ip, Obj(cls, f), nm)
BT = 'backtracer'
def bt_fields(ip):
    mut = ring = en = None
    for fd in ip.fields_of(ip.ast.classes[BT]):
        t = norm(strip_cv(qt(fd))).replace('mutable ', '')
        if t == 'std::mutex': mut = fd['name']
        elif t.startswith('circular_queue<'): ring = fd['name']
        elif t == 'bool': en = fd['name']
        else: raise Unsupported(f'field {fd["name"]} of backtracer')
    if not (mut and ring and en): raise Unsupported('representation of backtracer changed')
    return mut, ring, en
def fresh_tracer(ip, nm='tr', guard=False):
    c = ip.c; mut, ring, en = bt_fields(ip)
    lv = root(ip, Obj(BT, {mut: Opaque('std::mutex'), ring: fresh_ring(c, 'log_msg_buf', nm), en: z3.Bool(nm + '_on')}), nm)
    if guard: c.ghost['guarded'] = (lv.root, (ring, en), lv.sub(('f', mut)))
    return lv
class TV:
    def __init__(self, ip, lv):
        mut, ring, en = bt_fields(ip); o = ip.c.read(lv, True); self.ring = o.f[ring]; self.on = ip.tobool(o.f[en]); self.mutex = lv.sub(('f', mut))
def same_items(c, what, r, s):
    i = c.fresh_int('i', 0)
    c.check(what, z3.And(r.cap == s.cap, r.hi - r.lo == s.hi - s.lo, Implies(i < s.hi - s.lo, z3.Select(r.a, r.lo + i) == z3.Select(s.a, s.lo + i))))

# ---------------------------------------------------------------- events
def only(tr, names):
    """the events of the given names, loops kept when they contain one"""
    out = []
    for e in tr:
        if isinstance(e, FE):
            alts = [(a, only(t, names)) for a, t in e.alts]
            if any(t for _, t in alts): out.append(FE(e.k, e.lo, e.hi, alts))
        elif e.name in names: out.append(e)
    return out
def check_each(ip, tr, what, lo, hi, spec):
    """the trace is exactly one loop over [lo,hi) where iteration k emits what spec(k) lists: [(condition, predicate on the event list)]; or is empty because the range is empty"""
    c = ip.c; loops_ = [e for e in tr if isinstance(e, FE)]
    if not tr:      # loop that never ran, or no loop: the range must be empty or nothing expected
        k = c.fresh_int('k'); conds = [cd for cd, exp in spec(k) if exp is not None]
        c.check(what, Implies(z3.And(lo <= k, k < hi), z3.Not(Or(*conds)) if conds else TRUE)); return
    if len(tr) != 1 and len(loops_) == 1 and len(spec(c.fresh_int('k'))) == 1: return check_peeled(ip, tr, what, lo, hi, spec)
    if len(tr) != 1 or not loops_: 
        return check_listed(ip, tr, what, lo, hi, spec)
    fe = loops_[0]
    c.check(f'{what} (every one, none skipped)', z3.And(fe.lo == lo, fe.hi == hi) if not c.prove(lo == hi) else fe.hi <= fe.lo)
    k = c.fresh_int('k'); s0 = c.save(); c.solver.push(); c.assume(z3.And(lo <= k, k < hi))
    try:
        for a, t in fe.alts:
            for cd, exp in spec(k):
                s1 = c.save(); c.solver.push(); c.assume(z3.And(subst_term(a, fe.k, k), cd))
                try:
                    if not c.feasible(TRUE): continue
                    evs = [loops.subst_ev(e, fe.k, k) for e in t]
                    match_events(ip, evs, exp, what)
                except PathEnd: pass
                finally: c.solver.pop(); c.restore(s1)
    finally: c.solver.pop(); c.restore(s0)
def check_peeled(ip, tr, what, lo, hi, spec):
    """first or last iterations written outside the loop"""
    c = ip.c; at = [i for i, e in enumerate(tr) if isinstance(e, FE)][0]; fe = tr[at]; m = len(spec(lo)[0][1] or [])
    if not m or at % m or (len(tr) - at - 1) % m or not z3.is_true(S(spec(lo)[0][0])): raise Unsupported(f'{what}: mixed loops')
    pre, post = at // m, (len(tr) - at - 1) // m
    c.check(f'{what} (every one, none skipped)', z3.And(fe.hi - fe.lo + pre + post == hi - lo, fe.lo <= fe.hi))
    for i in range(pre): match_events(ip, tr[i * m:i * m + m], spec(S(lo + i))[0][1], what)
    for i in range(post): match_events(ip, tr[at + 1 + i * m:at + 1 + i * m + m], spec(S(hi - post + i))[0][1], what)
    k = c.fresh_int('k'); s0 = c.save(); c.solver.push(); c.assume(z3.And(fe.lo <= k, k < fe.hi))
    try:
        for a, t in fe.alts:
            s1 = c.save(); c.solver.push(); c.assume(subst_term(a, fe.k, k))
            try:
                if c.feasible(TRUE): match_events(ip, [loops.subst_ev(e, fe.k, k) for e in t], spec(S(lo + pre + k - fe.lo))[0][1], what)
            except PathEnd: pass
            finally: c.solver.pop(); c.restore(s1)
    finally: c.solver.pop(); c.restore(s0)
def check_listed(ip, tr, what, lo, hi, spec):
    """events of an unrolled loop"""
    c = ip.c; 
    if any(isinstance(e, FE) for e in tr): raise Unsupported(f'{what}: mixed loops')
    i = 0; k = 0
    while True:
        if not c.choose(z3.And(lo + k < hi)): break
        k0 = S(lo + k)
        for cd, exp in spec(k0):
            if exp is None: 
                if c.choose(cd): break
                continue
            if c.choose(cd):
                match_events(ip, tr[i:i + len(exp)], exp, what); i += len(exp); break
        k += 1
        if k > 40: raise Unsupported('too many')
    c.check(f'{what} (nothing more)', z3.BoolVal(i == len(tr)))
def match_events(ip, evs, exp, what):
    exp = exp or []
    if len(evs) != len(exp) or any(e.name != x[0] for e, x in zip(evs, exp)):
        ip.c.violated(what, f'got {[str(e)[:80] for e in evs]}, expected {[x[0] for x in exp]}', 'post'); return
    for e, x in zip(evs, exp):
        if x[1] is not None: x[1](e)
def check_snap(ip, o, spec, what):
    """a recorded message reports spec"""
    c = ip.c
    if not isinstance(o, Obj): raise Unsupported(f'message {o}')
    c.check_text(f'{what}: logger name', o.f['logger_name'], spec.name); c.check_text(f'{what}: text', o.f['msg'], spec.msg); check_fields(ip, o, spec, what)
