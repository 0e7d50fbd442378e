"""C15: each sink writes exactly the bytes its formatter produced, once, to its own stream; colour codes only wrap the marked range."""
from units.sinks import *
from units.c16 import invoke, flatten, ShareUnit
TEXT = lambda: sym_text(FMT, I(1))
def joined(es):
    r = Rope()
    for e in es: r = r + e.args[1]
    return r
def only_formatted(ip, c, m, fm):
    fe = [e for e in c.trace if isinstance(e, Ev) and e.name == 'format']; c.check('the message is formatted once', z3.BoolVal(len(fe) == 1))
    if fe: c.check('the message itself is formatted', z3.BoolVal(fe[0].args[1] == m)); c.check('by the formatter of the sink', fe[0].args[0] == fm)
    return bool(fe)
def failed_inside(c): return any(e.name in ('thrown', 'thrown_other') for e in c.trace if isinstance(e, Ev))
def start(ip, cls, over=None):
    c = ip.c; s = the_sink(ip, cls, over); m, spec, hold = fresh_msg(ip, 'm'); before = c.read(s, True); c.trace.clear(); exc = outcome(lambda: invoke(ip, cls, 'log', s, [m])); return s, m, spec, before, exc
def u_std(ip, u):
    c = ip.c; s, m, spec, o, exc = start(ip, u.cls); fm = c.read(formatter_of(ip, s), True).t
    if not only_formatted(ip, c, m, fm): return
    w = [e for e in c.trace if isinstance(e, Ev) and e.name == 'fwrite']
    for e in w: c.check('it writes to its own stream', e.args[0] == o.f['file_'].t)
    if failed_inside(c): c.check('nothing is written when formatting fails', z3.BoolVal(not w and exc is not None)); return
    rg = c.ghost.get('range'); full = TEXT()
    short = Or(*[e.args[2] != e.args[1].len() for e in w])
    if 'is_color_enabled_' in o.f and rg and c.choose(z3.And(ip.tobool(o.f['is_color_enabled_']), rg[1] > rg[0])):
        x, y = rg; lv = spec.f['level']; cols = o.f['level_colors_'].els; col = None
        for i in range(len(cols)):
            if c.choose(lv == i): col = cols[i].r; break
        if col is None: raise PathEnd()
        sb = lambda a, b: substr(c, full, a, b)
        if exc is None or not c.choose(Or(*[e.args[2] != e.args[1].len() for e in w])): c.check_text('colour code, marked range, reset code, and the bytes around unchanged', joined(w), sb(I(0), x) + col + sb(x, y - x) + o.f['reset'].r + sb(y, full.len() - y))
        pay = [e for e in w if not (Cmp(c).eq(e.args[1].segs, col.segs) is True or Cmp(c).eq(e.args[1].segs, o.f['reset'].r.segs) is True)]; short = Or(*[e.args[2] != e.args[1].len() for e in pay])
    else:
        if 'is_color_enabled_' not in o.f or True: c.check_text('the bytes of the formatter, once', joined(w), full)
    if exc is None: c.check('a write that fell short is reported', z3.Not(short))
    else: c.check('an error is reported only for a write that fell short', short); return
    if u.flush: fl = [i for i, e in enumerate(c.trace) if isinstance(e, Ev) and e.name in ('fflush', 'fwrite')]; c.check('the stream is flushed after the message', z3.BoolVal(bool(fl) and c.trace[fl[-1]].name == 'fflush')); c.check('its own stream is flushed', c.trace[fl[-1]].args[0] == o.f['file_'].t)
def u_file(ip, u):
    c = ip.c; s, m, spec, o, exc = start(ip, u.cls); fm = c.read(formatter_of(ip, s), True).t
    if not only_formatted(ip, c, m, fm): return
    w = [e for e in c.trace if isinstance(e, Ev) and e.name == 'file.write']
    if failed_inside(c): c.check('nothing is written when formatting fails', z3.BoolVal(not w and exc is not None)); return
    c.check('the message is written once', z3.BoolVal(len(w) == 1))
    if w: c.check('it writes to its own file', w[0].args[0] == o.f['file_'].t); c.check_text('the bytes of the formatter', w[0].args[1], TEXT())
    c.check('an error is reported iff writing failed', z3.BoolVal((exc is not None) == any(e.name == 'error' for e in c.trace if isinstance(e, Ev))))
def u_ostream(ip, u):
    c = ip.c; s, m, spec, o, exc = start(ip, u.cls); fm = c.read(formatter_of(ip, s), True).t
    if not only_formatted(ip, c, m, fm): return
    w = [e for e in c.trace if isinstance(e, Ev) and e.name == 'write']; f = [e for e in c.trace if isinstance(e, Ev) and e.name == 'flush']
    if failed_inside(c): c.check('nothing is written when formatting fails', z3.BoolVal(not w and exc is not None)); return
    c.check_text('the bytes of the formatter, once', joined(w), TEXT()); c.check('flushes after the message iff configured', z3.BoolVal(len(f) > 0) == ip.tobool(o.f['force_flush_']))
    if f: c.check('flushes after the message', z3.BoolVal([e.name for e in c.trace if isinstance(e, Ev) and e.name in ('write', 'flush')][-1] == 'flush'))
def u_null(ip, u):
    c = ip.c; s, m, spec, o, exc = start(ip, u.cls); c.check('a null sink writes nothing', z3.BoolVal(exc is None and not [e for e in flatten(c.trace) if e.name in ('fwrite', 'write', 'file.write')]))
def u_flush(names, field):
    def run(ip, u):
        c = ip.c; s = the_sink(ip, u.cls); c.trace.clear(); exc = outcome(lambda: invoke(ip, u.cls, 'flush', s, [])); f = [e for e in c.trace if isinstance(e, Ev) and e.name in names]; c.check('its stream is flushed once', z3.BoolVal(len(f) == 1))
        if f and field: c.check('its own stream is flushed', f[0].args[0] == c.read(s, True).f[field].t)
    return run
def u_colour(ip, u):
    """construction decides whether colours are used, and which"""
    c = ip.c; f = z3.Int('file'); c.assume(f > 0); lv = root(ip, Obj(u.cls, {}), 'sink'); c.trace.clear(); ctor(ip, u.cls, lv, [Handle('FILE', f)], nparams=1); o = c.read(lv, True); tty = [e for e in c.trace if e.name == 'isatty']
    c.check('it writes to the stream it was given', o.f['file_'].t == f); env = EnvSpec(c)
    for e in tty: c.check('the stream itself is asked whether it is a terminal', e.args[0] == FD(f))
    got = ip.tobool(o.f['is_color_enabled_']); c.check('colours are used only on a terminal', Implies(got, z3.BoolVal(bool(tty))) if not tty else Implies(got, tty[0].args[1] != 0)); c.check('colours are used only on a terminal type that supports them', Implies(got, env.colour))
    c.check('colours are used on such a terminal', Implies(z3.And(tty[0].args[1] != 0 if tty else TRUE, env.colour), got))
    names = dict(trace='\033[37m', debug='\033[36m', info='\033[32m', warn='\033[33m\033[1m', error='\033[31m\033[1m', critical='\033[1m\033[41m', off='\033[m')
    for k, v in names.items(): c.check_text(f'colour of {k}', o.f['level_colors_'].els[cval(S(enum_of(ip, k)))].r, Rope([v]))
    c.check_text('reset code', o.f['reset'].r, Rope(['\033[m']))
def u_streams(ip, u):
    c = ip.c
    for cls in ('stdout_sink<static_mutex>', 'stderr_sink<static_mutex>', 'stdout_ansicolor_sink<static_mutex>', 'stderr_ansicolor_sink<static_mutex>'):
        lv = root(ip, Obj(cls, {}), 'sink'); ctor(ip, cls, lv, [], nparams=0); c.check('the sink writes to its own stream', c.read(lv, True).f['file_'].t == z3.Int('file_' + cls[:6]))
    for force in (FALSE, TRUE):
        lv = root(ip, Obj('ostream_sink<std::mutex>', {}), 'sink'); os = root(ip, Opaque('ostream', id='given'), 'os'); ctor(ip, 'ostream_sink<std::mutex>', lv, [os, force], nparams=2); o = c.read(lv, True)
        c.check('the sink writes to its own stream', z3.BoolVal(any(isinstance(v, Ptr) and v.t == os for v in o.f.values()))); c.check('flushing is as configured', ip.tobool(o.f['force_flush_']) == force)
def enum_of(ip, nm): return I(['trace', 'debug', 'info', 'warn', 'error', 'critical', 'off'].index(nm))
TERMS = ('ansi', 'color', 'console', 'cygwin', 'gnome', 'konsole', 'kterm', 'linux', 'msys', 'putty', 'rxvt', 'screen', 'vt100', 'xterm', 'alacritty', 'vt102')
HAS = lambda t: z3.Bool(f'TERM_contains_{t}')
class EnvSpec:
    def __init__(self, c): self.colour = z3.Or(z3.Bool('COLORTERM_set'), z3.And(z3.Bool('TERM_set'), z3.Or(*[HAS(t) for t in TERMS])))
class ColourUnit(SinkIO):
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        c = ip.c
        if name in ('getenv', 'secure_getenv'):
            t = text_of(ip, ip.argv(argnodes)[0]); v = ''.join(x.s for x in t.segs if isinstance(x, Lit))
            if v not in ('COLORTERM', 'TERM'): raise Unsupported(f'environment variable {v}')
            return CharP(root(ip, Str(sym_text('env_' + v), 'string', c.newgen()), v), 0) if c.choose(z3.Bool(v + '_set')) else Ptr(None)
        if name == 'strstr':
            a, b = [ip.val(x) for x in ip.argv(argnodes)]; t = text_of(ip, b); w = ''.join(x.s for x in t.segs if isinstance(x, Lit))
            if not (isinstance(a, CharP) and 'env_TERM' in repr(c.read(a.src, True).r)): raise Unsupported('strstr')
            return a if c.choose(HAS(w)) else Ptr(None)
        return SinkIO.lib_function(self, ip, name, decl, argnodes, n, dst)
def units():
    K = lambda cls, run, b=SinkIO, n='', **kw: U(f'{cls} {n or "log"}', [f'{cls}::{"log" if not n else n}'], run, base=b, cls=cls, **kw)
    A, S_, B, O = 'ansicolor_sink<static_mutex>', 'std_sink<static_mutex>', 'basic_file_sink<std::mutex>', 'ostream_sink<std::mutex>'
    return [K(S_, u_std, flush=True), K(A, u_std, flush=False), K(B, u_file, FileContracts), K(O, u_ostream), K('null_sink<std::mutex>', u_null), K(S_, u_flush(('fflush',), 'file_'), n='flush'), K(A, u_flush(('fflush',), 'file_'), n='flush'), K(O, u_flush(('flush',), None), n='flush'),
            K(B, u_flush(('file.flush',), 'file_'), FileContracts, n='flush'), K(A, u_colour, ColourUnit, n='ansicolor_sink'),
            U('own streams', ['stdout_sink<static_mutex>::stdout_sink', 'stderr_sink<static_mutex>::stderr_sink', 'stdout_ansicolor_sink<static_mutex>::stdout_ansicolor_sink', 'stderr_ansicolor_sink<static_mutex>::stderr_ansicolor_sink', 'ostream_sink<std::mutex>::ostream_sink'], u_streams, base=ShareUnit)] + __import__('units.factories', fromlist=['units']).units(('class', 'args'), ['stdout', 'stderr', 'stdout_color', 'stderr_color', 'ostream', 'null'])
