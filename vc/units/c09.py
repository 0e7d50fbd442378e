"""C09: each flag writes its documented field, whatever was formatted before."""
from units.flags import *

class TextUnit(FlagUnit):
    fillers = True; tables = True
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        if name in ('localtime_r', 'localtime'):
            t = ip.argv(argnodes); secs = ip.val(t[0]); secs = ip.val(secs.t) if isinstance(secs, Ptr) else secs
            while isinstance(secs, LV): secs = ip.val(secs)
            tm, _ = tm_of(ip, S(ip.tonum(secs)))
            if name == 'localtime': c = ip.c; c.check('the broken-down time is kept where no other thread writes', z3.BoolVal(False)); return Ptr(tm)
            d = ip.val(t[1]); ip.c.write(d.t, ip.c.read(tm, True)); return d
        return FlagUnit.lib_function(self, ip, name, decl, argnodes, n, dst)
def same_state(ip, a, b):
    """equality of two formatter states, proved; texts compared as texts"""
    c = ip.c
    if isinstance(a, Obj) and isinstance(b, Obj): return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same_state(ip, a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Str) and isinstance(b, Str): return Cmp(c).eq(a.r.segs, b.r.segs) is True
    if z3.is_expr(a) and z3.is_expr(b): return c.prove(a == b)
    return loops.same(a, b)
def history(ip, cls, f, m, mk, run, text, what):
    """the text for m written by a formatter that just formatted one arbitrary message; its state afterwards is that of a fresh formatter after m"""
    c = ip.c; s0 = c.read(f, True); d1 = run(f, m); s1 = c.read(f, True); text(d1, None, f'{what}, first message')
    if same_state(ip, s0, s1): return            # formatting leaves no trace: every message is formatted by a fresh formatter
    q = M(ip, 'p'); g = mk(); run(g, q); d2 = run(g, m); text(d2, q, f'{what}, after any message')
    if not same_state(ip, s1, c.read(g, True)): raise Unsupported('the state after a message depends on earlier messages')
def u_flag(flag):
    def run(ip, u):
        c = ip.c; m = M(ip, loc=flag in LOC_FLAGS); cls, text = FLAGS[flag]; sp = any_spaces(ip) if c.choose_nd(2) else spaces(ip, 'off')[0]; f = make(ip, cls, sp); mk = lambda: make(ip, cls, sp); before = c.read(m.lv, True); want = []
        def go(f, x): b = dest(ip); fmt(ip, cls, f, x, b); return b
        def check(b, q, what):
            if not want: want.append(text(ip, m))
            c.check_text(what, c.read(b, True).r, sym_text('before') + want[0])
        history(ip, cls, f, m, mk, go, check, f'%{flag}'); c.check(f'%{flag}: the message is left alone', z3.BoolVal(loops.same(before, c.read(m.lv, True))))
    return run
def u_duration(flag):
    def run(ip, u):
        c = ip.c; m = M(ip); cls = duration_class(ip, DURATIONS[flag]); sp = any_spaces(ip); f = make(ip, cls, sp); now = [e.args[0] for e in c.trace if e.name == 'now']
        if len(now) != 1: raise Unsupported('clock reads of the constructor')
        def go(f, x): b = dest(ip); fmt(ip, cls, f, x, b); return b
        def check(b, q, what): last = q.time if q else now[0]; c.check_text(what, c.read(b, True).r, sym_text('before') + Dec(S(z3.If(m.time > last, m.time - last, 0) / DURATIONS[flag])))
        history(ip, cls, f, m, lambda: make(ip, cls, sp), go, check, f'%{flag}')
    return run
def u_full(ip, u):
    c = ip.c; name, where = u.case; nl = sym_text('m_name').len(); c.assume(nl > 0 if name else nl == 0); c.assume((z3.Int('m_line') > 0) == where)
    m = M(ip, loc=True); cls = 'full_formatter'; sp = spaces(ip, 'off')[0]
    lev = texts(pickname(ip, LEVELS, m.level)); n0 = sym_text('before').len()
    head = rope(['[', Dec(S(m.t['tm_year'] + 1900)), '-'] + two(m.t['tm_mon'] + 1) + ['-'] + two(m.t['tm_mday']) + [' '] + hms(m) + ['.'] + three(m.ms) + ['] '])
    if name: head = head + rope(['['] + list(m.text('name').segs) + ['] '])
    head = head + '['; tail = Rope(['] '])
    if m.where: tail = tail + rope(['['] + list(m.text('filename').segs) + [':'] + zp(m.line, 5) + ['] '])
    def go(f, x): b = dest(ip); fmt(ip, cls, f, x, b); return b
    def check(b, q, what):
        c.check_text(what, c.read(b, True).r, sym_text('before') + head + lev + tail + m.text('text')); o = c.read(m.lv, True).f
        c.check(f'{what}: colour starts at the level name', o['color_index_start'] == S(n0 + head.len())); c.check(f'{what}: colour ends after the level name', o['color_index_end'] == S(n0 + head.len() + lev.len()))
    history(ip, cls, make(ip, cls, sp), m, lambda: make(ip, cls, sp), go, check, '%+')
    check_fields(ip, c.read(m.lv, True), MsgSpec(None, None, dict(m.spec.f, loc=c.read(m.lv, True).f['loc'])), '%+')
def u_mark(which):
    cls = f'color_{which}_formatter'
    def run(ip, u):
        c = ip.c; m = M(ip); f = make(ip, cls, any_spaces(ip)); b = dest(ip); o = c.read(m.lv, True); fmt(ip, cls, f, m, b); p = c.read(m.lv, True); k = f'color_index_{which}'
        c.check_text('a colour mark writes nothing', c.read(b, True).r, sym_text('before')); c.check('the colour mark is the size of the output so far', p.f[k] == sym_text('before').len())
        c.check('nothing else in the message changes', z3.BoolVal(all(loops.same(o.f[x], p.f[x]) for x in o.f if x != k)))
    return run
def u_tm(ip, u):
    c = ip.c; t = z3.Int('tp'); c.assume(z3.And(t >= 0, t < 2 ** 62)); f = [m for m in ip.ast.methods('os::time_point_to_tm') if m.body is not None]
    if not f: raise Unsupported('time_point_to_tm')
    tp = root(ip, t, 'tp'); r = ip.val(ip.run_func(f[0], None, [tp])); want = ip.val(tm_of(ip, S(t / 10 ** 9))[0])
    for k in want.f: c.check('broken-down local time of the second', r.f[k] == want.f[k])
def units():
    out = [U(f'%{k}', [cl + '::format'], u_flag(k), base=TextUnit) for k, (cl, _) in FLAGS.items()]
    out += [U(f'%{k}', ['duration_formatter::format'], u_duration(k), base=TextUnit) for k in DURATIONS]
    return [U(f"%+ {'named' if nm else 'unnamed'} {'with' if wh else 'without'} location", ['full_formatter::format'], u_full, base=TextUnit, case=(nm, wh)) for nm in (True, False) for wh in (True, False)] + out + [ U('%^', ['color_start_formatter::format'], u_mark('start'), base=TextUnit), U('%$', ['color_end_formatter::format'], u_mark('end'), base=TextUnit), U('local time', ['os::time_point_to_tm', 'os::_time_t_to_tm', 'os::time_point_to_time_t'], u_tm, base=TextUnit)]
