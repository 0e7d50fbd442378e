"""C08: one padding law for every field."""
from units.flags import *

def u_filler(kind):
    def run(ip, u):
        c = ip.c; sp, pad = spaces(ip, 'on' if c.choose_nd(2) else 'off'); b = dest(ip); f = root(ip, Obj('filler', {}), 'f'); before = c.read(sp, True)
        a = text_root(ip, 'content'); content = sym_text('content'); ctor(ip, 'filler', f, [content.len(), sp, b], nparams=3)
        if kind == 'text': ip.run_func(find(ip, 'filler', 'fill_msg', lambda m: 'string_view' in m.params[0]['type']['qualType'], 1), f, [root(ip, view_lv(ip, a), 'v')])
        else: o = c.read(b, True); c.write(b, o.upd(c, o.r + content))      # the field is written to the buffer directly
        ip.destroy(f)
        c.check_text('the output gains exactly what the padding law says', c.read(b, True).r, sym_text('before') + law(ip, pad, content))
        c.check('the settings are not changed', z3.BoolVal(loops.same(before, c.read(sp, True))))
    return run
def u_number(ip, u):
    c = ip.c; sp, pad = spaces(ip, 'on' if c.choose_nd(2) else 'off'); b = dest(ip); f = root(ip, Obj('filler', {}), 'f')
    fs = [m for m in ip.ast.methods('filler::fill_msg') if m.body is not None and ip.int_type(strip_cv(qt(m.params[0])))]
    if len(fs) < 4: raise Unsupported('fill_msg instantiations')
    g = fs[c.choose_nd(len(fs))]; it = ip.int_type(strip_cv(qt(g.params[0]))); lo, hi = ip.rng(it); n = z3.Int('n'); c.assume(z3.And(n >= 0, n <= hi)); w = z3.Int('declared'); c.assume(z3.And(w >= 1, w < 2 ** 31))
    ctor(ip, 'filler', f, [w, sp, b], nparams=3); o = c.read(b, True).r; ip.run_func(g, f, [n])
    c.check_text('a number is written in full, unsigned ones zero-padded to the declared length', c.read(b, True).r, o + Rope(zpad(ip, n, w) if it[1] == 0 else [Dec(n)]))
def one_field(ip, what, sp, b, content):
    """the output is what was there, then one field with this content and the formatter's own settings"""
    c = ip.c; ev = [e for e in c.trace if e.name == 'field']
    c.check(f'{what}: one padded field', z3.BoolVal(len(ev) == 1))
    if len(ev) != 1: return
    e = ev[0]; c.check(f'{what}: padded with the settings of the item', z3.BoolVal(loops.same(e.args[0], sp)))
    c.check_text(f'{what}: the field starts at the end of the output', e.args[2], sym_text('before')); c.check_text(f'{what}: nothing is written outside the field', c.read(b, True).r, e.args[2] + e.args[1])
    c.check(f'{what}: the declared length is the length of the field', e.args[1].len() == content.len())
def u_flag(flag):
    def run(ip, u):
        c = ip.c; m = M(ip, loc=flag in LOC_FLAGS); cls, text = FLAGS[flag]; sp = any_spaces(ip); s = c.read(sp, True); f = make(ip, cls, sp); c.store[sp.root] = None; b = dest(ip)
        fmt(ip, cls, f, m, b); one_field(ip, '%' + flag, s, b, text(ip, m))
    return run
def u_duration(flag):
    def run(ip, u):
        c = ip.c; m, q = M(ip), M(ip, 'p'); cls = duration_class(ip, DURATIONS[flag]); sp = any_spaces(ip); s = c.read(sp, True); f = make(ip, cls, sp); b = dest(ip, 'junk'); fmt(ip, cls, f, q, b); b = dest(ip); c.trace.clear()
        fmt(ip, cls, f, m, b); d = S(z3.If(m.time > q.time, m.time - q.time, 0) / DURATIONS[flag]); one_field(ip, '%' + flag, s, b, rope(Dec(d)))
    return run
def units():
    out = [U('filler: text', ['filler::filler', 'filler::fill_msg', 'filler::~filler'], u_filler('text'), base=FlagUnit), U('filler: field written directly', ['filler::filler', 'filler::~filler'], u_filler('direct'), base=FlagUnit), U('filler: number', ['filler::fill_msg'], u_number, base=FlagUnit)]
    for k, (cl, _) in FLAGS.items(): out.append(U(f'flag {k}', [cl + '::format'], u_flag(k), base=FlagUnit, fillers=True, tables=True))
    for k in DURATIONS: out.append(U(f'flag {k}', ['duration_formatter::format'], u_duration(k), base=FlagUnit, fillers=True, tables=True))
    return out
