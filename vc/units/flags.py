"""Flag formatters under contract: shared by C07, C08, C09. Each flag's documented text as a function of the message."""
from units.common import *
import units.c03 as c03

class FlagUnit(c03.MsgUnit):
    """flag formatters see filler through its contract: it surrounds what is written while it lives, whose length it was told"""
    fillers = False
    def abstract_ctor(self, ip, t):
        if t == 'filler' and self.fillers: return c_filler
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        if isinstance(v, Opaque) and v.fam == 'filler' and name == 'fill_msg':
            x = ip.val(ip.argv(argnodes)[0]); d = v.kw['dest']; b = ip.c.read(d, True)
            if z3.is_expr(x):
                it = ip.int_type(ip.typ(argnodes[0]))
                if it is None: raise Unsupported('fill_msg argument')
                if it[1] == 0: ip.c.write(d, b.upd(ip.c, b.r + Rope(zpad(ip, x, v.kw['n']))))
                else: ip.c.write(d, b.upd(ip.c, b.r + Dec(x)))
            else: ip.c.write(d, b.upd(ip.c, b.r + text_of(ip, x)))
            return None
        return NotImplemented
    def on_destroy(self, ip, lv, v):
        if isinstance(v, Opaque) and v.fam == 'filler':
            c = ip.c; b = c.read(v.kw['dest'], True).r; t = v.kw['start']
            if len(b.segs) < len(t.segs) or not segs_same(b.segs[:len(t.segs) - 1], t.segs[:-1]): raise Unsupported('the start of the output changed under a filler')
            w = drop(c, b, t.len()); c.check('the field writes as many bytes as it declared', w.len() == v.kw['n'])
            c.trace.append(Ev('field', v.kw['info'], w, t))
def zpad(ip, t, w):
    d = ndig(t); return [Rep(48, S(z3.If(w > d, w - d, 0))), Dec(t)]
def c_filler(ip, args, ctype):
    c = ip.c; n, sp, d = args; return Opaque('filler', n=S(ip.tonum(ip.val(n))), info=c.read(sp, True), dest=d, start=c.read(d, True).r)
def enum_value(ip, name, near=None):
    out = set()
    for d in list(ip.ast.by_id.values()):
        if d.get('kind') == 'EnumConstantDecl' and d.get('name') == name and d['id'] in ip.ast.enums:
            if near is None or near in norm(qt(d)): out.add(ip.ast.enums[d['id']])
    if len(out) != 1: raise Unsupported(f'enumerator {name}')
    return out.pop()
LOC_FLAGS = '@ABC+'
def any_spaces(ip):
    """arbitrary enabled settings, not split into cases"""
    c = ip.c; lv = root(ip, Obj('spaces_info', {}), 'sp'); w = z3.Int('width'); c.assume(z3.And(w >= 0, w <= 64)); sd = z3.Int('side'); c.assume(z3.Or(*[sd == enum_value(ip, s, 'fill_side') for s in SIDES]))
    spaces_ctor(ip, lv, [w, sd, z3.Bool('trunc'), TRUE]); return lv
def spaces_ctor(ip, lv, args):
    f = [m for m in ip.ast.classes['spaces_info'].methods if m.kind == 'CXXConstructorDecl' and len(m.params) in (3, 4) and 'bool' in m.type]
    if not f: raise Unsupported('constructor of spaces_info')
    f = f[0]; ip.construct_with(ip.ast.classes['spaces_info'], ip.ast.definition(f.node['id']) or f, args[:len(f.params)], lv, False)
SIDES = ('left', 'right', 'center')
class Pad:
    """padding settings of one item; None: disabled"""
    def __init__(self, w, side, trunc): self.w, self.side, self.trunc = w, side, trunc
def spaces(ip, mode):
    """(designator of a spaces_info made by its constructor, Pad or None)"""
    c = ip.c; lv = root(ip, Obj('spaces_info', {}), 'sp')
    if mode == 'off':
        ctor(ip, 'spaces_info', lv, [], nparams=0); return lv, None
    w = z3.Int('width'); tr = z3.Bool('trunc'); c.assume(z3.And(w >= 0, w <= 64)); side = SIDES[c.choose_nd(3)]
    spaces_ctor(ip, lv, [w, I(enum_value(ip, side, 'fill_side')), tr, TRUE])
    return lv, Pad(w, side, c.choose(tr))
def law(ip, pad, content):
    """bytes a field adds"""
    c = ip.c; n = content.len()
    if pad is None: return content
    if c.choose(n < pad.w):
        k = S(pad.w - n); sp = lambda m: Rope([Rep(32, m)])
        if pad.side == 'left': return sp(k) + content
        if pad.side == 'right': return content + sp(k)
        h = S(k / 2); return sp(h) + content + sp(S(k - h))
    return take(c, content, pad.w) if pad.trunc else content
TM = dict(tm_sec=(0, 60), tm_min=(0, 59), tm_hour=(0, 23), tm_mday=(1, 31), tm_mon=(0, 11), tm_year=(70, 8099), tm_wday=(0, 6), tm_yday=(0, 365), tm_isdst=(-1, 1))
def tm_of(ip, secs, name='tm'):
    """broken-down local time: a function of the second"""
    c = ip.c; f = {}
    for k, (lo, hi) in TM.items():
        t = z3.Function('local_' + k, z3.IntSort(), z3.IntSort())(secs); c.assume(z3.And(t >= lo, t <= hi)); f[k] = t
    return root(ip, Obj('tm', f), name), f
DAYS = ('Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat'); MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'); LEVELS = ('trace', 'debug', 'info', 'warn', 'error', 'critical', 'off')
def pickname(ip, names, t):
    if ip.e.unit.tables: return table_text(ip.c, names, t)
    for i, s in enumerate(names):
        if ip.c.choose(t == i): return s
    raise PathEnd()
def texts(*xs):
    r = Rope()
    for x in xs: r = r + (x if isinstance(x, Rope) else rope(x))
    return r
def zp(t, w): d = ndig(t); return [Rep(48, S(z3.If(w > d, w - d, 0))), Dec(t)]
def two(t): return [Chr(S(t / 10 + 48)), Chr(S(t % 10 + 48))]
def three(t): return [Chr(S(t / 100 + 48)), Chr(S(t / 10 % 10 + 48)), Chr(S(t % 10 + 48))]
class M:
    """the message being formatted; its location matters (and is split into cases) only for the location flags"""
    def __init__(self, ip, nm='m', loc=False):
        c = ip.c; self.nm = nm; self.loc = loc
        self.lv, self.spec, _ = fresh_msg(ip, nm); f = self.spec.f; self.time = f['time']; self.level = f['level']; self.tid = f['tid']
        self.secs, self.ns = z3.Ints(f'{nm}_secs {nm}_ns'); c.assume(z3.And(self.time == self.secs * 10 ** 9 + self.ns, self.secs >= 0, self.ns >= 0, self.ns < 10 ** 9)); c.ghost[('quotient', str(self.time), 10 ** 9)] = self.secs
        self.ms, self.us, a, b = z3.Ints(f'{nm}_ms {nm}_us {nm}_ra {nm}_rb'); c.assume(z3.And(self.ns == self.us * 1000 + a, a >= 0, a < 1000, self.us == self.ms * 1000 + b, b >= 0, b < 1000, self.ms >= 0, self.ms < 1000))
        c.ghost[('quotient', str(self.time), 10 ** 6)] = S(self.secs * 1000 + self.ms); c.ghost[('quotient', str(self.time), 1000)] = S(self.secs * 10 ** 6 + self.us)
        self.tm, self.t = tm_of(ip, self.secs)
        self.line = f['loc'].f['line']
        for k in ('filename', 'funcname'): c.assume(sym_text(f'{nm}_{k}').len() >= 0); c.assume(sym_text(f'{nm}_{k}').len() < 2 ** 30)
        if not loc: return
        self.where = c.choose(self.line > 0); g = dict(f['loc'].f); self.fn = True
        if not self.where and c.choose_nd(2): g['filename'] = g['funcname'] = CharP(None, 0)       # a default location
        elif c.choose_nd(2): g['funcname'] = CharP(None, 0); self.fn = False                          # function name not given
        o = c.read(self.lv, True); h = dict(o.f); h['loc'] = Obj('source_loc', g); c.store[self.lv.root] = Obj('log_msg', h)
    def text(self, k): return sym_text(f'{self.nm}_{k}')
def datetime_c(ip, m):
    return texts(pickname(ip, DAYS, m.t['tm_wday']), ' ', pickname(ip, MONTHS, m.t['tm_mon']), ' ', * (two(m.t['tm_mday']) + [' '] + hms(m) + [' ', Dec(S(m.t['tm_year'] + 1900))]))
def hms(m): return two(m.t['tm_hour']) + [':'] + two(m.t['tm_min']) + [':'] + two(m.t['tm_sec'])
def located(ip, m, segs): return rope(segs) if m.where else Rope()
# flag -> (class, documented text)
FLAGS = {
    'n': ('name_formatter', lambda ip, m: m.text('name')), 'l': ('level_formatter', lambda ip, m: texts(pickname(ip, LEVELS, m.level))),
    'a': ('a_formatter', lambda ip, m: texts(pickname(ip, DAYS, m.t['tm_wday']))), 'b': ('b_formatter', lambda ip, m: texts(pickname(ip, MONTHS, m.t['tm_mon']))),
    'c': ('c_formatter', datetime_c), 'y': ('y_formatter', lambda ip, m: rope(Dec(S(m.t['tm_year'] + 1900)))), 'm': ('m_formatter', lambda ip, m: rope(two(m.t['tm_mon'] + 1))),
    'd': ('d_formatter', lambda ip, m: rope(two(m.t['tm_mday']))), 'H': ('H_formatter', lambda ip, m: rope(two(m.t['tm_hour']))), 'M': ('M_formatter', lambda ip, m: rope(two(m.t['tm_min']))), 'S': ('S_formatter', lambda ip, m: rope(two(m.t['tm_sec']))),
    'E': ('E_formatter', lambda ip, m: rope(three(m.ms))), 'F': ('F_formatter', lambda ip, m: rope(zp(m.us, 6))), 'G': ('G_formatter', lambda ip, m: rope(zp(m.ns, 9))),
    'T': ('T_formatter', lambda ip, m: rope(hms(m))), 'p': ('p_formatter', lambda ip, m: rope(Dec(z3.Int('pid')))), 't': ('t_formatter', lambda ip, m: rope(Dec(m.tid))), 'v': ('v_formatter', lambda ip, m: m.text('text')),
    '@': ('source_loc_formatter', lambda ip, m: located(ip, m, list(m.text('filename').segs) + [':', Dec(m.line)])), 'A': ('source_filename_formatter', lambda ip, m: located(ip, m, list(m.text('filename').segs))),
    'B': ('source_linenum_formatter', lambda ip, m: located(ip, m, [Dec(m.line)])), 'C': ('source_funcname_formatter', lambda ip, m: located(ip, m, list(m.text('funcname').segs) if m.fn else [])),
}
DURATIONS = {'W': 1, 'X': 10 ** 3, 'Y': 10 ** 6, 'Z': 10 ** 9}
def duration_class(ip, div):
    for n in ip.ast.classes:
        m = re.match(r'duration_formatter<(.*)>$', n)
        if m and ip.lib.unit_of(m.group(1)) == div: return n
    raise Unsupported('duration_formatter')
def make(ip, cls, sp):
    if cls not in ip.ast.classes: raise Unsupported(f'class {cls} not found')
    f = root(ip, Obj(cls, {}), cls); ctor(ip, cls, f, [sp], nparams=1, pred=lambda m: 'spaces_info' in m.type); return f
def dest(ip, nm='before'):
    b = root(ip, Str(sym_text(nm), 'membuf', ip.c.newgen()), 'dest'); ip.c.assume(z3.And(sym_text(nm).len() >= 0, sym_text(nm).len() < 2 ** 40)); return b
def fmt(ip, cls, f, m, b): call(ip, cls, 'format', f, [m.lv, m.tm, b])
