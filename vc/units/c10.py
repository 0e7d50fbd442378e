"""C10: integers as decimals, zero padding, sub-second parts."""
from units.common import *

class NumUnit(Unit): pass
NS = 'fmt_base::'
def insts(ip, name):
    out = [f for f in ip.ast.methods(NS + name) if f.body is not None]
    if not out: raise Unsupported(f'{name} not found')
    seen = []
    for f in out:
        if f not in seen: seen.append(f)
    return seen
def pick(ip, name, minimum=1):
    fs = insts(ip, name)
    if len(fs) < minimum: raise Unsupported(f'only {len(fs)} instantiations of {name}')
    return fs[ip.c.choose_nd(len(fs))]
def number(ip, f, i=0, nonneg=False):
    t = ip.int_type(strip_cv(f.params[i]['type'].get('desugaredQualType', f.params[i]['type']['qualType'])))
    if t is None: raise Unsupported('parameter type')
    lo, hi = ip.rng(t); n = z3.Int('n'); ip.c.assume(z3.And(n >= (0 if nonneg else lo), n <= hi)); return n
def out_buf(ip):
    b = root(ip, Str(sym_text('before'), 'membuf', ip.c.newgen()), 'dest'); ip.c.assume(z3.And(sym_text('before').len() >= 0, sym_text('before').len() < 2 ** 40)); return b
def u_append(ip, u):
    c = ip.c; f = pick(ip, 'append_int', 4); n = number(ip, f); b = out_buf(ip); ip.run_func(f, None, [n, b])
    c.check_text('the exact decimal is appended', c.read(b).r, sym_text('before') + Dec(n))
def u_digits(ip, u):
    c = ip.c; f = pick(ip, 'count_unsigned_digits', 4); n = number(ip, f, nonneg=True)
    c.check('the number of digits', ip.run_func(f, None, [n]) == ndig(n))
def u_fill(ip, u):
    c = ip.c; f = pick(ip, 'fill_uint', 4); n = number(ip, f, nonneg=True); w = z3.Int('w'); c.assume(z3.And(w >= 0, w < 2 ** 31)); b = out_buf(ip); ip.run_func(f, None, [n, w, b])
    d = ndig(n); pad = S(z3.If(w > d, w - d, 0))
    c.check_text('zeros up to the width, then the decimal', c.read(b).r, sym_text('before') + Rope([Rep(48, pad), Dec(n)]))
def u_precise(ip, u):
    c = ip.c; f = pick(ip, 'precise_time', 3); t = z3.Int('tp'); c.assume(z3.And(t >= 0, t < 2 ** 63))
    r = ip.val(ip.run_func(f, None, [t]))
    g = ip.lib.unit_of(ret_type(f))
    if g is None: raise Unsupported('metric')
    c.check('the part below one second, in the metric', r == (t % 10 ** 9) / g)
def ret_type(f):
    """the metric: from the return statement's type"""
    st = [f.body]
    while st:
        x = st.pop()
        if x.get('kind') == 'ReturnStmt': return qt(x['inner'][0])
        st.extend(x.get('inner', []))
    return ''
def units():
    K = lambda n, f, r: U(n, [NS + f], r, base=NumUnit)
    return [K('append an integer', 'append_int', u_append), K('count digits', 'count_unsigned_digits', u_digits), K('fill with zeros', 'fill_uint', u_fill), K('sub-second part', 'precise_time', u_precise)]
