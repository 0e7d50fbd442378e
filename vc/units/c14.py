"""C14: directory and suffix of every path; rolled file names."""
from units.sinks import *
P = lambda: sym_text('path')
LEN = P().len()
SL, DT, K = z3.Int('last_slash'), z3.Int('last_dot'), z3.Int('some_position')
ch = lambda i: P().segs[0].b.ch(i)
def a_path(ip):
    """an arbitrary path; SL: its last separator (-1 if none); DT: the last dot behind it (SL if none)"""
    c = ip.c; c.assume(z3.And(LEN >= 0, LEN < 2 ** 31)); q = z3.Int('q0')
    c.assume(z3.And(SL >= -1, SL < LEN, Implies(SL >= 0, ch(SL) == 47), z3.ForAll([q], Implies(z3.And(q > SL, q < LEN), ch(q) != 47), patterns=[ch(q)])))
    c.assume(z3.And(DT >= SL, DT < z3.If(LEN > SL, LEN, SL + 1), Implies(DT > SL, ch(DT) == 46), z3.ForAll([q], Implies(z3.And(q > DT, q < LEN), ch(q) != 46), patterns=[ch(q)])))
    for x in (SL, DT): c.assume(z3.Or(x < 0, ch(x) >= 0))
    return root(ip, Str(P(), 'string', c.newgen()), 'path')
SUF = z3.If(DT > SL + 1, DT, LEN)
def u_dir(ip, u):
    c = ip.c; p = a_path(ip); r = text_of(ip, ip.run_func(common_find(ip, 'os::get_dir', 1), None, [p])); n = z3.If(SL >= 0, SL, 0)
    c.check_text('the directory is everything before the last separator', r, substr(c, P(), I(0), n)); c.check_text('the path is not changed', c.read(p).r, P())
def u_suffix(ip, u):
    c = ip.c; p = a_path(ip); r = ip.tonum(ip.val(ip.run_func(common_find(ip, 'file_base::suffix_pos', 1), None, [p])))
    c.check('a suffix starts at the last dot of the last component', Implies(DT > SL + 1, r == DT)); c.check('a dot that starts the component starts no suffix', Implies(DT == SL + 1, r == LEN)); c.check('no suffix without a dot', Implies(DT == SL, r == LEN)); c.check('the position lies in the last component', z3.And(r >= SL + 1, r <= LEN))
def u_rolled(ip, u):
    c = ip.c; p = a_path(ip); i, n = z3.Int('number'), z3.Int('maximum'); c.assume(z3.And(i >= 0, i < 2 ** 63, n >= 1, n < 2 ** 63)); cls = 'rolling_file_sink<std::mutex>'
    have = [f['name'] for f in ip.ast.classes[cls].fields]
    if 'base_fname_' not in have or 'max_file_num_' not in have: raise Unsupported('representation of the rolling sink changed')
    s = the_sink(ip, cls, dict(base_fname_=Str(P(), 'string', c.newgen()), max_file_num_=n)); d, w = ndig(i), ndig(n); pad = S(z3.If(w > d, w - d, 0))
    r = text_of(ip, call(ip, cls, 'get_rolling_filename', s, [i])); st = substr(c, P(), I(0), SUF) + Rope(['_', Rep(48, pad), Dec(i)]) + substr(c, P(), SUF, LEN - SUF)
    c.check_text('path without suffix, underscore, number padded to the digits of the maximum, suffix', r, st); c.check('numbers within 1..max have the same length', Implies(z3.And(i >= 1, i <= n), pad + d == w)); c.check('the name stays in the same directory', SUF >= SL + 1)
    c.check_text('the base name is kept', c.read(s, True).f['base_fname_'].r, P())
def common_find(ip, q, n):
    fs = [f for f in ip.ast.methods(q) if f.body is not None and len(f.params) == n]
    if not fs: raise Unsupported(f'{q} not found')
    return fs[0]
class RolledUnit(SinkIO):
    def contract(self, cls, name):
        if cls is None and name.split('::')[-1] == 'suffix_pos':
            def f(ip, this, args, n, dst):
                ip.c.check_text('the suffix is that of the base name', text_of(ip, args[0]), P()); return S(SUF)
            return f
        return SinkIO.contract(self, cls, name)
def units(): return [U('directory of a path', ['os::get_dir'], u_dir, base=SinkIO), U('suffix of a path', ['file_base::suffix_pos'], u_suffix, base=SinkIO), U('rolled file name', ['rolling_file_sink::get_rolling_filename'], u_rolled, base=RolledUnit)]
