"""Shared pieces of the contracts."""
import re
import z3
from core import *
from lib import *
from engine import Unit
import loops

def find(ip, cls, name, pred=None, nparams=None):
    """the repository's definition of cls::name"""
    ok = lambda f: f.body is not None or f.node.get('explicitlyDefaulted') or f.node.get('isImplicit')
    out = sorted([f for f in ip.ast.methods(f"{cls}::{name}") if ok(f) and (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))], key=lambda f: f.body is None)
    seen = []; 
    for f in out:
        if f not in seen: seen.append(f)
    if not seen: raise Unsupported(f'{cls}::{name} not found')
    return seen[0]
def call(ip, cls, name, this, args=(), pred=None, nparams=None, dst=None):
    f = find(ip, cls, name, pred, nparams if nparams is not None else len(args))
    return ip.run_func(f, this, list(args), dst=dst)
def is_const_m(f): return f.type.rstrip().endswith('const') or ') const' in f.type
def root(ip, v, name='o'): return ip.c.new_root(v, name)
def need_fields(ip, cls, names):
    c = ip.ast.classes.get(cls)
    if c is None: raise Unsupported(f'class {cls} not found')
    have = [f['name'] for f in ip.fields_of(c)]
    if set(have) != set(names): raise Unsupported(f'representation of {cls} changed: {have}')
def unchanged(ip, a, b): return loops.same(a, b)
def ctor(ip, cls, lv, args, pred=None, nparams=None):
    cl = ip.ast.classes[cls]
    fs = [m for m in cl.methods if m.kind == 'CXXConstructorDecl' and (nparams is None or len(m.params) == nparams) and (pred is None or pred(m))]
    if not fs: raise Unsupported(f'constructor of {cls}')
    f = ip.ast.definition(fs[0].node['id']) or fs[0]
    ip.construct_with(cl, f, list(args), lv, False)
def U(name, funcs, run, **kw):
    """unit from a function"""
    u = kw.pop('base', Unit)(); u.name = name; u.funcs = tuple(funcs)
    for k, v in kw.items(): setattr(u, k, v)
    u.raw = run; u.run = lambda ip: run(ip, u)
    return u

# ---------------------------------------------------------------- messages
MSG_FIELDS = ('logger_name', 'msg', 'level', 'loc', 'time', 'tid', 'color_index_start', 'color_index_end')
class MsgSpec:
    """what a message must report"""
    def __init__(self, name, msg, f): self.name, self.msg, self.f = name, msg, f
def fresh_scalars(ip, nm):
    c = ip.c
    loc = Obj('source_loc', {fd['name']: (z3.Int(f'{nm}_line') if ip.int_type(qt(fd)) else CharP(sym_text(f'{nm}_{fd["name"]}'), 0)) for fd in ip.fields_of(ip.ast.classes['source_loc'])})
    c.assume(z3.And(z3.Int(f'{nm}_level') >= 0, z3.Int(f'{nm}_level') <= 6))
    for x, lo, hi in (('time', 0, 2 ** 62), ('tid', 0, 2 ** 63), ('line', 0, 2 ** 31 - 1)): c.assume(z3.And(z3.Int(f'{nm}_{x}') >= lo, z3.Int(f'{nm}_{x}') <= hi))
    return dict(level=z3.Int(f'{nm}_level'), loc=loc, time=z3.Int(f'{nm}_time'), tid=z3.Int(f'{nm}_tid'))
def text_root(ip, nm):
    """an object that holds an arbitrary text"""
    lv = ip.c.new_root(Str(sym_text(nm), 'string', ip.c.newgen()), nm); ip.c.assume(sym_text(nm).len() >= 0); ip.c.assume(sym_text(nm).len() < 2 ** 31); return lv
def colours(ip, nm): return dict(color_index_start=ip.c.fresh_int(nm + '_cs', 0, 2 ** 62), color_index_end=ip.c.fresh_int(nm + '_ce', 0, 2 ** 62))
def fresh_msg(ip, nm='m'):
    """(designator, spec, text holders) of an arbitrary log_msg whose texts live outside it"""
    c = ip.c; need_fields(ip, 'log_msg', MSG_FIELDS)
    a, b = text_root(ip, nm + '_name'), text_root(ip, nm + '_text'); f = fresh_scalars(ip, nm)
    d = dict(f, **colours(ip, nm)); d['logger_name'] = view_lv(ip, a); d['msg'] = view_lv(ip, b)
    return root(ip, Obj('log_msg', d), nm), MsgSpec(sym_text(nm + '_name'), sym_text(nm + '_text'), f), (a, b)
def view_lv(ip, lv):
    v = ip.c.read(lv, True); return View(CharP(lv, 0, v.gen), v.r.len())
def own_msg(ip, cls, nm, extra=None):
    """an arbitrary valid buffered message of class cls"""
    c = ip.c; lv = c.new_root(Obj(cls, {}), nm); b = lv.sub(('f', 'buf_')); f = fresh_scalars(ip, nm)
    need_fields(ip, 'log_msg_buf', MSG_FIELDS + ('buf_',))
    n, t = sym_text(nm + '_name'), sym_text(nm + '_text')
    for r in (n, t): c.assume(z3.And(r.len() >= 0, r.len() < 2 ** 31))
    g = c.newgen()
    d = dict(f, **colours(ip, nm)); d['buf_'] = Str(n + t, 'membuf', g); d['logger_name'] = View(CharP(b, 0, g), n.len()); d['msg'] = View(CharP(b, n.len(), g), t.len())
    d.update(extra or {}); c.store[lv.root] = Obj(cls, d)
    return lv, MsgSpec(n, t, f)
def check_fields(ip, o, spec, what):
    c = ip.c
    for k in ('level', 'time', 'tid'): c.check(f'{what}: {k} is kept', o.f[k] == spec.f[k])
    for k, v in spec.f['loc'].f.items():
        w = o.f['loc'].f[k]
        c.check(f'{what}: source location is kept', w == v if z3.is_expr(v) else z3.BoolVal(same_ptr(w, v)))
def same_ptr(a, b):
    return loops.same(a, b) or isinstance(a, CharP) and isinstance(b, CharP) and ((a.src is None) == (b.src is None)) and (a.src is None or loops.same(a.off, b.off) and (a.src == b.src if isinstance(a.src, LV) else repr(a.src) == repr(b.src)))
def check_texts(ip, o, spec, what):
    ip.c.check_text(f'{what}: logger name is kept', text_of(ip, o.f['logger_name']), spec.name)
    ip.c.check_text(f'{what}: text is kept', text_of(ip, o.f['msg']), spec.msg)
def check_own(ip, lv, spec, what):
    """the message reports spec and its texts lie in its own buffer"""
    c = ip.c; o = c.read(lv, True); b = lv.sub(('f', 'buf_'))
    for k in ('logger_name', 'msg'):
        p = o.f[k].p
        c.check(f'{what}: {k} lies in its own buffer', z3.BoolVal(p.src == b or (p.src is not None and c.prove(o.f[k].n == 0))))
    check_texts(ip, o, spec, what); check_fields(ip, o, spec, what)
    c.check_text(f'{what}: the buffer holds name and text, nothing else', c.read(b, True).r, spec.name + spec.msg)
