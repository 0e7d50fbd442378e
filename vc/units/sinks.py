"""Sinks under contract: shared by C11, C12, C13, C15, C16. The C library's streams are abstract: every call is recorded and may fail."""
from units.loggers import *
FMT = 'formatted'
class SinkIO(LogUnit):
    handle_kinds = LogUnit.handle_kinds | frozenset(['FILE', '_IO_FILE'])
    format_fails = True; short_writes = True
    def contract(self, cls, name):
        if cls is None and name.split('::')[-1] == 'throw_learnlog_excpt': return c_throw
        return LogUnit.contract(self, cls, name)
    def handle_contract(self, kind, name):
        if kind == 'formatter' and name == 'format': return lambda ip, h, args, n, dst: c_format(ip, self, h, args)
        return LogUnit.handle_contract(self, kind, name)
    def lib_construct(self, ip, t, args, ctype):
        if t in ('std::ostream', 'std::basic_ostream<char>'): raise Unsupported('copy of a stream')
        return LogUnit.lib_construct(self, ip, t, args, ctype)
    def make_object(self, ip, k, a, n): return self.made(ip, k, a)
    def new_object(self, ip, t, init, lv):
        while init is not None and init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr'): init = init['inner'][0]
        return self.made(ip, t, init.get('inner', []) if init else [])
    def made(self, ip, k, a):
        """a pattern formatter made from a pattern (its constructor is under contract in C07)"""
        if k != 'pattern_formatter': return None
        c = ip.c; x = ip.argv([y for y in a if y.get('kind') != 'CXXDefaultArgExpr']); t = text_of(ip, x[0]) if x else Rope(['%+'])
        if len(x) > 1: raise Unsupported('pattern formatter with more than a pattern')
        h = c.fresh_int('formatter'); c.assume(h > 0); ev(ip, 'made', h, t); return Handle('formatter', h)
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        if isinstance(v, Opaque) and v.fam == 'ostream':
            a = ip.argv(argnodes)
            if name == 'write': ev(ip, 'write', v.kw['id'], text_at(ip, ip.val(a[0]), ip.tonum(ip.val(a[1])))); return obj
            if name == 'flush': ev(ip, 'flush', v.kw['id']); return obj
            if name == 'put': ev(ip, 'write', v.kw['id'], Rope([Chr(ip.tonum(ip.val(a[0])))])); return obj
        return LogUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt) if hasattr(LogUnit, 'lib_method') else NotImplemented
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        c = ip.c
        if name in ('fwrite', 'fwrite_unlocked'):
            p, sz, k, f = [ip.val(x) for x in ip.argv(argnodes)]; sz, k = ip.tonum(sz), ip.tonum(k)
            if not c.prove(sz == 1): raise Unsupported('fwrite of elements')
            f = stream(ip, f, 'fwrite'); t = text_at(ip, p, k); r = k
            if self.short_writes and c.choose_nd(2): r = c.fresh_int('written', 0); c.assume(r < k)
            ev(ip, 'fwrite', f, t, r); return r
        if name in ('fflush', 'fflush_unlocked'):
            f = ip.val(ip.argv(argnodes)[0]); r = c.fresh_int('flushed', -1, 0); ev(ip, 'fflush', f.t if isinstance(f, Handle) else I(0), r); return r
        if name == 'fclose':
            f = stream(ip, ip.val(ip.argv(argnodes)[0]), 'fclose'); r = c.fresh_int('closed', -1, 0); ev(ip, 'fclose', f, r); return r
        if name == 'fileno': return FD(stream(ip, ip.val(ip.argv(argnodes)[0]), 'fileno'))
        if name == 'isatty': r = c.fresh_int('tty'); ev(ip, 'isatty', ip.tonum(ip.val(ip.argv(argnodes)[0])), r); return r
        if name == 'format' and 'string' in qt(n): t = sym_text('message', I(len(c.trace))); c.assume(z3.And(t.len() >= 0, t.len() < 2 ** 31)); [ip.argv([x]) for x in argnodes]; return Str(t, 'string', c.newgen())
        if name == '__errno_location': return Ptr(root(ip, c.fresh_int('errno', 0, 200), 'errno'))
        return LogUnit.lib_function(self, ip, name, decl, argnodes, n, dst)
FD = z3.Function('fd_of', z3.IntSort(), z3.IntSort())
def ev(ip, name, *a): ip.c.trace.append(Ev(name, *a, locks=tuple(ip.c.locks)))
def stream(ip, f, what):
    if isinstance(f, Ptr) and f.t is None: ip.c.violated(f'{what} gets an open stream', 'null', 'safety'); raise PathEnd()
    if not isinstance(f, Handle): raise Unsupported(f'stream {f}')
    ip.c.check(f'{what} gets an open stream', f.t != 0, 'safety'); return f.t
def c_throw(ip, this, args, n, dst):
    t = text_of(ip, args[0]); ip.c.trace.append(Ev('error', t)); raise CppThrow(Exc('std', t, 'learnlog_excpt'))
def c_format(ip, u, h, args):
    """any formatter: appends its text for the message, may move the colour range within it, may throw before or after doing so"""
    c = ip.c; m, b = args; ev(ip, 'format', h.t, m)
    t = sym_text(FMT, I(len([e for e in c.trace if e.name == 'format']))); c.assume(z3.And(t.len() >= 0, t.len() < 2 ** 31)); s = c.read(b, True); full = Str(s.r + t, s.fam, c.newgen()); c.write(b, full)
    if c.choose_nd(2):
        o = c.read(m, True); x, y = c.fresh_int('cs', 0), c.fresh_int('ce', 0); c.assume(z3.And(x <= full.r.len(), y <= full.r.len()))
        c.ghost['range'] = (x, y)
        for k, v in (('color_index_start', x), ('color_index_end', y)): c.write(m.sub(('f', k)), v)
    if u.format_fails: fail(ip, u)
class FileContracts(SinkIO):
    """file_base under the contracts proved for C13; existence of a file name is a function of the name"""
    io_fails = True
    def contract(self, cls, name):
        b = name.split('::')
        if cls is None and len(b) > 1 and b[-2] == 'file_base' and b[-1] in FILE: return FILE[b[-1]]
        if cls is None and b[-1] == 'dir_exist': return lambda ip, this, args, n, dst: exists(ip, args)
        return SinkIO.contract(self, cls, name)
EXISTS = z3.Function('file_exists', z3.IntSort(), z3.BoolSort())
def exists(ip, args):
    t = text_of(ip, args[0]); k = name_key(ip, t); ip.c.trace.append(Ev('exists', t)); return EXISTS(k)
def name_key(ip, t):
    """the number in a rolled file name, or the identity of another text"""
    if len(t.segs) == 1 and isinstance(t.segs[0], Sub) and t.segs[0].b.name == 'rolled': return t.segs[0].b.args[0]
    return ip.lib.text_id(ip, t)
def io_error(ip, what):
    if ip.e.unit.io_fails and ip.c.choose_nd(2): t = sym_text('io_error', I(len(ip.c.trace))); ip.c.assume(t.len() >= 0); ev(ip, 'error', what); raise CppThrow(Exc('std', t, 'learnlog_excpt'))
def f_open(ip, this, args, n, dst):
    c = ip.c; p = ip.val(args[0]); old = c.read(p.t, True); tr = ip.tobool(ip.val(args[2])) if len(args) > 2 else FALSE
    if isinstance(old, Handle) and c.choose(old.t != 0): ev(ip, 'file.close', old.t); c.write(p.t, Ptr(None)); io_error(ip, 'close')
    c.write(p.t, Ptr(None)); ev(ip, 'file.open', name_key(ip, text_of(ip, args[1])), tr); io_error(ip, 'open'); h = c.fresh_int('file'); c.assume(h > 0); c.write(p.t, Handle('FILE', h)); ev(ip, 'file.opened', h)
def f_close(ip, this, args, n, dst):
    c = ip.c; p = ip.val(args[0]); old = c.read(p.t, True)
    if isinstance(old, Handle) and c.choose(old.t != 0): ev(ip, 'file.close', old.t); c.write(p.t, Ptr(None)); io_error(ip, 'close')
def f_flush(ip, this, args, n, dst): f = ip.val(args[0]); ev(ip, 'file.flush', f.t if isinstance(f, Handle) else I(0)); io_error(ip, 'flush')
def f_write(ip, this, args, n, dst):
    f = stream(ip, ip.val(args[0]), 'write'); ev(ip, 'file.write', f, text_of(ip, args[2])); io_error(ip, 'write')
def f_size(ip, this, args, n, dst):
    c = ip.c; f = stream(ip, ip.val(args[0]), 'size'); ev(ip, 'file.size', f); io_error(ip, 'size'); tr = [e for e in c.trace if isinstance(e, Ev) and e.name in ('file.flush', 'file.write')]
    if tr and tr[-1].name == 'file.flush' and 'content' in c.ghost: return c.ghost['content']
    r = c.fresh_int('size', 0); c.assume(r < 2 ** 62); return r
FILE = dict(open=f_open, close=f_close, flush=f_flush, write=f_write, size=f_size)
def any_of_type(ip, t, nm):
    """an arbitrary value of a field"""
    c = ip.c; b = t; ref = t.rstrip().endswith('&'); t = norm(strip_cv(t)).replace('mutable ', '')
    if ref:
        if 'mutex' in b: return Ptr(root(ip, Opaque('std::mutex'), nm), 'ref')
        if 'ostream' in b: return Ptr(root(ip, Opaque('ostream', id='os'), nm), 'ref')
    if 'mutex' in t: return Opaque(t)
    if 'atomic<' in t: return Atomic(z3.Int('sl'), 'int')
    if t.endswith('*') and 'FILE' in t: c.assume(z3.Int(nm) > 0); return Handle('FILE', z3.Int(nm))
    if 'formatter' in t: c.assume(z3.Int(nm) > 0); return Handle('formatter', z3.Int(nm))
    if t == 'bool': return z3.Bool(nm)
    if is_string(t): c.assume(z3.And(sym_text(nm).len() >= 0, sym_text(nm).len() < 2 ** 31)); return Str(sym_text(nm), 'string', c.newgen())
    it = ip.int_type(t)
    if it: c.assume(z3.And(z3.Int(nm) >= 0, z3.Int(nm) < 2 ** 63)); return z3.Int(nm)
    m = re.match(r'std::array<(.*), (\d+)>$', t)
    if m: return Parts([any_of_type(ip, m.group(1), f'{nm}_{i}') for i in range(int(m.group(2)))])
    raise Unsupported(f'field {nm} of type {t}')
def lineage(ip, cls):
    out = [cls]
    for b in ip.ast.classes[cls].bases:
        if ip.ast.classes.get(b): out += lineage(ip, b)
    return out
def all_fields(ip, cls):
    out = []
    for k in reversed(lineage(ip, cls)): out += [f for f in ip.ast.classes[k].fields]
    return out
def the_sink(ip, cls, over=None):
    """an arbitrary sink of this class; constant fields have their initialiser's value"""
    c = ip.c
    if cls not in ip.ast.classes: raise Unsupported(f'class {cls} not found')
    f = {}
    for fd in all_fields(ip, cls):
        if 'const' in qt(fd).split() and fd.get('hasInClassInitializer'): f[fd['name']] = const_field(ip, fd); continue
        f[fd['name']] = any_of_type(ip, fd['type'].get('desugaredQualType', qt(fd)) if not is_string(norm(strip_cv(qt(fd)))) else qt(fd), fd['name'])
    f.update(over or {}); return root(ip, Obj(cls, f), 'sink')
def const_field(ip, fd):
    c = ip.c; s = []
    def walk(n):
        if n.get('kind') == 'StringLiteral': s.append(n['value'])
        for x in n.get('inner', []): walk(x)
    walk(fd)
    if len(s) != 1: raise Unsupported(f'initialiser of {fd["name"]}')
    import json
    return Str(Rope([bytes(s[0][1:-1], 'latin1').decode('unicode_escape')]), 'string', c.newgen())
def lock_of(ip, lv):
    o = ip.c.read(lv, True)
    for k, v in o.f.items():
        if isinstance(v, Opaque) and 'mutex' in v.fam: return lv.sub(('f', k))
        if isinstance(v, Ptr) and v.kind == 'ref' and isinstance(v.t, LV) and isinstance(ip.c.store[v.t.root], Opaque) and 'mutex' in ip.c.store[v.t.root].fam: return v.t
    raise Unsupported('no lock in the sink')
def formatter_of(ip, lv):
    o = ip.c.read(lv, True); fs = [k for k, v in o.f.items() if isinstance(v, Handle) and v.kind == 'formatter']
    if len(fs) != 1: raise Unsupported('formatter of the sink')
    return lv.sub(('f', fs[0]))
def outcome(f):
    """runs f; the exception that leaves it, if any"""
    try: f(); return None
    except CppThrow as e: return e.exc
