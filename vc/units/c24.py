"""C24: errors inside library calls are reported on stderr, once, and are not thrown at the user."""
from units.registry import *
import units.c17 as c17, units.c18 as c18, units.c23 as c23, units.c20 as c20, units.c06 as c06
from units.c23 import enum_value
from units.c17 import flatten, logger_arg, name_arg
from units.pools import AsyncUnit, AL
STRERROR = 'errtext'
# ---------------------------------------------------------------- error objects
class ErrUnit(LogUnit):
    """fmt::format_system_error appends "<message>: <text of the error number>"; fmt's replacement fields without a format specification"""
    def contract(self, cls, name): return None
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        if name == 'what' and isinstance(v, Obj) and v.cls in ip.ast.classes: return call(ip, v.cls, 'what', obj, nparams=0)
        return LogUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt) if hasattr(LogUnit, 'lib_method') else NotImplemented
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        c = ip.c
        if name == 'format_system_error':
            a = ip.argv(argnodes); b = a[0]; e = ip.tonum(ip.val(a[1])); t = sym_text(STRERROR, S(e)); c.assume(z3.And(t.len() >= 0, t.len() < 2 ** 20))
            w = c.read(b, True); c.write(b, Str(w.r + text_of(ip, a[2]) + rope(': ') + t, w.fam, c.newgen())); return None
        if name in ('format_to', 'format'):
            f = literal(argnodes[1 if name == 'format_to' else 0], ip.ast)
            if f is None: raise Unsupported('format text')
            out = ip.val(ip.argv(argnodes[:1])[0]) if name == 'format_to' else None; t = fill(ip, f, ip.argv(argnodes[2 if name == 'format_to' else 1:]))
            if out is None: return Str(t, 'string', c.newgen())
            if not (isinstance(out, Opaque) and out.fam == 'appender'): raise Unsupported('format_to')
            b = c.read(out.kw['out'], True); c.write(out.kw['out'], Str(b.r + t, b.fam, c.newgen())); return out
        if name == 'to_string' and len(argnodes) == 1:
            v = ip.val(ip.argv(argnodes)[0])
            if z3.is_expr(v): return Str(Rope([Dec(v)]), 'string', c.newgen())
            return Str(text_of(ip, v), 'string', c.newgen())
        if name == 'strerror': return CharP(sym_text(STRERROR, S(ip.tonum(ip.val(ip.argv(argnodes)[0])))), 0)
        return LogUnit.lib_function(self, ip, name, decl, argnodes, n, dst)
def literal(n, ast):
    """the text of a string literal, also of one wrapped by FMT_STRING"""
    out = []; seen = set()
    def go(x):
        if not isinstance(x, dict) or id(x) in seen: return
        seen.add(id(x))
        if x.get('kind') == 'StringLiteral': out.append(x); return
        for y in x.get('inner', []): go(y)
        r = x.get('referencedDecl') or {}
        if r.get('id') in ast.by_id and r.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl'): go(ast.by_id[r['id']])
    go(n)
    import json
    vs = {json.loads(x['value']) if x['value'].startswith('"') else None for x in out}
    return vs.pop() if len(vs) == 1 and None not in vs else None
def fill(ip, f, args):
    t = Rope([]); i = 0; k = 0
    while i < len(f):
        if f[i:i + 2] in ('{{', '}}'): t = t + rope(f[i]); i += 2
        elif f[i] == '{':
            if f[i + 1] != '}' or k >= len(args): raise Unsupported('replacement field')
            v = ip.val(args[k]); k += 1; i += 2; t = t + (Rope([Dec(v)]) if z3.is_expr(v) else text_of(ip, v))
        else: t = t + rope(f[i]); i += 1
    return t
def thrown(ip, fn):
    """what() of the exception fn throws"""
    c = ip.c
    try: fn()
    except CppThrow as e:
        c.check('the error is a standard exception', z3.BoolVal(e.exc.kind == 'std'))
        if getattr(e.exc, 'lv', None) is None: raise Unsupported('thrown object')
        return what(ip, e.exc.lv)
    c.violated('an error is thrown'); raise PathEnd()
def what(ip, lv): o = ip.c.read(lv, True); return text_of(ip, ip.val(call(ip, o.cls, 'what', lv, nparams=0)))
def expected(ip, k, m, e, l):
    t = m
    if k >= 1: t = t + rope(': ') + sym_text(STRERROR, e)
    if k == 2: t = t + rope('\n[location: ') + sym_text('x_filename') + rope(':') + Rope([Dec(l.f['line'])]) + rope(' - ') + sym_text('x_funcname') + rope(']')
    return t
def err_args(ip):
    c = ip.c; k = c.choose_nd(3); a = text_root(ip, 'text'); e = z3.Int('errno'); c.assume(z3.And(e >= 0, e < 2 ** 31)); f = fresh_scalars(ip, 'x'); loc = root(ip, f['loc'], 'loc')
    for x in ('x_filename', 'x_funcname'): c.assume(z3.And(sym_text(x).len() >= 0, sym_text(x).len() < 2 ** 20))
    return k, [a, e, loc][:k + 1], expected(ip, k, sym_text('text'), e, f['loc'])
def u_object(ip, u):
    c = ip.c; k, args, want = err_args(ip); o = root(ip, Obj('learnlog_excpt', {}), 'err'); ctor(ip, 'learnlog_excpt', o, args, nparams=k + 1)
    c.check_text('an error object carries message, system error text and source location', what(ip, o), want)
    p = root(ip, Opaque('uninit'), 'copy'); cp = c.choose_nd(2)
    fs = [m for m in ip.ast.classes['learnlog_excpt'].methods if m.kind == 'CXXConstructorDecl' and len(m.params) == 1 and 'learnlog_excpt' in m.params[0]['type']['qualType'] and ('&&' in m.params[0]['type']['qualType']) == bool(cp)]
    if fs: c.store[p.root] = Obj('learnlog_excpt', {}); ip.construct_with(ip.ast.classes['learnlog_excpt'], fs[0], [o], p, False); c.check_text('a copy of an error object carries the same text', what(ip, p), want)
def u_throw(ip, u):
    c = ip.c; k, args, want = err_args(ip); fs = [f for f in ip.ast.byqual.get('throw_learnlog_excpt', []) if f.body is not None and len(f.params) == k + 1]
    if not fs: raise Unsupported('throw_learnlog_excpt')
    c.check_text('the error thrown carries message, system error text and source location', thrown(ip, lambda: ip.run_func(fs[0], None, args)), want)
# ---------------------------------------------------------------- the report
class RepUnit(ErrUnit):
    """fprintf/fputs/fwrite to a stream are events; strftime writes a text of bounded length"""
    handle_kinds = LogUnit.handle_kinds | frozenset(['FILE', '_IO_FILE'])
    def contract(self, cls, name):
        if (cls is None or cls == 'os') and name.split('::')[-1] in ('time_point_to_tm',): return lambda ip, this, args, n, dst: Opaque('tm')
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        c = ip.c
        if name == 'strftime':
            a = ip.argv(argnodes[:3]); p = ip.val(a[0]); k = ip.tonum(ip.val(a[1])); f = text_of(ip, a[2]).concrete()
            ln = tm_len(f)
            if ln is None or not isinstance(p, (Ptr, CharP)): raise Unsupported('strftime')
            lv = whole(p); c.check('the date fits its buffer', z3.And(k > ln, k <= size_of_buffer(ip, lv)), 'safety')
            t = c.fresh_text('date'); c.assume(t.len() == ln); c.store[lv.root] = loops.set_path(c.store[lv.root], lv.path, Str(t, 'string', c.newgen())) if lv.path else Str(t, 'string', c.newgen()); return t.len()
        if name in ('fprintf', 'printf', 'fputs', 'fputc', 'putc', 'fwrite', 'puts', 'vfprintf', 'dprintf', 'write', 'perror', 'print'):
            a = ip.argv(argnodes)
            if name == 'fprintf': s, t = ip.val(a[0]), printf(ip, a[1], a[2:])
            elif name == 'fputs': s, t = ip.val(a[1]), text_of(ip, a[0])
            elif name in ('fputc', 'putc'): s, t = ip.val(a[1]), Rope([Chr(ip.tonum(ip.val(a[0])))])
            elif name == 'fwrite' and c.prove(ip.tonum(ip.val(a[1])) == 1): s = ip.val(a[3]); t = text_of(ip, View(ip.val(a[0]), ip.tonum(ip.val(a[2]))))
            elif name == 'printf': s, t = Handle('FILE', z3.Int('file_stdout')), printf(ip, a[0], a[1:])
            else: raise Unsupported(name)
            c.trace.append(Ev('printed', s, t)); return c.fresh_int('printed', 0)
        if name == 'fflush': return I(0)
        return ErrUnit.lib_function(self, ip, name, decl, argnodes, n, dst)
TM = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'F': 10, 'T': 8, 'y': 2, 'j': 3, 'e': 2, 'R': 5, 'D': 8, '%': 1}
def tm_len(f):
    """longest text of a date format for years up to 9999"""
    if f is None: return None
    n = i = 0
    while i < len(f):
        if f[i] == '%':
            if i + 1 >= len(f) or f[i + 1] not in TM: return None
            n += TM[f[i + 1]]; i += 2
        else: n += 1; i += 1
    return n
def whole(p):
    if isinstance(p, CharP) and isinstance(p.src, LV) and is_const(S(p.off)) and cval(S(p.off)) == 0: return p.src
    if isinstance(p, Ptr) and isinstance(p.t, LV): return LV(p.t.root, p.t.path[:-1]) if p.t.path and p.t.path[-1][0] == 'i' else p.t
    if isinstance(p, Iter): return p.arr if hasattr(p, 'arr') else p.lv
    raise Unsupported(f'buffer {p}')
def size_of_buffer(ip, lv):
    v = ip.c.read(lv, True)
    if isinstance(v, Arr): return v.n
    if isinstance(v, Parts): return I(len(v.els))
    if isinstance(v, Str) and hasattr(v, 'cap'): return v.cap
    raise Unsupported(f"size of a buffer {type(v)} {v}")
def c_text(ip, x):
    v = ip.val(x) if isinstance(x, LV) else x
    if isinstance(v, Ptr) and isinstance(v.t, LV) and isinstance(ip.c.read(whole(v), True), Str): return text_of(ip, whole(v))
    return text_of(ip, v)
def printf(ip, fn, args):
    f = text_of(ip, fn).concrete()
    if f is None: ip.c.violated('text of the user is not a format text', 'printf format', 'safety'); raise PathEnd()
    t = Rope([]); i = 0; k = 0
    for m in re.finditer(r'%(%|0?\d*(zu|zd|lu|ld|llu|lld|d|u|s|c)|-?\d*s|\.\*s)|[^%]+|%', f):
        x = m.group(0)
        if x == '%%': t = t + rope('%')
        elif not x.startswith('%'): t = t + rope(x)
        elif x == '%': raise Unsupported('printf format')
        elif x == '%s': t = t + c_text(ip, args[k]); k += 1
        elif x[-1] in 'du': ip.tonum(ip.val(args[k])); k += 1; n = ip.c.fresh_text('number'); ip.c.assume(n.len() >= 1); t = t + n
        else: raise Unsupported(f'printf {x}')
    return t
def u_report(ip, u):
    c = ip.c; a = text_root(ip, 'text'); fs = [f for f in ip.ast.byqual.get('handle_excpt', []) if f.body is not None]; _, ex = attempt(lambda: ip.run_func(fs[0], None, [a])); pr = [e for e in c.trace if e.name == 'printed']
    c.check('reporting does not throw', z3.BoolVal(ex is None)); c.check('a report is printed', z3.BoolVal(bool(pr)))
    for e in pr: c.check('reports go to stderr', z3.BoolVal(False) if not isinstance(e.args[0], Handle) else e.args[0].t == z3.Int('file_stderr'))
    t = Rope([])
    for e in pr: t = t + e.args[1]
    n = [i for i, s in enumerate(t.segs) if repr(s) == repr(sym_text('text').segs[0])]
    c.check('the report holds the whole message, once', z3.BoolVal(len(n) == 1)); last = t.segs[-1] if t.segs else None; c.check('the report ends its line', z3.BoolVal(isinstance(last, Lit) and last.s.endswith('\n')))
# ---------------------------------------------------------------- the public calls
PUB = {'close_registry': 'close'}
class PubUnit(c23.PoolRegUnit):
    """learnlog::f with the registry's real code below it"""
    stubbed = ('instance',); faulty = False
    def contract(self, cls, name):
        if cls is None and name.split('::')[-1] == 'throw_learnlog_excpt': return c_throw_text
        if cls is None and name.split('::')[-1] == 'handle_excpt': return c_report
        return c23.PoolRegUnit.contract(self, cls, name)
    def handle_contract(self, kind, name):
        if kind == 'formatter' and name == 'clone' and self.faulty: return lambda ip, h, args, n, dst: (fail(ip, self), c_clone(ip, h, args, n, dst))[1]
        if kind in ('logger', 'async_logger') and name in ('set_pattern', 'set_formatter') and self.faulty: return lambda ip, h, args, n, dst: (c_setter(ip, self, h, name, args), fail(ip, self))[0]
        return c23.PoolRegUnit.handle_contract(self, kind, name)
    def fresh(self, ip, k, kind, args):
        if self.faulty and (kind.endswith('pool') or kind in ('periodic_function', 'formatter')): fail(ip, self)
        return c23.PoolRegUnit.fresh(self, ip, k, kind, args)
def c_throw_text(ip, this, args, n, dst):
    t = text_of(ip, args[0]); ip.c.trace.append(Ev('raise')); ip.c.trace.append(Ev('thrown', t)); raise CppThrow(Exc('std', t, 'learnlog_excpt'))
def public(ip, fn, n):
    fs = [f for f in ip.ast.byqual.get(PUB.get(fn, fn), []) if f.body is not None and f.cls is None and len(f.params) == n]
    if len(fs) > 1: fs = c23.of_null_sink(fs)
    if len(fs) != 1: raise Unsupported(f'learnlog::{PUB.get(fn, fn)}: {len(fs)}')
    return fs[0]
def outcome(ip, exc, what):
    """each failure is reported once with its message; only exceptions of other types are passed on, after a report. Returns the failures."""
    c = ip.c; ev = list(flatten(c.trace)); bad = [e for e in ev if e.name == 'thrown']; oth = [e for e in ev if e.name == 'thrown_other']; rep = [e for e in ev if e.name == 'report']
    c.check(f'{what}: locks are released', z3.BoolVal(not c.locks))
    if exc is not None and exc.kind == 'std': c.violated(f'{what}: a standard exception does not reach the caller'); raise PathEnd()
    c.check(f'{what}: exceptions of other types are passed on', z3.BoolVal((exc is not None) == bool(oth)))
    c.check(f'{what}: one report for a failure, none otherwise', z3.BoolVal(len(rep) > len(bad) if oth else len(rep) == len(bad)))
    if not oth and len(rep) == len(bad):
        for a, b in zip(bad, rep): c.check_text(f'{what}: the report carries the message of the error', b.args[0], a.args[0])
    return bad, oth
def call_public(ip, cls, name, this, args=(), pred=None, nparams=None, dst=None):
    if cls != REG: return call(ip, cls, name, this, args, pred, nparams, dst)
    r, exc = attempt(lambda: ip.run_func(public(ip, name, len(args)), None, list(args), dst=dst))
    if name == 'exec_all' and exc is not None: raise CppThrow(exc)
    bad, oth = outcome(ip, exc, name)
    if bad: raise CppThrow(Exc('std', bad[0].args[0]))      # for the rest of the contract: the operation failed
    return r
def via_public(mod, run):
    def go(ip, u):
        old = mod.call; mod.call = call_public
        try: run(ip, u)
        finally: mod.call = old
    return go
def fault(fn, mk):
    def run(ip, u):
        r = setup(ip, u); _, exc = attempt(lambda: ip.run_func(public(ip, fn, len(mk) if isinstance(mk, tuple) else 0), None, [m(ip) for m in mk])); outcome(ip, exc, fn)
    return run
def gf(ip): g = z3.Int('given'); ip.c.assume(g > 0); return root(ip, Handle('formatter', g), 'given')
def pool(ip): p = z3.Int('newpool'); ip.c.assume(p >= 0); return root(ip, Handle('thread_pool', p), 'tp')
def num(nm): return lambda ip: ip.c.fresh_int(nm, 0, 2 ** 62)
def txt(nm): return lambda ip: text_root(ip, nm)
def lg(ip): return logger_arg(ip)[0]
def interval(ip): return ip.c.fresh_int('interval', 0, 2 ** 40)
# ---------------------------------------------------------------- factories
def u_factory(fn, cls, asyn):
    """after the sink was built, a failing initialisation is reported and the logger still returned"""
    def run(ip, u):
        c = ip.c; u.reg = root(ip, Obj(REG, {}), 'registry'); p = z3.Int('current'); c.assume(p >= 0); c.assume(z3.And(c23.QS(p) >= 1, c23.TS(p) >= 1)); c.ghost['current'] = p
        c.assume(z3.Or(*[c23.QT(p) == c23.enum_value(ip, k, 'msg_queue_type') for k in c23.KIND.values()]))
        f = public(ip, fn, 1) if cls is None else c23.of_null_sink([m for m in ip.ast.methods(f'{cls}::create') if m.body is not None and len(m.params) == 1])[0]
        r, exc = attempt(lambda: ip.run_func(f, None, [text_root(ip, 'name')])); outcome(ip, exc, 'factory')
        kind = 'async_logger' if asyn else 'logger'; logs = [e for e in c.trace if e.name == 'made' and e.args[0] in ('logger', 'async_logger')]; init = only(c.trace, ('initialize',))
        c.check('exactly one logger is made and initialised', z3.BoolVal(len(logs) == 1 and len(init) == 1))
        if exc is None and len(logs) == 1:
            g = hid(ip.val(r)); c.check('the logger is returned', z3.BoolVal(g is not None)); 
            if g is not None: c.check('the logger made is returned', g == logs[0].args[1].t); c.check('the logger made is initialised', hid(init[0].args[0]) == g) if init else None
            c.check('it is of the factory\'s kind', z3.BoolVal(logs[0].args[0] == kind)); c.check_text('the logger has the name given', logs[0].args[2][0], sym_text('name'))
            sk = [e for e in c.trace if e.name == 'made' and e.args[1].kind == 'sink']; c.check('one sink is made', z3.BoolVal(len(sk) == 1))
            if len(sk) == 1: c.check('the logger has the sink made', z3.BoolVal(any(isinstance(x, Handle) and x.kind == 'sink' and x.t.eq(sk[0].args[1].t) for x in logs[0].args[2])))
    return run
# ---------------------------------------------------------------- logging and flushing
class SyncUnit(LogUnit): outcomes = 3
def u_sync(fn):
    def run(ip, u):
        c = ip.c; l = fresh_logger(ip); a = [] if fn == 'flush' else [fresh_msg(ip, 'm')[0]]; _, exc = attempt(lambda: call(ip, 'logger', fn, l, a)); sync_reports(ip, c.trace, exc)
    return run
def sync_reports(ip, tr, exc):
    c = ip.c; c.check('a standard exception of a sink does not reach the caller', z3.BoolVal(exc is None or exc.kind == 'other'))
    def go(t):
        for e in t:
            if isinstance(e, FE):
                for _, s in e.alts: go(s)
        ns = [e for e in t if not isinstance(e, FE) and e.name in ('thrown', 'thrown_other', 'report')]
        good = len(ns) % 2 == 0 and all(ns[i].name != 'report' and ns[i + 1].name == 'report' for i in range(0, len(ns), 2))
        c.check('each failure is reported once, where it happened', z3.BoolVal(good))
        if good:
            for a, b in zip(ns[::2], ns[1::2]):
                if a.name == 'thrown': c.check_text('the report carries the message of the error', b.args[0], a.args[0])
    go(tr)
    if exc is not None: c.check('only exceptions of other types are passed on', z3.BoolVal(exc.kind == 'other'))
def u_passed(fn):
    """an exception that is not a standard one is passed on at once"""
    def run(ip, u):
        c = ip.c; l = fresh_logger(ip); a = [] if fn == 'flush' else [fresh_msg(ip, 'm')[0]]; s = c.read(l, True).f['sinks_']; _, exc = attempt(lambda: call(ip, 'logger', fn, l, a))
        other = []
        def go(t):
            for e in t:
                if isinstance(e, FE): [go(x) for _, x in e.alts]
                elif e.name == 'thrown_other': other.append(e)
        go(c.trace); c.check('exceptions of other types are passed on', z3.BoolVal((exc is not None) == bool(other)))
    return run
def units():
    E = lambda n, f, r, **k: U(n, f, r, base=k.pop('b', ErrUnit), **k)
    out = [E('error objects', ['learnlog_excpt::learnlog_excpt', 'learnlog_excpt::what'], u_object), E('throw', ['throw_learnlog_excpt'], u_throw), E('report', ['handle_excpt', 'os::time_point_to_datetime_sec'], u_report, b=RepUnit)]
    P = lambda n, f, r, **k: U('public: ' + n, [f], r, base=PubUnit, **k)
    for u, mod in [(x, c17) for x in c17.units()] + [(x, c18) for x in c18.units()] + [(x, c23) for x in c23.units()]:
        fn = u.funcs[0].split('::')[-1]
        if u.funcs[0].split('::')[0] != REG or fn in ('registry', 'instance', 'initialize_thread_pool'): continue
        out.append(P(fn, PUB.get(fn, fn), via_public(mod, u.raw), throws=fn == 'exec_all'))
    F = lambda fn, *mk: U('fault: ' + fn, [PUB.get(fn, fn)], fault(fn, mk), base=PubUnit, outcomes=3, faulty=True)
    out += [F('initialize_logger', lg), F('register_logger', lg), F('set_pattern', txt('name'), txt('text')), F('set_global_pattern', txt('text')), F('set_global_formatter', gf), F('register_thread_pool', pool), F('initialize_thread_pool', num('q'), num('n')), F('flush_every', interval), F('close_registry')]
    st = dict(stubbed=('instance', 'get_thread_pool', 'register_thread_pool', 'initialize_logger'), outcomes=3)
    for fn, cls, asyn in [('create', None, 0), ('create_async_lock', None, 1), ('create_async_lockfree', None, 1), ('create_async_lockfree_concurrent', None, 1), ('create', 'sync_factory', 0)] + [('create', f'async_factory_template<{p}>', 1) for p in c23.KIND]:
        out.append(P(f'{cls or "learnlog"}::{fn}', f'{cls}::{fn}' if cls else fn, u_factory(fn, cls, asyn), **st))
    for fn in ('sink_log_', 'flush'): out += [U(f'logger: {fn} reports', ['logger::' + fn], u_sync(fn), base=SyncUnit)]
    out += [x for x in c06.units() if x.name == 'rendered text'] + [x for x in c20.units() if x.name in ('async: submit', 'async: flush', 'async: worker delivers', 'async: worker flushes')]
    return out
