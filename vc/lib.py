"""Contracts of the library functions the code under verification calls (trusted: listed in the evidence)."""
import re
import z3
from core import *
from interp import strip_cv, qt, norm, INTS

# ---------------------------------------------------------------- container values
class Arr(Val):
    """vector/array of abstract elements: elements are integers naming objects of a kind"""
    fam = 'vector'
    def __init__(self, a, n, kind): self.a, self.n, self.kind = a, toint(n), kind
    def key(self): return (self.kind,)
    def terms(self): return [self.a, self.n]
    def with_terms(self, t): return Arr(t[0], t[1], self.kind)
    def dec(self, t): return t if self.kind == 'int' else Handle(self.kind, t)
    def get(self, ctx, e):
        if e[0] == 'i': return self.dec(S(z3.Select(self.a, e[1])))
        return Val.get(self, ctx, e)
    def set(self, ctx, e, v):
        if e[0] == 'i': return Arr(z3.Store(self.a, e[1], v.t if isinstance(v, Handle) else I(0) if isinstance(v, Ptr) and v.t is None else v), self.n, self.kind)
        return Val.set(self, ctx, e, v)
    def moved(self, ctx): return Arr(self.a, I(0), self.kind)
    def __repr__(self): return f'Arr<{self.kind}>[{self.n}]'

class Parts(Val):
    """vector or array whose elements are objects of the store, listed"""
    fam = 'parts'
    def __init__(self, els, kind=''): self.els = tuple(els); self.kind = kind
    def key(self): return (len(self.els),)
    def get(self, ctx, e):
        if e[0] == 'i' and is_const(S(e[1])) and 0 <= cval(S(e[1])) < len(self.els): return self.els[cval(S(e[1]))]
        raise Unsupported('symbolic index into a listed sequence')
    def set(self, ctx, e, v):
        if e[0] == 'i' and is_const(S(e[1])) and 0 <= cval(S(e[1])) < len(self.els):
            l = list(self.els); l[cval(S(e[1]))] = v; return Parts(l, self.kind)
        raise Unsupported('symbolic index into a listed sequence')
    def moved(self, ctx): return Parts((), self.kind)
    def copied(self, ctx): return Parts([x.copied(ctx) if isinstance(x, Val) else x for x in self.els], self.kind)
    @property
    def n(self): return I(len(self.els))

class Ring(Val):
    """abstract view of circular_queue<T>: elements a[lo..hi), capacity cap (0: inert), overwrite counter"""
    fam = 'ring'
    def __init__(self, a, lo, hi, cap, ovr, kind): self.a, self.lo, self.hi, self.cap, self.ovr, self.kind = a, lo, hi, cap, ovr, kind
    def key(self): return (self.kind,)
    def terms(self): return [self.a, self.lo, self.hi, self.cap, self.ovr]
    def with_terms(self, t): return Ring(*t, self.kind)
    def get(self, ctx, e):
        if e[0] == 'i': return Handle(self.kind, S(z3.Select(self.a, e[1])))
        return Val.get(self, ctx, e)
    def set(self, ctx, e, v):
        if e[0] == 'i': return Ring(z3.Store(self.a, e[1], v.t), self.lo, self.hi, self.cap, self.ovr, self.kind)
        return Val.set(self, ctx, e, v)
    def moved(self, ctx): return Ring(self.a, I(0), I(0), I(0), I(0), self.kind)
    @property
    def n(self): return S(self.hi - self.lo)
    def __repr__(self): return f'Ring[{self.lo},{self.hi})/{self.cap} ovr={self.ovr}'
def fresh_ring(ctx, kind, name='ring'):
    a = z3.Array(ctx.fresh_name(name + '_a'), z3.IntSort(), z3.IntSort())
    lo = ctx.fresh_int(name + '_lo'); hi = ctx.fresh_int(name + '_hi'); cap = ctx.fresh_int(name + '_cap', 0, 2 ** 63); ovr = ctx.fresh_int(name + '_ovr', 0, 2 ** 62)
    ctx.assume(z3.And(lo <= hi, hi - lo <= cap))
    return Ring(a, lo, hi, cap, ovr, kind)

class Iter(Val):
    """iterator into a vector: container designator and index"""
    fam = 'iter'
    def __init__(self, cont, i): self.cont, self.i = cont, i
    def key(self): return (self.cont,)
    def terms(self): return [self.i]
    def with_terms(self, t): return Iter(self.cont, t[0])
    def deref(self, ip): return index(ip, self.cont, self.i, 'iterator dereference')
    def __eq__(self, o): return isinstance(o, Iter) and self.cont == o.cont and self.i.eq(o.i)
    def __hash__(self): return 7
class StrIter(Val):
    """std::string iterator"""
    fam = 'striter'
    def __init__(self, p): self.p = p
    def key(self): return (self.p.src, self.p.gen)
    def terms(self): return [self.p.off]
    def with_terms(self, t): return StrIter(CharP(self.p.src, t[0], self.p.gen))
    def deref(self, ip): return self.p
    def __eq__(self, o): return isinstance(o, StrIter) and self.p.src == o.p.src and self.p.off.eq(o.p.off)
    def __hash__(self): return 8

class Atomic(Val):
    fam = 'atomic'
    def __init__(self, v, t): self.v, self.ty = v, t
    def key(self): return (self.ty,)
    def terms(self): return [self.v]
    def with_terms(self, t): return Atomic(t[0], self.ty)
    def __eq__(self, o): return isinstance(o, Atomic) and self.v.eq(o.v)
    def __hash__(self): return 9

class Guard(Val):
    """lock_guard / unique_lock"""
    fam = 'guard'
    def __init__(self, m, owned): self.m, self.owned = m, owned
    def __eq__(self, o): return isinstance(o, Guard) and self.m == o.m and self.owned == o.owned
    def __hash__(self): return 10

def table_text(c, names, i):
    """entry i of a table of literals, as one text"""
    ns = [len(x) for x in names]; n = I(ns[-1])
    if len(set(ns)) > 1:
        for j in range(len(ns) - 2, -1, -1): n = z3.If(i == j, I(ns[j]), n)
    return Rope([Sub(Base('table_' + '|'.join(names), i), 0, n)])
def table_entry(ip, els, i):
    names = []
    for e in els:
        if not isinstance(e, (View, CharP)) or isinstance(e.p.src if isinstance(e, View) else e.src, (LV, type(None))): return None
        t = text_of(ip, e).concrete()
        if t is None: return None
        names.append(t)
    if len({type(e) for e in els}) != 1: return None
    r = table_text(ip.c, names, i); p = CharP(r, 0); return View(p, r.len()) if isinstance(els[0], View) else p
def index(ip, lv, i, what):
    c = ip.c; v = c.read(lv, True)
    i = S(toint(i))
    if isinstance(v, (Arr, Parts)):
        c.check(f'{what} is within bounds', z3.And(i >= 0, i < v.n), 'safety', lambda: f'{i} of {v.n}')
        if isinstance(v, Parts) and not is_const(i):
            if ip.e.unit.tables:
                r = table_entry(ip, v.els, i)
                if r is not None: return c.new_root(r, 'entry')
            for j in range(len(v.els)):
                if c.choose(i == j): i = I(j); break
        return lv.sub(('i', i))
    if isinstance(v, Str):
        n = v.r.len()
        c.check(f'{what} is within bounds', z3.And(i >= 0, i <= n if v.fam == 'string' else i < n), 'safety')
        return lv.sub(('i', i))
    raise Unsupported(f'index into {v}')

# ---------------------------------------------------------------- texts
def text_at(ip, p, n=None):
    """text of n characters at a char pointer (None: up to the terminator)"""
    c = ip.c
    if p.src is None: c.violated('null pointer read as text'); raise PathEnd()
    if isinstance(p.src, LV):
        v = c.store.get(p.src.root)
        if v is None: c.violated('text is still alive when read', str(p)); raise PathEnd()
        v = c.read(p.src, True)
        if not isinstance(v, Str): raise Unsupported(f'text in {v}')
        if p.gen is not None and p.gen != v.gen: c.violated('text is unchanged since the pointer was taken', str(p)); raise PathEnd()
        r = v.r
    else: r = rope(p.src if isinstance(p.src, Rope) else Rope([p.src]))
    ln = r.len()
    if n is None:
        if is_const(p.off) and cval(p.off) == 0: return r
        c.check('pointer is within the text', z3.And(p.off >= 0, p.off <= ln), 'safety')
        return drop(c, r, p.off)
    n = toint(n)
    c.check('text read stays within its source', z3.And(p.off >= 0, n >= 0, p.off + n <= ln), 'safety', lambda: f'{p} {n} of {ln}')
    if is_const(S(p.off)) and cval(S(p.off)) == 0 and c.prove(n == ln): return r
    return substr(c, r, p.off, n)
def text_of(ip, x):
    """text of a string-like value or designator"""
    v = ip.obj_at(x) if isinstance(x, LV) else x
    if isinstance(v, Str): return v.r
    if isinstance(v, View): return text_at(ip, v.p, v.n)
    if isinstance(v, CharP): return text_at(ip, v)
    if isinstance(v, Rope): return v
    if isinstance(v, Ptr) and isinstance(v.t, LV): return text_of(ip, v.t)
    raise Unsupported(f'text of {v}')
def load_char(ip, p):
    c = ip.c
    if isinstance(p.src, LV):
        v = c.read(p.src, True)
        if not isinstance(v, Str): raise Unsupported('char load')
        if p.gen is not None and p.gen != v.gen: c.violated('text is unchanged since the pointer was taken', str(p)); raise PathEnd()
        r = v.r
    elif isinstance(p.src, Rope): r = p.src
    else: r = Rope([p.src])
    ln = r.len()
    c.check('character read is within bounds', z3.And(p.off >= 0, p.off < ln), 'safety', lambda: f'{p.off} of {ln}')
    return char_at(c, r, p.off)

def mk_string(ip, r): return Str(rope(r), 'string', ip.c.newgen())
def view_of_text(ip, r):
    """view of an immortal text"""
    r = rope(r); return View(CharP(r, 0), r.len())

# ---------------------------------------------------------------- construction
def elem_kind(t):
    m = re.match(r'(?:std::)?(?:vector|initializer_list)<(.*)>$', t)
    k = m.group(1) if m else t
    k = re.sub(r', std::allocator<.*$', '', k)
    m = re.match(r'(?:std::)?(?:shared_ptr|unique_ptr)<(.*?)(?:, std::default_delete<.*>)?>$', k)
    return (m.group(1) if m else k).strip()

def is_string(t): return re.match(r'(std::)?(__cxx11::)?basic_string<char\b', t) is not None or t in ('std::string', 'string')
def is_view(t): return re.match(r'(fmt::)?(v\d+::)?basic_string_view<char', t) is not None or t in ('fmt_string_view', 'fmt::string_view')
def is_membuf(t): return 'basic_memory_buffer<char' in t or t == 'fmt_memory_buf'
def is_smart(t): return re.match(r'std::(shared_ptr|unique_ptr|weak_ptr|__shared_ptr|__weak_ptr)<', t) is not None or re.match(r'\w+_(shr|uni)_ptr$', t) is not None
def is_time(t): return 'chrono::' in t.split('<')[0] or re.match(r'(std::)?(time_point|duration)<', t) is not None

def c_(ip): return ip.c

class Lib:
    def __init__(self, unit=None): self.unit = unit; self.used = set()
    # -- hooks used by the interpreter
    def index(self, ip, lv, i, what): return index(ip, lv, i, what)
    def load_char(self, ip, p): return load_char(ip, p)
    def any_value(self, ip, t, tls=False):
        """a variable that keeps its value between calls, at the start of this one"""
        t0 = strip_cv(t)
        if re.search(r'(mutex|once_flag|condition_variable(_any)?)$', t0) or re.match(r'(std::)?(__)?atomic', t0): return None
        if re.match(r'(std::)?(__cxx11::)?(basic_string<char\b(?!.*\*$)|string$)', t0): return Str(ip.c.fresh_text('kept'), 'string', ip.c.newgen())
        if is_membuf(t0): return Str(ip.c.fresh_text('kept'), 'membuf', ip.c.newgen())
        if re.match(r'(struct |std::)?tm$', t0) and not tls:          # any thread may be writing it
            return Obj('tm', {k: ip.c.fresh_int('kept_' + k) for k in ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst')})
        raise Unsupported(f'a variable of type {t0[:60]} that keeps its value between calls')
    def enum_const(self, ip, r):
        nm = r['name']
        if nm.startswith('memory_order'): return I(['memory_order_relaxed', 'memory_order_consume', 'memory_order_acquire', 'memory_order_release', 'memory_order_acq_rel', 'memory_order_seq_cst'].index(nm))
        if 'future_status' in qt(r) and nm in ('ready', 'timeout', 'deferred'): return I(('ready', 'timeout', 'deferred').index(nm))
        if 'cv_status' in qt(r) and nm in ('timeout', 'no_timeout'): return I(nm == 'timeout')
        raise Unsupported(f'enumerator {nm}')
    def lib_global(self, ip, r):
        nm = r.get('name', '')
        if nm.startswith('memory_order_'): return self.enum_const(ip, r)
        h = getattr(ip.e.unit, 'lib_global', None)
        if h:
            v = h(ip, r)
            if v is not None: return v
        if nm in ('stdout', 'stderr', 'stdin'): return Handle('FILE', z3.Int('file_' + nm))
        if nm == 'npos': return I(2 ** 64 - 1)
        if nm in ('try_to_lock', 'defer_lock', 'adopt_lock'): return Opaque('locktag', tag=nm)
        raise Unsupported(f'library variable {nm}')
    def init_list(self, ip, n):
        t = ip.typ(n); cls = ip.cls(qt(n)); inner = n.get('inner', [])
        if cls is not None:
            f = {}
            for fd, e in zip(cls.fields, inner):
                lv = ip.c.new_root(Opaque('uninit'), 'agg')
                if ip.is_class(fd['type'].get('desugaredQualType', fd['type']['qualType'])): ip.init_into(e, lv); f[fd['name']] = ip.c.read(lv, True)
                else: f[fd['name']] = ip.rv(e)
            return Obj(cls.name, f)
        m = re.match(r'(.*?) ?\[(\d+)\]$', qt(n))
        if m or t.startswith('std::array<'):
            src = inner
            if not m and inner and inner[0]['kind'] == 'InitListExpr': src = inner[0].get('inner', [])
            els = []
            for e in src:
                if ip.is_class(qt(e)):
                    lv = ip.c.new_root(Opaque('uninit'), 'el'); ip.init_into(e, lv); els.append(ip.c.read(lv, True))
                else: els.append(ip.rv(e))
            filler = n.get('array_filler')
            if m and len(els) < int(m.group(2)): raise Unsupported('array filler')
            return Parts(els)
        if len(inner) == 1: return ip.rv(inner[0])
        if not inner: return self.construct(ip, t, [], None)
        raise Unsupported(f'initialiser list for {t}')
    def new_object(self, ip, t, init, lv): 
        h = getattr(ip.e.unit, 'new_object', None)
        return h(ip, t, init, lv) if h else None
    def delete_handle(self, ip, h): ip.c.trace.append(Ev('delete', h))
    def exc_kind(self, ip, t):
        if t.startswith('std::') and ('error' in t or 'exception' in t or t in ('std::bad_alloc',)): return 'std'
        cls = ip.ast.classes.get(t)
        while cls is not None:
            for b in cls.bases:
                if b.startswith('std::'): return 'std'
            cls = ip.ast.classes.get(cls.bases[0]) if cls.bases else None
        return 'other'
    def exc_matches(self, ip, ex, t):
        if t in ('std::exception', 'exception'): return ex.kind == 'std'
        if ex.cls == t: return True
        if ex.kind == 'std' and ex.cls == 'std::exception':      # an unknown standard exception: may be of the caught class
            if t in getattr(ex, 'not_cls', ()): return False
            if ip.c.choose_nd(2): ex.cls = t; return True
            ex.not_cls = getattr(ex, 'not_cls', ()) + (t,); return False
        cls = ip.ast.classes.get(ex.cls)
        while cls is not None:
            if t in cls.bases: return True
            cls = ip.ast.classes.get(cls.bases[0]) if cls.bases else None
        return False
    def call_function_object(self, ip, f, args):
        if hasattr(f, 'call'): return f.call(ip, args)
        h = ip.e.unit.call_object(ip, f, args)
        if h is NotImplemented: raise Unsupported(f'call of {f}')
        return h
    def handle_field(self, ip, h, name): 
        r = ip.e.unit.handle_field(ip, h, name)
        if r is None: raise Unsupported(f'field {name} of {h}')
        return r
    def handle_call(self, ip, obj, h, name, f, argnodes, n, dst):
        c = ip.c
        ct = ip.e.unit.handle_contract(h.kind, name)
        if ct: return ct(ip, h, ip.argv(argnodes, f.params if f else None), n, dst)
        if name == 'operator=':
            r = self.assign_handle(ip, obj, ip.argv(argnodes), '&&' in (f.type if f else ''))
            if r is not None: return r
        # smart pointer members on the handle of the pointee
        m = getattr(self, 'smart_' + name.replace('operator', 'op').replace('*', 'star').replace('->', 'arrow').replace('=', 'eq').replace(' ', '_'), None)
        if m: return m(ip, obj, h, argnodes, n)
        raise Unsupported(f'{h.kind}::{name}')
    def assign_handle(self, ip, obj, args, move):
        c = ip.c; src = args[0]; v = ip.val(src)
        if not isinstance(v, (Handle, Ptr)): return None
        if not isinstance(obj, LV): return None
        c.write(obj, v)
        if move and isinstance(src, LV) and src != obj: c.write(src, self.moved(ip, v))
        return obj
    def moved(self, ip, v):
        if isinstance(v, Handle):
            if v.kind in ip.e.unit.value_kinds: return Handle(v.kind, ip.c.fresh_int('movedfrom'))
            return Handle(v.kind, I(0))
        if isinstance(v, Val): return v.moved(ip.c)
        return v
    # -- smart pointers
    def smart_get(self, ip, obj, h, a, n): return h
    def smart_opbool(self, ip, obj, h, a, n): return ip.tobool(h)
    smart_op_bool = smart_opbool
    def smart_reset(self, ip, obj, h, a, n):
        a = [x for x in a if x.get('kind') != 'CXXDefaultArgExpr']
        if a: self.assign_smart(ip, obj, h, a[0]); return
        w = Handle(h.kind, I(0)) if isinstance(h, Handle) else Ptr(None, h.kind); ip.c.write(obj, w)
        if isinstance(h, Ptr) and h.kind == 'unique' and isinstance(h.t, LV): ip.destroy(h.t)
        if ip.e.unit.on_reassign: ip.e.unit.on_reassign(ip, obj, h, w)
    def smart_release(self, ip, obj, h, a, n):
        ip.c.write(obj, Handle(h.kind, I(0)) if isinstance(h, Handle) else Ptr(None, h.kind)); return h if isinstance(h, Handle) else Ptr(h.t, 'raw', h.meta)
    def smart_use_count(self, ip, obj, h, a, n): return ip.c.fresh_int('use_count', 0)
    def smart_oparrow(self, ip, obj, h, a, n): return h
    def smart_opstar(self, ip, obj, h, a, n): return ip.deref(h)
    def smart_swap(self, ip, obj, h, a, n):
        o = ip.argv(a)[0]; x, y = ip.c.read(obj), ip.c.read(o); ip.c.write(obj, y); ip.c.write(o, x)
    # ------------------------------------------------------------ constructors
    def construct(self, ip, t, args, ctype, lv=None):
        c = ip.c; t = t.strip()
        ct = getattr(ip.e.unit, 'lib_construct', None)
        if ct:
            r = ct(ip, t, args, ctype)
            if r is not None: return r
        move = bool(ctype and '&&' in ctype)
        a = [x for x in args if x is not None]
        # copy / move of the same kind of value
        if len(a) == 1 and isinstance(a[0], LV) and not re.match(r'std::(lock_guard|unique_lock)<', t):
            v = c.read(a[0], True)
            if isinstance(v, (Str,)) and is_view(t): return self.view_from(ip, a[0])
            if isinstance(v, View) and is_string(t): return mk_string(ip, text_of(ip, v))
            if isinstance(v, Opaque) and v.fam == 'initializer_list' and 'vector<' in t: return self.vec_from_list(ip, t, v)
            if self.copyable(v, t):
                if isinstance(v, Guard): raise Unsupported('move of a guard')
                if move:
                    c.write(a[0], self.moved(ip, v)); return v
                if is_smart(t) and 'unique_ptr' in t and not move: return v
                return v.copied(c) if isinstance(v, Val) else v
        if is_string(t): return self.make_string(ip, a)
        if is_view(t): return self.make_view(ip, a)
        if is_membuf(t): return Str(Rope(), 'membuf', c.newgen())
        if is_smart(t):
            if not a: return self.null_ptr(ip, t)
            v = ip.val(a[0])
            if isinstance(v, (Handle,)):
                if move and isinstance(a[0], LV): c.write(a[0], self.moved(ip, v))
                return v
            if isinstance(v, Ptr):
                k = 'unique' if 'unique' in t else ('shared' if 'shared' in t or 'shr' in t else 'weak')
                if v.t is None: return self.null_ptr(ip, t)
                if move and isinstance(a[0], LV): c.write(a[0], v.moved(c))
                return Ptr(v.t, k, v.meta)
            raise Unsupported(f'{t} from {v}')
        if re.match(r'std::(lock_guard|unique_lock)<', t):
            if not a: return Guard(None, False)
            key = self.mutex_key(ip, a[0]); tag = ip.val(a[1]).kw.get('tag') if len(a) == 2 and isinstance(ip.val(a[1]), Opaque) else None
            if len(a) > 1 and tag is None: raise Unsupported('construction of a guard')
            if tag == 'try_to_lock': return Guard(key, self.try_lock(ip, key))
            if tag == 'defer_lock': return Guard(key, False)
            if tag == 'adopt_lock':
                ip.c.check('a lock adopted is held', z3.BoolVal(key in ip.c.locks), 'safety'); return Guard(key, True)
            self.lock(ip, key)
            return Guard(key, True)
        if re.match(r'std::(recursive_)?mutex$', t) or t in ('std::condition_variable', 'null_mutex'): return Opaque(t)
        if re.match(r'std::(__)?atomic(_base)?<', t):
            return Atomic(ip.tonum(ip.val(a[0])) if a and not isinstance(ip.val(a[0]), Atomic) else (ip.val(a[0]).v if a else I(0)), re.match(r'std::(?:__)?atomic(?:_base)?<(.*)>$', t).group(1))
        if 'vector<' in t: return self.make_vector(ip, t, a, ctype)
        if is_time(t): return self.make_time(ip, t, a, ctype)
        if re.match(r'std::function<', t):
            if not a: return Ptr(None, 'function')
            v = ip.val(a[0]); return v
        if t in ('tm', 'std::tm') and not a: return Obj('tm', {k: c.fresh_int(k, -2 ** 31, 2 ** 31 - 1) for k in ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst')})
        if t == 'std::exception': return Obj('std::exception', {})
        if re.match(r'(fmt::)?(v\d+::)?format_int$', t): return Str(Rope([Dec(ip.tonum(ip.val(a[0])))]), 'format_int', c.newgen())
        m = re.match(r'std::array<(.*), (\d+)>$', t)
        if m and not a: return Parts([ip.default_value(m.group(1)) for _ in range(int(m.group(2)))])
        m = re.match(r'(.*?) ?\[(\d+)\]$', t)
        if m: return Parts([ip.default_value(m.group(1)) if not ip.cls(m.group(1)) else Opaque('uninit') for _ in range(int(m.group(2)))])
        if 'format_string' in t and a: return View(*self.vw(ip, a[0]))
        raise Unsupported(f'construction of {t} from {len(args)} argument(s)')
    def copyable(self, v, t):
        if isinstance(v, Str): return is_string(t) if v.fam == 'string' else is_membuf(t)
        if isinstance(v, View): return is_view(t) or 'format_string' in t
        if isinstance(v, (Arr, Parts)): return 'vector<' in t or 'array<' in t or 'initializer_list' in t
        if isinstance(v, Iter) or isinstance(v, StrIter): return 'iterator' in t
        if isinstance(v, (Handle, Ptr)): return is_smart(t) or isinstance(v, Handle) and not is_string(t) and not is_view(t)
        if isinstance(v, Opaque): return v.fam != 'initializer_list' or 'initializer_list' in t
        if isinstance(v, Closure): return True
        if z3.is_expr(v): return is_time(t)
        if isinstance(v, Obj) and v.cls == 'tm': return True
        return hasattr(v, 'copyable') and v.copyable(t)
    def null_ptr(self, ip, t):
        k = elem_kind(t)
        return Handle(k, I(0)) if k in ip.e.unit.handle_kinds else Ptr(None, 'unique' if 'unique' in t or 'uni_ptr' in t else 'shared')
    def make_string(self, ip, a):
        c = ip.c
        if not a: return mk_string(ip, Rope())
        vs = [ip.val(x) for x in a]
        if len(vs) == 1: return mk_string(ip, text_of(ip, vs[0]))
        if len(vs) == 2 and isinstance(vs[0], CharP) and z3.is_expr(vs[1]): return mk_string(ip, text_at(ip, vs[0], vs[1]))
        if len(vs) == 2 and isinstance(vs[0], CharP) and isinstance(vs[1], CharP): return mk_string(ip, text_at(ip, vs[0], S(vs[1].off - vs[0].off)))
        if len(vs) == 2 and isinstance(vs[0], StrIter): return mk_string(ip, text_at(ip, vs[0].p, S(vs[1].p.off - vs[0].p.off)))
        if len(vs) == 2 and z3.is_expr(vs[0]): return mk_string(ip, Rope([Rep(vs[1], vs[0])]))
        if len(vs) == 2 and isinstance(vs[0], CharP): return mk_string(ip, text_of(ip, vs[0]))
        if len(vs) == 3 and isinstance(vs[0], Str):
            return self.substr_of(ip, vs[0].r, vs[1], vs[2])
        raise Unsupported('string constructor')
    def view_from(self, ip, lv):
        v = ip.c.read(lv, True); return View(CharP(lv, 0, v.gen), v.r.len())
    def vw(self, ip, x):
        v = ip.val(x)
        if isinstance(v, View): return v.p, v.n
        if isinstance(v, CharP): return v, text_at(ip, v).len()
        if isinstance(x, LV) and isinstance(v, Str): w = self.view_from(ip, x); return w.p, w.n
        raise Unsupported(f'view of {v}')
    def make_view(self, ip, a):
        if not a: return View(CharP(Rope(), 0), 0)
        v = ip.val(a[0])
        if len(a) == 1: return View(*self.vw(ip, a[0]))
        if isinstance(v, CharP): return View(v, ip.tonum(ip.val(a[1])))
        if isinstance(v, Ptr) and v.t is None: return View(CharP(None, 0), ip.tonum(ip.val(a[1])))
        raise Unsupported('view constructor')
    def vec_from_list(self, ip, t, v):
        arr = z3.K(z3.IntSort(), I(0)); n = 0; k = elem_kind(t)
        for e in v.kw['els']:
            x = ip.c.read(e, True)
            if not isinstance(x, Handle): return Parts([ip.c.read(e, True) for e in v.kw['els']], k)
            arr = z3.Store(arr, n, x.t); n += 1
        return Arr(arr, n, k)
    def make_vector(self, ip, t, a, ctype):
        k = elem_kind(t); c = ip.c
        h = getattr(ip.e.unit, 'make_vector', None)
        if h:
            r = h(ip, t, k, a, ctype)
            if r is not None: return r
        if not a: return Arr(z3.K(z3.IntSort(), I(0)), 0, k)
        v = ip.val(a[0])
        if len(a) == 1 and z3.is_expr(v):
            c.check('vector size is acceptable', z3.And(v >= 0, v <= 2 ** 63), 'safety')
            return Arr(z3.Array(c.fresh_name('vec'), z3.IntSort(), z3.IntSort()), v, k)
        if isinstance(v, Opaque) and v.fam == 'initializer_list': return self.vec_from_list(ip, t, v)
        if len(a) == 2 and isinstance(v, Iter):
            w = ip.val(a[1]); src = c.read(v.cont, True)
            if not (isinstance(src, Arr) and v.cont == w.cont): raise Unsupported('vector from iterators')
            if c.prove(v.i == 0): return Arr(src.a, w.i, k)
            i = z3.Int('vi'); return Arr(z3.Lambda([i], z3.Select(src.a, i + v.i)), S(w.i - v.i), k)
        if len(a) == 2 and isinstance(v, Ptr) and isinstance(v.t, LV): 
            src = c.read(v.t, True)
        raise Unsupported(f'vector constructor {ctype}')
    def make_time(self, ip, t, a, ctype):
        if not a: return I(0)
        v = ip.val(a[0])
        if z3.is_expr(v):
            src = ctype[ctype.index('(') + 1:] if ctype and '(' in ctype else ''
            f, to = self.unit_of(src), self.unit_of(t)
            if 'duration' in src and f is not None and to is not None and f != to: return self.rescale(ip, v, f, to)
            return v
        raise Unsupported(f'time construction {t} {v} {ctype}')
    # ------------------------------------------------------------ chrono: every duration is an integer count of its unit
    def unit_of(self, t):
        """nanoseconds per count of a duration or time point type"""
        m = re.search(r'ratio<(\d+)(?:, (\d+))?>', t)
        if m: return 10 ** 9 * int(m.group(1)) // int(m.group(2) or 1)
        for w, v in (('nanoseconds', 1), ('microseconds', 10 ** 3), ('milliseconds', 10 ** 6), ('seconds', 10 ** 9), ('minutes', 60 * 10 ** 9), ('hours', 3600 * 10 ** 9)):
            if w in t: return v
        if re.search(r'duration<(long|int|int64_t|__int64)', t): return 10 ** 9
        if 'time_point' in t: return 1
        return None
    def rescale(self, ip, v, f, to):
        if f == to: return v
        k = ip.c.ghost.get(('quotient', str(v), to // f if to > f else 0))
        if k is not None: return k
        if f > to: return ip.fit(v * (f // to), (64, 1), True, 'duration conversion')
        return ip.arith('/', v, I(to // f), (64, 1), 'duration conversion')
    # ------------------------------------------------------------ locks
    def mutex_key(self, ip, m):
        if isinstance(m, LV):
            v = ip.c.read(m, True)
            if isinstance(v, Ptr) and isinstance(v.t, LV): return v.t
            return m
        if isinstance(m, Handle): return m
        raise Unsupported(f'mutex {m}')
    def lock(self, ip, key):
        c = ip.c; u = ip.e.unit
        if isinstance(key, LV) and isinstance(c.read(key, True), Opaque) and c.read(key, True).fam == 'null_mutex': pass
        if any(k == key for k in c.locks):
            v = c.read(key, True) if isinstance(key, LV) else None
            if not (isinstance(v, Opaque) and 'recursive' in v.fam): c.violated('a lock is not taken twice by one thread (self-deadlock)', str(key)); raise PathEnd()
        c.locks.append(key); c.trace.append(Ev('lock', key))
        if u.on_lock: u.on_lock(ip, key)
    def try_lock(self, ip, key):
        """another thread may hold it"""
        if any(k == key for k in ip.c.locks): return False
        if ip.c.choose_nd(2) == 1: ip.c.trace.append(Ev('busy', key)); return False
        self.lock(ip, key); return True
    def unlock(self, ip, key):
        c = ip.c; u = ip.e.unit
        if u.on_unlock: u.on_unlock(ip, key)
        if key not in c.locks: c.violated('only a held lock is released', str(key)); raise PathEnd()
        c.locks.remove(key); c.trace.append(Ev('unlock', key))
    def destroy(self, ip, lv, v):
        if isinstance(v, Guard):
            if v.owned: self.unlock(ip, v.m)
            return
        if isinstance(v, Ptr) and v.kind == 'unique' and isinstance(v.t, LV):
            ip.destroy(v.t); return
        h = ip.e.unit.on_destroy
        if h: h(ip, lv, v)
    # ------------------------------------------------------------ methods of library objects
    def method(self, ip, obj, v, name, argnodes, n, dst, bt):
        fam = getattr(v, 'fam', None) or type(v).__name__
        if isinstance(v, (Ptr,)):
            m = getattr(self, 'smart_' + self.opname(name), None)
            if m: return m(ip, obj, v, argnodes, n)
        h = getattr(ip.e.unit, 'lib_method', None)
        if h:
            r = h(ip, obj, v, name, argnodes, n, dst, bt)
            if r is not NotImplemented: return r
        if z3.is_expr(v): fam = 'time'
        fam = re.sub(r'\W', '_', fam)
        if ip.e.unit.on_access and isinstance(obj, LV) and not isinstance(v, (Guard, Iter, StrIter)): ip.e.unit.on_access(c_(ip), obj, 'm')
        if isinstance(v, View) and name.startswith('operator ') and 'string_view' in name: return v
        if isinstance(v, Obj): raise Unsupported(f'{v.cls}::{name} is not defined in the repository')
        m = getattr(self, f'm_{fam}_{self.opname(name)}', None)
        if m is None:
            if hasattr(v, 'method'): return v.method(ip, obj, name, ip.argv(argnodes), n, dst)
            raise Unsupported(f'{fam}::{name}')
        self.used.add(f'{fam}::{name}')
        return m(ip, obj, v, argnodes, n)
    def opname(self, name):
        if not name.startswith('operator'): return name
        s = name[8:].strip()
        return 'op_' + {'=': 'assign', '[]': 'index', '*': 'star', '->': 'arrow', '==': 'eq', '!=': 'ne', '++': 'inc', '--': 'dec', '+': 'plus', '-': 'minus', '+=': 'pluseq', '-=': 'minuseq', '()': 'call', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '%': 'mod', '/': 'div', '<<': 'shl', 'bool': 'bool'}.get(s, re.sub(r'\W+', '_', s))
    smart_op_arrow = smart_oparrow
    smart_op_star = smart_opstar
    def m_Exc_what(self, ip, obj, v, a, n):
        c = ip.c; w = v.what
        if w is None: w = c.fresh_text('what'); c.assume(w.len() >= 0)
        return CharP(rope(w), 0)
    # strings and buffers
    def grown(self, ip, obj, v, seg):
        ip.c.write(obj, v.upd(ip.c, v.r + (seg if isinstance(seg, Rope) else rope(seg))))
    def m_string_append(self, ip, obj, v, a, n):
        args = ip.argv(a); vs = [ip.val(x) for x in args if x is not None]
        if len(vs) == 1:
            x = vs[0]
            t = text_of(ip, x)
        elif isinstance(vs[0], CharP) and isinstance(vs[1], CharP):
            if vs[0].src is None and vs[1].src is None: t = Rope()
            else:
                if vs[0].src != vs[1].src: raise Unsupported('append of an unrelated range')
                t = text_at(ip, vs[0], S(vs[1].off - vs[0].off))
        elif isinstance(vs[0], CharP): t = text_at(ip, vs[0], ip.tonum(vs[1]))
        elif isinstance(vs[0], StrIter): t = text_at(ip, vs[0].p, S(vs[1].p.off - vs[0].p.off))
        elif z3.is_expr(vs[0]) and z3.is_expr(vs[1]):
            ip.c.check('repeat count', vs[0] >= 0, 'safety'); t = Rope([Rep(vs[1], vs[0])])
        elif isinstance(vs[0], Str) and len(vs) == 3: t = self.substr_of(ip, vs[0].r, vs[1], vs[2]).r
        else: raise Unsupported('append')
        self.grown(ip, obj, v, t); return obj
    def m_string_assign(self, ip, obj, v, a, n):
        if len(a) == 1: return self.m_string_op_assign(ip, obj, v, a, n)
        w = ip.c.new_root(Str(Rope(), v.fam, ip.c.newgen()), 't'); self.m_string_append(ip, w, ip.c.read(w), a, n)
        ip.c.write(obj, Str(ip.c.read(w).r, v.fam, ip.c.newgen())); return obj
    def m_string_insert(self, ip, obj, v, a, n):
        vs = [ip.val(x) for x in ip.argv(a) if x is not None]
        if isinstance(vs[0], StrIter): at = vs[0].p.off; seg = [Rep(vs[2], vs[1])] if len(vs) == 3 else [Chr(vs[1])]
        elif z3.is_expr(vs[0]): at = vs[0]; seg = [Rep(vs[2], vs[1])] if len(vs) == 3 and z3.is_expr(vs[2]) else text_of(ip, vs[1])
        else: raise Unsupported('insert')
        if len(vs) == 3 and not z3.is_expr(vs[1]): raise Unsupported('insert')
        r = seg if isinstance(seg, Rope) else Rope(seg)
        if ip.c.prove(at == 0): w = r + v.r
        elif ip.c.prove(at == v.r.len()): w = v.r + r
        else: raise Unsupported('insert in the middle')
        ip.c.write(obj, Str(w, v.fam, ip.c.newgen())); return obj
    def m_string_push_back(self, ip, obj, v, a, n): self.grown(ip, obj, v, Chr(ip.tonum(ip.rv(a[0]))))
    def m_string_op_pluseq(self, ip, obj, v, a, n):
        x = ip.rv(a[0]); 
        self.grown(ip, obj, v, Chr(x) if z3.is_expr(x) else text_of(ip, x)); return obj
    def m_string_op_assign(self, ip, obj, v, a, n):
        return self.assign_string(ip, obj, v, ip.argv(a)[0], a[0].get('valueCategory') == 'xvalue' or (a[0]['kind'] == 'MaterializeTemporaryExpr' and a[0].get('valueCategory') == 'xvalue'))
    def assign_string(self, ip, obj, v, src, move):
        c = ip.c; x = ip.val(src)
        if z3.is_expr(x): c.write(obj, Str(Rope([Chr(x)]), v.fam, c.newgen())); return obj
        c.write(obj, Str(text_of(ip, x), v.fam, c.newgen()))
        if move and isinstance(src, LV) and isinstance(x, Str) and src != obj: c.write(src, x.moved(c))
        return obj
    def m_string_clear(self, ip, obj, v, a, n): ip.c.write(obj, v.upd(ip.c, Rope()))
    def m_string_data(self, ip, obj, v, a, n): return CharP(obj, 0, v.gen)
    m_string_c_str = m_string_data
    def m_string_size(self, ip, obj, v, a, n): return v.r.len()
    m_string_length = m_string_size
    def m_string_empty(self, ip, obj, v, a, n): return S(v.r.len() == 0)
    def m_string_begin(self, ip, obj, v, a, n): return StrIter(CharP(obj, 0, v.gen)) if v.fam == 'string' else CharP(obj, 0, v.gen)
    def m_string_end(self, ip, obj, v, a, n): return StrIter(CharP(obj, v.r.len(), v.gen)) if v.fam == 'string' else CharP(obj, v.r.len(), v.gen)
    m_string_cbegin = m_string_begin; m_string_cend = m_string_end
    def m_string_op_index(self, ip, obj, v, a, n):
        i = S(ip.tonum(ip.rv(a[0]))); ln = v.r.len()
        ip.c.check('string index is within bounds', z3.And(i >= 0, i <= ln if v.fam == 'string' else i < ln), 'safety', lambda: f'{i} of {ln}')
        return obj.sub(('i', i))
    def m_string_back(self, ip, obj, v, a, n):
        ln = v.r.len(); ip.c.check('back() of a non-empty string', ln >= 1, 'safety'); return obj.sub(('i', S(ln - 1)))
    def m_string_pop_back(self, ip, obj, v, a, n):
        ln = v.r.len(); ip.c.check('pop_back() of a non-empty string', ln >= 1, 'safety'); ip.c.write(obj, v.upd(ip.c, take(ip.c, v.r, S(ln - 1))))
    def m_string_front(self, ip, obj, v, a, n):
        ip.c.check('front() of a non-empty string', v.r.len() >= 1, 'safety'); return obj.sub(('i', I(0)))
    def m_string_swap(self, ip, obj, v, a, n):
        o = ip.argv(a)[0]; w = ip.c.read(o); ip.c.write(obj, w); ip.c.write(o, v)
    def m_string_reserve(self, ip, obj, v, a, n): ip.argv(a); ip.c.write(obj, Str(v.r, v.fam, ip.c.newgen()))
    def m_string_resize(self, ip, obj, v, a, n):
        args = ip.argv(a); m = S(ip.tonum(ip.val(args[0]))); ln = v.r.len(); c = ip.c
        if c.choose(m <= ln): c.write(obj, v.upd(c, take(c, v.r, m))); return
        if v.fam != 'string': raise Unsupported('buffer grown by resize')
        ch = ip.tonum(ip.val(args[1])) if len(args) > 1 and args[1] is not None else I(0)
        c.write(obj, v.upd(c, v.r + Rep(ch, S(m - ln))))
    def m_string_capacity(self, ip, obj, v, a, n):
        k = ip.c.fresh_int('cap'); ip.c.assume(k >= v.r.len()); return k
    def substr_of(self, ip, r, pos, cnt):
        c = ip.c; pos = S(ip.tonum(pos)); ln = r.len()
        if not c.prove(pos <= ln):
            if c.choose(pos > ln): raise CppThrow(Exc('std', None, 'std::out_of_range'))
        cnt = S(ip.tonum(cnt)) if cnt is not None else I(2 ** 64 - 1)
        if c.prove(cnt >= ln - pos): return mk_string(ip, drop(c, r, pos))
        if c.choose(cnt >= ln - pos): return mk_string(ip, drop(c, r, pos))
        return mk_string(ip, substr(c, r, pos, cnt))
    def m_string_substr(self, ip, obj, v, a, n):
        args = [x for x in ip.argv(a)]
        return self.substr_of(ip, v.r, ip.val(args[0]) if args and args[0] is not None else I(0), ip.val(args[1]) if len(args) > 1 and args[1] is not None else None)
    def m_string_op_std_basic_string_view(self, ip, obj, v, a, n): return self.view_from(ip, obj)
    def m_string_compare(self, ip, obj, v, a, n): raise Unsupported('compare')
    # searching is axiomatised: position and the absence of other matches
    def find_axioms(self, ip, r, chars, last, hi, name):
        """last/first position p of one of the characters, or npos"""
        c = ip.c; ln = r.len(); npos = I(2 ** 64 - 1)
        if not (len(r.segs) == 1 and isinstance(r.segs[0], Sub)):
            if r.concrete() is not None:
                s = r.concrete(); up = None
                class CS:
                    def __contains__(_, ch): return any(chr(x) == ch if isinstance(x, int) else c.choose(x == ord(ch)) for x in chars)
                cs = CS()
                if hi is not None and not is_const(S(hi)): raise Unsupported('find with a symbolic bound')
                e = len(s) - 1 if hi is None or cval(S(hi)) >= len(s) else cval(S(hi))
                if last:
                    for i in range(e, -1, -1):
                        if s[i] in cs: return I(i)
                else:
                    for i in range(0 if hi is None else cval(S(hi)), len(s)):
                        if s[i] in cs: return I(i)
                return npos
            raise Unsupported('search in a composed text')
        s = r.segs[0]; p = c.fresh_int(name, 0)
        q = z3.Int(c.fresh_name('q')); at = lambda i: s.b.ch(S(s.off + i))
        is_m = lambda i: Or(*[at(i) == x for x in chars])
        if last:
            top = S(ln - 1) if hi is None else S(z3.If(hi < ln - 1, hi, ln - 1))
            if c.choose(p == npos):
                c.assume(z3.ForAll([q], Implies(z3.And(0 <= q, q <= top), z3.Not(is_m(q))))); return npos
            c.assume(z3.And(p <= top, is_m(p), z3.ForAll([q], Implies(z3.And(p < q, q <= top), z3.Not(is_m(q))))))
        else:
            lo = I(0) if hi is None else hi
            if c.choose(p == npos):
                c.assume(z3.ForAll([q], Implies(z3.And(lo <= q, q < ln), z3.Not(is_m(q))))); return npos
            c.assume(z3.And(p >= lo, p < ln, is_m(p), z3.ForAll([q], Implies(z3.And(lo <= q, q < p), z3.Not(is_m(q))))))
        if not c.feasible(TRUE): raise PathEnd()
        return p
    def charset(self, ip, x):
        if z3.is_expr(x):
            return [cval(S(x)) if is_const(S(x)) else S(x)]
        s = text_of(ip, x).concrete()
        if s is None: raise Unsupported('search for a symbolic set')
        return [ord(ch) for ch in s]
    def find_common(self, ip, v, a, last, of):
        args = [x for x in ip.argv(a)]
        x = ip.val(args[0]); pos = ip.val(args[1]) if len(args) > 1 and args[1] is not None else None
        cs = self.charset(ip, x)
        if not of and len(cs) != 1: raise Unsupported('substring search')
        if pos is not None and is_const(S(pos)) and (cval(S(pos)) == 2 ** 64 - 1 and last or cval(S(pos)) == 0 and not last): pos = None
        return self.find_axioms(ip, v.r, cs, last, pos, 'pos')
    def m_string_find_last_of(self, ip, obj, v, a, n): return self.find_common(ip, v, a, True, True)
    def m_string_rfind(self, ip, obj, v, a, n): return self.find_common(ip, v, a, True, False)
    def m_string_find_first_of(self, ip, obj, v, a, n): return self.find_common(ip, v, a, False, True)
    def m_string_find(self, ip, obj, v, a, n): return self.find_common(ip, v, a, False, False)
    def __getattr__(self, k):
        if k.startswith('m_membuf_'): return getattr(self, 'm_string_' + k[9:])
        raise AttributeError(k)
    # views
    def m_string_view_size(self, ip, obj, v, a, n): return v.n
    m_string_view_length = m_string_view_size
    def m_string_view_data(self, ip, obj, v, a, n): return v.p
    def m_string_view_begin(self, ip, obj, v, a, n): return v.p
    def m_string_view_end(self, ip, obj, v, a, n): return CharP(v.p.src, S(v.p.off + v.n), v.p.gen)
    def m_string_view_op_index(self, ip, obj, v, a, n):
        i = S(ip.tonum(ip.rv(a[0]))); ip.c.check('view index is within bounds', z3.And(i >= 0, i < v.n), 'safety'); return CharP(v.p.src, S(v.p.off + i), v.p.gen)
    def m_string_view_op_assign(self, ip, obj, v, a, n): ip.c.write(obj, ip.rv(a[0])); return obj
    def m_string_view_op_fmt_basic_string_view_char(self, ip, obj, v, a, n): return v
    # vectors
    def m_vector_size(self, ip, obj, v, a, n): return S(v.n)
    def m_vector_empty(self, ip, obj, v, a, n): return S(v.n == 0)
    def m_vector_op_index(self, ip, obj, v, a, n): return index(ip, obj, ip.tonum(ip.rv(a[0])), 'vector index')
    m_vector_at = m_vector_op_index
    def m_vector_begin(self, ip, obj, v, a, n): return Iter(obj, I(0))
    def m_vector_end(self, ip, obj, v, a, n): return Iter(obj, S(v.n))
    m_vector_cbegin = m_vector_begin; m_vector_cend = m_vector_end
    def m_vector_front(self, ip, obj, v, a, n): return index(ip, obj, 0, 'front()')
    def m_vector_back(self, ip, obj, v, a, n): return index(ip, obj, S(v.n - 1), 'back()')
    def m_vector_clear(self, ip, obj, v, a, n): ip.c.write(obj, Arr(v.a, 0, v.kind))
    def m_vector_reserve(self, ip, obj, v, a, n): ip.argv(a)
    def m_vector_push_back(self, ip, obj, v, a, n):
        x = ip.argv(a)[0]; y = ip.val(x)
        if isinstance(y, Ptr) and y.t is None: y = Handle(v.kind, I(0))
        if not isinstance(y, Handle): raise Unsupported(f'push_back of {y}')
        if a[0].get('valueCategory') == 'xvalue' and isinstance(x, LV): ip.c.write(x, self.moved(ip, y))
        ip.c.write(obj, Arr(z3.Store(v.a, v.n, y.t), S(v.n + 1), v.kind))
    m_vector_emplace_back = m_vector_push_back
    def m_vector_assign(self, ip, obj, v, a, n):
        x = [ip.val(e) for e in ip.argv(a)]
        if not (len(x) == 2 and all(isinstance(i, Iter) for i in x) and x[0].cont == x[1].cont): raise Unsupported('vector::assign')
        w = ip.c.read(x[0].cont, True); b, e = S(ip.tonum(x[0].i)), S(ip.tonum(x[1].i))
        if not isinstance(w, Arr) or not (is_const(b) and cval(b) == 0) or x[0].cont == obj: raise Unsupported('vector::assign')
        ip.c.check('the range assigned lies within the vector', z3.And(e >= 0, e <= w.n), 'safety'); ip.c.write(obj, Arr(w.a, e, w.kind))
    def m_vector_swap(self, ip, obj, v, a, n):
        o = ip.argv(a)[0]; w = ip.c.read(o); ip.c.write(obj, w); ip.c.write(o, v)
    def m_vector_op_assign(self, ip, obj, v, a, n):
        src = ip.argv(a)[0]; w = ip.c.read(src) if isinstance(src, LV) else src
        ip.c.write(obj, w)
        if a[0].get('valueCategory') == 'xvalue' and isinstance(src, LV) and src != obj: ip.c.write(src, w.moved(ip.c))
        return obj
    def m_parts_size(self, ip, obj, v, a, n): return v.n
    m_parts_op_index = m_vector_op_index; m_parts_at = m_vector_op_index; m_parts_begin = m_vector_begin; m_parts_end = m_vector_end; m_parts_empty = m_vector_empty
    m_parts_op_assign = m_vector_op_assign
    def m_parts_data(self, ip, obj, v, a, n): return Iter(obj, I(0))
    # iterators
    def m_iter_op_arrow(self, ip, obj, v, a, n):
        d = v.deref(ip); return d
    def m_iter_op_star(self, ip, obj, v, a, n): return v.deref(ip)
    def m_iter_op_inc(self, ip, obj, v, a, n):
        w = Iter(v.cont, S(v.i + 1)); ip.c.write(obj, w); return v if a else obj
    def m_iter_op_dec(self, ip, obj, v, a, n):
        w = Iter(v.cont, S(v.i - 1)); ip.c.write(obj, w); return v if a else obj
    def m_iter_op_plus(self, ip, obj, v, a, n): return Iter(v.cont, S(v.i + ip.tonum(ip.rv(a[0]))))
    def m_iter_op_minus(self, ip, obj, v, a, n): return Iter(v.cont, S(v.i - ip.tonum(ip.rv(a[0]))))
    def m_iter_op_pluseq(self, ip, obj, v, a, n): ip.c.write(obj, Iter(v.cont, S(v.i + ip.tonum(ip.rv(a[0]))))); return obj
    def m_iter_op_assign(self, ip, obj, v, a, n): ip.c.write(obj, ip.rv(a[0])); return obj
    def m_striter_op_star(self, ip, obj, v, a, n): return v.p
    def m_striter_op_inc(self, ip, obj, v, a, n):
        w = StrIter(CharP(v.p.src, S(v.p.off + 1), v.p.gen)); ip.c.write(obj, w); return v if a else obj
    def m_striter_op_dec(self, ip, obj, v, a, n):
        w = StrIter(CharP(v.p.src, S(v.p.off - 1), v.p.gen)); ip.c.write(obj, w); return v if a else obj
    def m_striter_op_plus(self, ip, obj, v, a, n): return StrIter(CharP(v.p.src, S(v.p.off + ip.tonum(ip.rv(a[0]))), v.p.gen))
    def m_striter_op_minus(self, ip, obj, v, a, n): return StrIter(CharP(v.p.src, S(v.p.off - ip.tonum(ip.rv(a[0]))), v.p.gen))
    def m_striter_op_pluseq(self, ip, obj, v, a, n): ip.c.write(obj, StrIter(CharP(v.p.src, S(v.p.off + ip.tonum(ip.rv(a[0]))), v.p.gen))); return obj
    def m_striter_op_assign(self, ip, obj, v, a, n): ip.c.write(obj, ip.rv(a[0])); return obj
    # locks
    def m_guard_unlock(self, ip, obj, v, a, n):
        if not v.owned: ip.c.violated('only an owned lock is released'); raise PathEnd()
        self.unlock(ip, v.m); ip.c.write(obj, Guard(v.m, False), True)
    def m_guard_lock(self, ip, obj, v, a, n):
        self.lock(ip, v.m); ip.c.write(obj, Guard(v.m, True), True)
    def m_guard_owns_lock(self, ip, obj, v, a, n): return z3.BoolVal(v.owned)
    def m_guard_op_bool(self, ip, obj, v, a, n): return z3.BoolVal(v.owned)
    def m_guard_try_lock(self, ip, obj, v, a, n):
        if v.owned: raise CppThrow(Exc('std', rope('deadlock')))
        g = self.try_lock(ip, v.m); ip.c.write(obj, Guard(v.m, g), True); return z3.BoolVal(g)
    def opaque(self, ip, obj, v, name, a, n): pass
    # condition variables: waiting releases the lock, lets every other thread act, and takes the lock again
    def blocked(self, ip, g, ev):
        c = ip.c; v = c.read(g, True)
        if not v.owned or v.m not in c.locks: c.violated('the lock is held when waiting'); raise PathEnd()
        c.trace.append(ev); self.unlock(ip, v.m); self.lock(ip, v.m)
    def m_std__condition_variable_wait(self, ip, obj, v, a, n):
        args = ip.argv(a); c = ip.c
        if len(args) == 1: self.blocked(ip, args[0], Ev('wait', obj, None, False)); return
        if c.choose(ip.tobool(ip.invoke(ip.val(args[1]), []))): c.trace.append(Ev('nowait', obj)); return
        self.blocked(ip, args[0], Ev('wait', obj, None, True))
        if not c.choose(ip.tobool(ip.invoke(ip.val(args[1]), []))): raise PathEnd()
    def m_std__condition_variable_wait_for(self, ip, obj, v, a, n):
        args = ip.argv(a); c = ip.c; d = self.rescale(ip, ip.tonum(ip.val(args[1])), self.unit_of(qt(a[1])), 1) if self.unit_of(qt(a[1])) else None
        if len(args) == 2:
            self.blocked(ip, args[0], Ev('wait', obj, d, False)); return ip.c.fresh_int('cvstatus', 0, 1)
        if c.choose(ip.tobool(ip.invoke(ip.val(args[2]), []))): c.trace.append(Ev('nowait', obj, d)); return TRUE
        self.blocked(ip, args[0], Ev('wait', obj, d, True))
        return ip.tobool(ip.invoke(ip.val(args[2]), []))
    def m_std__condition_variable_wait_until(self, ip, obj, v, a, n):
        c = ip.c; args = ip.argv(a); tp = ip.val(args[1]); now = [e.args[0] for e in c.trace if isinstance(e, Ev) and e.name == 'now']
        if not z3.is_expr(tp): raise Unsupported('wait_until')
        d = S(tp - now[-1]) if now else None      # time left when the clock was last read
        if len(args) == 2: self.blocked(ip, args[0], Ev('wait', obj, d, False)); return c.fresh_int('cvstatus', 0, 1)
        if c.choose(ip.tobool(ip.invoke(ip.val(args[2]), []))): c.trace.append(Ev('nowait', obj, d)); return TRUE
        self.blocked(ip, args[0], Ev('wait', obj, d, True))
        return ip.tobool(ip.invoke(ip.val(args[2]), []))
    def m_std__condition_variable_notify_one(self, ip, obj, v, a, n): ip.c.trace.append(Ev('notify', obj, 'one'))
    def m_std__condition_variable_notify_all(self, ip, obj, v, a, n): ip.c.trace.append(Ev('notify', obj, 'all'))
    def m_std__mutex_lock(self, ip, obj, v, a, n): self.lock(ip, obj)
    def m_std__mutex_unlock(self, ip, obj, v, a, n): self.unlock(ip, obj)
    def m_std__mutex_try_lock(self, ip, obj, v, a, n): return z3.BoolVal(self.try_lock(ip, obj))
    # atomics
    def m_atomic_load(self, ip, obj, v, a, n):
        args = ip.argv(a); self.atomic_ev(ip, obj, 'load', args); return self.atomic_val(ip, v)
    def atomic_val(self, ip, v): return ip.tobool(v.v) if v.ty == 'bool' else v.v
    def atomic_ev(self, ip, obj, op, args, val=None):
        if ip.e.unit.atomic_events: ip.c.trace.append(Ev('atomic', op, obj, val, *[ip.val(x) for x in args if x is not None]))
    def m_atomic_store(self, ip, obj, v, a, n):
        args = ip.argv(a); x = ip.tonum(ip.val(args[0])); self.atomic_ev(ip, obj, 'store', args[1:], x); ip.c.write(obj, Atomic(x, v.ty))
    def m_atomic_op_assign(self, ip, obj, v, a, n):
        x = ip.tonum(ip.val(ip.argv(a)[0])); self.atomic_ev(ip, obj, 'store', [], x); ip.c.write(obj, Atomic(x, v.ty)); return x
    def m_atomic_op_inc(self, ip, obj, v, a, n):
        t = ip.int_type(v.ty) or (64, 0); x = ip.fit(v.v + 1, t, False); self.atomic_ev(ip, obj, 'add', [], I(1)); ip.c.write(obj, Atomic(x, v.ty)); return v.v if a else x
    def m_atomic_fetch_add(self, ip, obj, v, a, n):
        args = ip.argv(a); d = ip.tonum(ip.val(args[0])); t = ip.int_type(v.ty) or (64, 0); self.atomic_ev(ip, obj, 'add', args[1:], d); ip.c.write(obj, Atomic(ip.fit(v.v + d, t, False), v.ty)); return v.v
    def m_atomic_exchange(self, ip, obj, v, a, n):
        args = ip.argv(a); x = ip.tonum(ip.val(args[0])); self.atomic_ev(ip, obj, 'exchange', args[1:], x); ip.c.write(obj, Atomic(x, v.ty)); return self.atomic_val(ip, v)
    def m_atomic_op_pluseq(self, ip, obj, v, a, n):
        d = ip.tonum(ip.val(ip.argv(a)[0])); t = ip.int_type(v.ty) or (64, 0); x = ip.fit(v.v + d, t, False); ip.c.write(obj, Atomic(x, v.ty)); return x
    def m_atomic_conv(self, ip, obj, v, a, n): self.atomic_ev(ip, obj, 'load', []); return self.atomic_val(ip, v)
    m_atomic_op_bool = m_atomic_op_int = m_atomic_op_unsigned_long = m_atomic_op___integral_type = m_atomic_op___int_type = m_atomic_conv
    # rings (contract of circular_queue)
    def m_ring_size(self, ip, obj, v, a, n): return S(v.hi - v.lo)
    def m_ring_empty(self, ip, obj, v, a, n): return S(v.hi == v.lo)
    def m_ring_full(self, ip, obj, v, a, n): return S(z3.And(v.cap > 0, v.hi - v.lo == v.cap))
    def m_ring_vec_size(self, ip, obj, v, a, n): return S(z3.If(v.cap > 0, v.cap + 1, 0))
    def m_ring_override_count(self, ip, obj, v, a, n): return v.ovr
    def m_ring_reset_override_count(self, ip, obj, v, a, n): ip.c.write(obj, Ring(v.a, v.lo, v.hi, v.cap, I(0), v.kind))
    def m_ring_clear(self, ip, obj, v, a, n): ip.c.write(obj, Ring(v.a, I(0), I(0), I(0), I(0), v.kind))
    def m_ring_front(self, ip, obj, v, a, n):
        ip.c.check('front() of a non-empty queue', v.lo < v.hi, 'pre'); return obj.sub(('i', v.lo))
    def m_ring_at(self, ip, obj, v, a, n):
        i = ip.tonum(ip.rv(a[0])); ip.c.check('at(i) of a stored item', z3.And(i >= 0, i < v.hi - v.lo), 'pre'); return obj.sub(('i', S(v.lo + i)))
    def m_ring_pop_front(self, ip, obj, v, a, n):
        c = ip.c
        c.check('pop_front() of a non-empty (or inert) queue', z3.Or(v.cap == 0, v.lo < v.hi), 'pre')
        if c.choose(v.cap == 0): return
        a = v.a      # a write to the element that leaves is forgotten with it
        while a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(S(v.lo)): a = a.arg(0)
        c.write(obj, Ring(a, S(v.lo + 1), v.hi, v.cap, v.ovr, v.kind))
    def m_ring_push_back(self, ip, obj, v, a, n):
        c = ip.c; x = ip.argv(a)[0]; y = ip.val(x)
        if c.choose(v.cap == 0): return
        full = c.choose(v.hi - v.lo == v.cap)
        y = ip.e.unit.to_elem(ip, y, v.kind)
        c.write(obj, Ring(z3.Store(v.a, v.hi, y.t), S(v.lo + 1) if full else v.lo, S(v.hi + 1), v.cap, S(v.ovr + 1) if full else v.ovr, v.kind))
        if isinstance(x, LV) and isinstance(ip.val(x), Handle): c.write(x, self.moved(ip, y))
    def m_ring_op_assign(self, ip, obj, v, a, n):
        src = ip.argv(a)[0]; w = ip.c.read(src)
        ip.c.write(obj, w)
        if a[0].get('valueCategory') == 'xvalue': ip.c.write(src, w.moved(ip.c))
        return obj
    # durations / time points
    def m_time_count(self, ip, obj, v, a, n): return v
    def m_time_time_since_epoch(self, ip, obj, v, a, n): return v
    def m_time_op_assign(self, ip, obj, v, a, n): ip.c.write(obj, ip.rv(a[0])); return obj
    # ------------------------------------------------------------ operators
    def operator(self, ip, name, argnodes, n, dst):
        c = ip.c; op = self.opname(name)
        h = getattr(ip.e.unit, 'lib_operator', None)
        if h:
            r = h(ip, name, argnodes, n, dst)
            if r is not NotImplemented: return r
        if ip.is_class(qt(argnodes[0])) or argnodes[0].get('valueCategory') in ('lvalue', 'xvalue'): d = ip.glv(argnodes[0])
        else: d = ip.ev(argnodes[0])
        v = ip.obj_at(d) if isinstance(d, LV) else d
        t0 = qt(argnodes[0])
        if z3.is_expr(v) and is_time(norm(t0)): return self.time_op(ip, name, d, v, argnodes, n)
        if isinstance(v, Obj):      # member operator of a repository class found through a base or implicitly defined
            if name == 'operator=':
                src = ip.argv(argnodes[1:])[0]
                if v.cls not in ip.ast.classes: ip.c.write(d, ip.c.read(src, True) if isinstance(src, LV) else src); return d
                ip.memberwise(v.cls, d, src, argnodes[1].get('valueCategory') == 'xvalue'); return d
            raise Unsupported(f'{v.cls} {name}')
        if isinstance(v, Handle):
            if name in ('operator==', 'operator!='): return ip.compare(name[8:], v, ip.rv(argnodes[1]))
            if name == 'operator=' :
                if isinstance(d, LV) and v.kind not in ip.e.unit.value_kinds: return self.assign_smart(ip, d, v, argnodes[1])
            return self.handle_call(ip, d, v, name, None, argnodes[1:], n, dst)
        if isinstance(v, Ptr) and v.kind != 'function':
            if name in ('operator==', 'operator!='): return ip.compare(name[8:], v, ip.rv(argnodes[1]))
            if name in ('operator->', 'operator*'): return ip.deref(v, name) if name == 'operator*' else v
            if name == 'operator=': return self.assign_smart(ip, d, v, argnodes[1])
        if isinstance(v, (Closure,)) and name == 'operator()': return ip.invoke(v, ip.argv(argnodes[1:]))
        if name == 'operator()' : return ip.invoke(v, ip.argv(argnodes[1:]))
        if isinstance(v, (Iter, StrIter)):
            if name in ('operator==', 'operator!=', 'operator<', 'operator-'):
                w = ip.rv(argnodes[1])
                if isinstance(v, Iter) and isinstance(w, Iter):
                    if v.cont != w.cont: raise Unsupported('iterators of different containers')
                    return ip.compare(name[8:], v.i, w.i) if name != 'operator-' else S(v.i - w.i)
                if isinstance(v, StrIter) and isinstance(w, StrIter):
                    if v.p.src != w.p.src: raise Unsupported('iterators of different strings')
                    return ip.compare(name[8:], v.p.off, w.p.off) if name != 'operator-' else S(v.p.off - w.p.off)
        if isinstance(v, (Str, View, CharP)) and name in ('operator==', 'operator!='):
            r = self.text_eq(ip, text_of(ip, v), text_of(ip, ip.rv(argnodes[1])))
            return r if name == 'operator==' else S(z3.Not(r))
        if isinstance(v, (Str, CharP)) and name == 'operator+':
            w = ip.rv(argnodes[1]); r1 = text_of(ip, v); r2 = Rope([Chr(w)]) if z3.is_expr(w) else text_of(ip, w)
            return mk_string(ip, r1 + r2)
        if z3.is_expr(v) and name == 'operator+':
            w = ip.rv(argnodes[1]); return mk_string(ip, Rope([Chr(v)]) + text_of(ip, w))
        if isinstance(v, Closure) and name == 'operator=': c.write(d, ip.rv(argnodes[1])); return d
        return self.method(ip, d, v, name, argnodes[1:], n, dst, ip.typ(argnodes[0]))
    def assign_smart(self, ip, d, v, node):
        c = ip.c
        src = ip.glv(node) if node.get('valueCategory') in ('lvalue', 'xvalue') or ip.is_class(qt(node)) else ip.ev(node)
        w = ip.val(src)
        if isinstance(w, Ptr) and w.t is None and isinstance(v, Handle): w = Handle(v.kind, I(0))
        if isinstance(w, Ptr) and isinstance(v, Ptr): w = Ptr(w.t, v.kind, w.meta)
        if node.get('valueCategory') == 'xvalue' and isinstance(src, LV) and src != d:
            c.write(src, self.moved(ip, ip.val(src)))
        old = v
        c.write(d, w)
        if isinstance(old, Ptr) and old.kind == 'unique' and isinstance(old.t, LV) and old.t != (w.t if isinstance(w, Ptr) else None): ip.destroy(old.t)
        h = ip.e.unit.on_reassign
        if h: h(ip, d, old, w)
        return d
    def text_eq(self, ip, a, b):
        """boolean term for the equality of two texts"""
        c = ip.c; x, y = a.concrete(), b.concrete()
        if x is not None and y is not None: return z3.BoolVal(x == y)
        if x is not None: a, b, x, y = b, a, y, x
        if y is not None and len(a.segs) == 1 and isinstance(a.segs[0], Sub):
            s = a.segs[0]
            return S(z3.And(s.n == len(y), *[s.b.ch(S(s.off + i)) == ord(ch) for i, ch in enumerate(y)]))
        r = Cmp(c).eq(a.segs, b.segs)
        if r is True: return TRUE
        k1, k2 = self.text_id(ip, a), self.text_id(ip, b)
        return S(k1 == k2)
    def text_id(self, ip, r):
        """identity of a text: equal texts have equal identities"""
        if len(r.segs) == 1 and isinstance(r.segs[0], Sub):
            s = r.segs[0]
            if ip.c.prove(z3.And(s.off == 0, s.n == s.b.len)):
                return z3.Function('tid_' + s.b.name, *([x.sort() for x in s.b.args] + [z3.IntSort()]))(*s.b.args) if s.b.args else z3.Int('tid_' + s.b.name)
        if r.concrete() is not None: return z3.Int('tid:' + r.concrete())
        raise Unsupported(f'identity of text {r}')
    def time_op(self, ip, name, d, v, argnodes, n):
        c = ip.c; op = name[8:]
        if op == '=': c.write(d, ip.rv(argnodes[1])); return d
        w = ip.rv(argnodes[1]); t0, t1 = qt(argnodes[0]), qt(argnodes[1])
        f0, f1 = self.unit_of(t0), (self.unit_of(t1) if is_time(norm(t1)) else None)
        w = ip.tonum(w)
        if f1 is None:
            if op in ('*',): return ip.arith('*', v, w, (64, 1), 'duration')
            if op in ('/', '%'): return ip.arith(op, v, w, (64, 1), 'duration')
            raise Unsupported(f'time operator {op}')
        u = min(f0, f1); a = self.rescale(ip, v, f0, u); b = self.rescale(ip, w, f1, u)
        if op in ('==', '!=', '<', '<=', '>', '>='): return ip.compare(op, a, b)
        if op in ('+', '-'): return ip.arith(op, a, b, (64, 1), 'duration')
        if op in ('+=', '-='):
            r = ip.arith(op[0], v, self.rescale(ip, w, f1, f0), (64, 1), 'duration'); c.write(d, r); return d
        if op == '%': return ip.arith('%', a, b, (64, 1), 'duration')
        if op == '/': return ip.arith('/', a, b, (64, 1), 'duration')
        raise Unsupported(f'time operator {op}')
    # ------------------------------------------------------------ free functions
    def function(self, ip, decl, argnodes, n, dst):
        name = decl['name']; c = ip.c
        h = ip.e.unit.lib_function(ip, name, decl, argnodes, n, dst)
        if h is not NotImplemented: return h
        m = getattr(self, 'f_' + name, None)
        if m is None: raise Unsupported(f'library function {name}')
        self.used.add(name)
        return m(ip, argnodes, n)
    def f_move(self, ip, a, n):
        if len(a) != 1: raise Unsupported('std::move algorithm')
        return ip.glv(a[0])
    def f_forward(self, ip, a, n): return ip.glv(a[0])
    def f_swap(self, ip, a, n):
        x, y = ip.glv(a[0]), ip.glv(a[1]); u, w = ip.c.read(x), ip.c.read(y); ip.c.write(x, w); ip.c.write(y, u)
    def f___assert_fail(self, ip, a, n): ip.c.violated('assertion holds'); raise PathEnd()
    def f_duration_cast(self, ip, a, n):
        v = ip.rv(a[0]); return self.rescale(ip, v, self.unit_of(qt(a[0])), self.unit_of(qt(n)))
    f_time_point_cast = f_duration_cast
    def f_to_time_t(self, ip, a, n): return self.rescale(ip, ip.rv(a[0]), 1, 10 ** 9)
    def minmax(self, ip, a, mx):
        x, y = [ip.glv(z) if z.get('valueCategory') in ('lvalue', 'xvalue') else ip.c.new_root(ip.ev(z), 't') for z in a]
        u, w = ip.tonum(ip.val(x)), ip.tonum(ip.val(y))
        return y if ip.c.choose(u < w if mx else w < u) else x
    def f_max(self, ip, a, n): return self.minmax(ip, a, True)
    def f_min(self, ip, a, n): return self.minmax(ip, a, False)
    def f_isdigit(self, ip, a, n):
        x = ip.tonum(ip.rv(a[0])); return S(z3.If(z3.And(x >= 48, x <= 57), I(1), I(0)))
    def f_abs(self, ip, a, n):
        x = ip.tonum(ip.rv(a[0])); return ip.fit(z3.If(x < 0, -x, x), (32, 1))
    def f_now(self, ip, a, n):
        t = ip.c.fresh_int('now', 0, 2 ** 62); ip.c.trace.append(Ev('now', t)); return t
    def make_smart(self, ip, a, n, kind):
        t = norm(strip_cv(qt(n))); k = elem_kind(t); c = ip.c
        h = getattr(ip.e.unit, 'make_object', None)
        if h:
            r = h(ip, k, a, n)
            if r is not None: return r
        cls = ip.ast.classes.get(k)
        if cls is None: raise Unsupported(f'make_{kind} of {k}')
        k = cls.name; args = ip.argv(a); f = self.resolve_ctor(ip, cls, a, args)
        lv = c.new_root(Obj(k, {}), k); ip.construct_with(cls, f, args, lv, False)
        return Ptr(lv, kind)
    def resolve_ctor(self, ip, cls, argnodes, args):
        """constructor chosen by a forwarding call, from the argument types"""
        def score(p, an):
            pt, at = p['type']['qualType'], qt(an); x, y = norm(strip_cv(p['type'].get('desugaredQualType', pt))), norm(strip_cv(at))
            s = 0
            if x == y: s += 4
            elif is_string(x) and (is_string(y) or 'char' in y): s += 3
            elif ip.int_type(x) and ip.int_type(y): s += 3
            elif is_smart(x) and is_smart(y) or x.split('<')[0] == y.split('<')[0]: s += 3
            elif ip.cls(x) is not None and ip.cls(y) is not None and self.derives(ip, y, x): s += 3
            elif 'basic_string_view' in x and is_string(y): s += 2
            else: return None
            rv = an.get('valueCategory') in ('xvalue', 'prvalue')
            if '&&' in pt: 
                if not rv: return None
                s += 1
            elif pt.endswith('&') and not pt.startswith('const') and ' const ' not in pt and rv: return None
            return s
        best = None
        for m in cls.methods:
            if m.kind != 'CXXConstructorDecl' or m.node.get('explicitlyDeleted'): continue
            if len(m.params) < len(args): continue
            if any('init' not in p for p in m.params[len(args):]): continue
            sc = [score(p, an) for p, an in zip(m.params, argnodes)]
            if any(x is None for x in sc): continue
            if len(m.params) > len(args): raise Unsupported('default arguments of a forwarded construction')
            v = sum(sc)
            if best is None or v > best[0]: best = (v, m)
        if best is None:
            if not args: return None
            raise Unsupported(f'constructor of {cls.name} for a forwarding call')
        return ip.ast.definition(best[1].node['id']) or best[1]
    def derives(self, ip, d, b):
        if d == b: return True
        cl = ip.ast.classes.get(d)
        return cl is not None and any(self.derives(ip, x, b) for x in cl.bases)
    def f_make_unique(self, ip, a, n): return self.make_smart(ip, a, n, 'unique')
    def f_make_shared(self, ip, a, n): return self.make_smart(ip, a, n, 'shared')
    def f_to_string(self, ip, a, n):
        if not ip.int_type(strip_cv(ip.typ(a[0]))): raise Unsupported('to_string of a non-integer')
        t = ip.tonum(ip.rv(a[0]))
        return mk_string(ip, Rope([Dec(t)]) if ip.c.choose(t >= 0) else Rope([Chr(I(ord('-'))), Dec(S(-t))]))
    def f_length(self, ip, a, n): return text_of(ip, ip.rv(a[0])).len()
    f_strlen = f_length
    def f_count_digits(self, ip, a, n):
        t = S(ip.tonum(ip.rv(a[0])))
        for k in range(1, 21):
            if ip.c.prove(z3.And(t < 10 ** k, t >= (0 if k == 1 else 10 ** (k - 1)))): return I(k)
        return ndig(t)
    def m_format_int_data(self, ip, obj, v, a, n): return CharP(obj, 0, v.gen)
    m_format_int_c_str = m_format_int_data
    def m_format_int_size(self, ip, obj, v, a, n): return v.r.len()
    def f_getpid(self, ip, a, n): return self.os_id(ip, 'pid')
    def os_id(self, ip, nm):
        t = ip.c.fresh_int(nm + '_of_an_earlier_call') if ip.c.ghost.get('earlier') else z3.Int(nm)      # a process may fork
        ip.c.assume(z3.And(t >= 1, t < 2 ** 31)); return t
    def f_zero(self, ip, a, n): return I(0)
    def step(self, ip, a, sign):
        v = ip.rv(a[0]); k = ip.tonum(ip.rv(a[1])) if len(a) > 1 and a[1].get('kind') != 'CXXDefaultArgExpr' else I(1)
        if isinstance(v, Iter): return Iter(v.cont, S(v.i + sign * k))
        if isinstance(v, StrIter): return StrIter(CharP(v.p.src, S(v.p.off + sign * k), v.p.gen))
        if isinstance(v, CharP): return CharP(v.src, S(v.off + sign * k), v.gen)
        raise Unsupported('step of an iterator')
    def f_next(self, ip, a, n): return self.step(ip, a, 1)
    def f_prev(self, ip, a, n): return self.step(ip, a, -1)
    def f_advance(self, ip, a, n): d = ip.glv(a[0]); ip.c.write(d, self.step(ip, a, 1))
    def f_distance(self, ip, a, n):
        v, w = ip.rv(a[0]), ip.rv(a[1])
        if isinstance(v, Iter) and isinstance(w, Iter) and v.cont == w.cont: return S(w.i - v.i)
        if isinstance(v, StrIter) and isinstance(w, StrIter): v, w = v.p, w.p
        if isinstance(v, CharP) and isinstance(w, CharP) and v.src == w.src: return S(w.off - v.off)
        raise Unsupported('distance of iterators')
    def f_bind(self, ip, a, n): v = ip.argv(a); return ip.bound(v[0], v[1:])
    def f_ref(self, ip, a, n): return Opaque('reference_wrapper', to=ip.glv(a[0]))
    f_cref = f_ref
    def f_max_int(self, ip, a, n): return I(2 ** 63 - 1)
