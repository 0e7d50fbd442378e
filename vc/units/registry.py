"""The registry under contract: shared by C17, C18, C22, C23, C24."""
from units.loggers import *
REG = 'registry'
INT = z3.IntSort(); LIKE = z3.Function('formats_like', INT, INT); LNAME = z3.Function('tid_lname', INT, INT); IS_ASYNC = z3.Function('logger_is_async', INT, z3.BoolSort()); TID_KEY = z3.Function('tid_keytext', INT, INT)
NAME_OF = {k: z3.Int('tid_' + k) for k in ('name', 'other')}
SETTERS = ('set_pattern', 'set_formatter', 'set_log_level', 'set_flush_level', 'flush')
class Sec: pass
class RegUnit(LogUnit):
    """loggers_ is an abstract map from names to loggers (absent -1); the registry's fields are arbitrary whenever the lock that protects them is taken"""
    handle_kinds = frozenset(['logger', 'async_logger', 'formatter', 'pattern_formatter', 'thread_pool', 'lock_thread_pool', 'lockfree_thread_pool', 'lockfree_concurrent_thread_pool', 'periodic_function', 'sink', 'log_msg_buf', 'promise'])
    throws = False            # may the callbacks and setters throw
    FIELDS = ('loggers_mutex_', 'global_formatter_', 'global_pattern_', 'global_log_level_', 'global_flush_level_', 'auto_register_logger_', 'default_logger_', 'loggers_', 'flusher_mutex_', 'global_flusher_', 'thread_mutex_', 'thread_pool_')
    GUARD = {'loggers_mutex_': ('global_formatter_', 'global_pattern_', 'global_log_level_', 'global_flush_level_', 'auto_register_logger_', 'default_logger_', 'loggers_'), 'flusher_mutex_': ('global_flusher_',), 'thread_mutex_': ('thread_pool_',)}
    reg = None; constructing = False
    def contract(self, cls, name):
        if cls is None and name.endswith('throw_learnlog_excpt'): return c_throw
        return LogUnit.contract(self, cls, name)
    # ---- locks
    def on_lock(self, ip, key):
        c = ip.c; m = self.which(key)
        if m is None: return
        s = Sec(); s.mutex = m; s.at = len(c.trace); s.k0 = len(c.ghost.get('sections', [])); s.inner = len(c.locks)
        for f, v in fresh_state(ip, m, s.k0 > 0).items(): c.write(self.reg.sub(('f', f)), v, True)
        s.entry = {f: c.read(self.reg.sub(('f', f)), True) for f in self.GUARD[m]}; s.exit = None; c.ghost['sections'] = c.ghost.get('sections', []) + [s]
    def on_unlock(self, ip, key):
        c = ip.c; m = self.which(key)
        if m is None: return
        ss = list(c.ghost.get('sections', []))
        for i in range(len(ss) - 1, -1, -1):
            if ss[i].mutex == m and ss[i].exit is None:
                o = ss[i]; s = Sec(); s.__dict__ = dict(o.__dict__); s.exit = {f: c.read(self.reg.sub(('f', f)), True) for f in self.GUARD[m]}; s.trace = c.trace[o.at:]; ss[i] = s; break
        c.ghost['sections'] = ss
        if m == 'loggers_mutex_': invariant(ip, s.entry, s.exit)
    def which(self, key):
        for m in self.GUARD:
            if self.reg is not None and key == self.reg.sub(('f', m)): return m
    def on_access(self, c, lv, mode):
        if self.reg is None or self.constructing or not isinstance(lv, LV) or lv.root != self.reg.root or not lv.path: return
        f = lv.path[0][1]
        for m, fs in self.GUARD.items():
            if f in fs and self.reg.sub(('f', m)) not in c.locks: c.violated('registry data is touched only under its lock', f'{f} ({mode})')
    # ---- objects behind pointers
    def handle_contract(self, kind, name):
        if kind in ('logger', 'async_logger'):
            if name == 'name': return lambda ip, h, args, n, dst: lname(ip, h)
            if name == 'is_async': return lambda ip, h, args, n, dst: IS_ASYNC(h.t)
            if name in SETTERS: return lambda ip, h, args, n, dst: c_setter(ip, self, h, name, args)
        if kind == 'formatter' and name == 'clone': return c_clone
        return LogUnit.handle_contract(self, kind, name)
    def made(self, ip, k, a, n):
        c = ip.c
        if k in ('pattern_formatter', 'logger', 'async_logger', 'periodic_function') or k.endswith('thread_pool') or 'sink' in k:
            a = [x for x in a if x.get('kind') != 'CXXDefaultArgExpr']; xs = ip.argv(a)
            args = [v for v in (snapv(ip, x) for x in xs)]
            kind = 'formatter' if k == 'pattern_formatter' else 'sink' if 'sink' in k else k
            for x in xs:
                v = ip.val(x)
            return self.fresh(ip, k, kind, args)
    def fresh(self, ip, k, kind, args):
        c = ip.c; h = c.fresh_int('new_' + kind); c.assume(h > 0); c.trace.append(Ev('made', k, Handle(kind, h), args)); c.ghost['made'] = dict(c.ghost.get('made', {}), **{str(h): (k, args)})
        if kind in ('logger', 'async_logger'):
            c.assume(IS_ASYNC(h) == (kind == 'async_logger'))
            if args and isinstance(args[0], Rope): c.assume(LNAME(h) == ip.lib.text_id(ip, args[0]))
        return Handle(kind, h)
    def make_object(self, ip, k, a, n): return self.made(ip, k.replace('learnlog::', '').replace('base::', '').replace('sinks::', ''), a, n)
    def new_object(self, ip, t, init, lv):
        while init is not None and init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr'): init = init['inner'][0]
        return self.made(ip, t, init.get('inner', []) if init else [], None)
    # ---- the map and collections made from it
    def make_vector(self, ip, t, k, a, ctype):
        if not a and ('string' in str(k) or 'string' in t or 'logger' in t): return Opaque('cset', s=z3.K(INT, z3.BoolVal(False)), h=z3.K(INT, I(-1)), of='name' if 'string' in t else 'logger')
    def lib_construct(self, ip, t, args, ctype):
        if is_map(t):
            if not args: return Opaque('lmap', m=z3.K(INT, I(-1)))
            v = ip.val(args[0])
            if isinstance(v, Opaque) and v.fam == 'lmap':
                if '&&' in (ctype or '') and isinstance(args[0], LV): ip.c.write(args[0], Opaque('lmap', m=z3.K(INT, I(-1))))
                return v
            if isinstance(v, Opaque) and v.fam == 'ilist' : return v
        if is_mapit(t) and args:
            v = ip.val(args[0])
            if isinstance(v, Opaque) and v.fam == 'mapit': return v
        return LogUnit.lib_construct(self, ip, t, args, ctype)
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        c = ip.c
        if isinstance(v, Opaque) and v.fam == 'lmap':
            if self.on_access and isinstance(obj, LV): self.on_access(c, obj, 'm')
            m = v.kw['m']
            if name in ('find', 'count', 'contains'):
                k = key_of(ip, ip.argv(argnodes)[0]); look(ip, v, k)
                return Opaque('mapit', key=k, map=obj, present=S(z3.Select(m, k) != -1)) if name == 'find' else S(z3.If(z3.Select(m, k) != -1, I(1), I(0))) if name == 'count' else S(z3.Select(m, k) != -1)
            if name in ('end', 'cend'): return Opaque('mapit', key=None, map=obj)
            if name in ('begin', 'cbegin'): return Opaque('mapit', key='begin', map=obj)
            if name == 'clear': c.write(obj, Opaque('lmap', m=z3.K(INT, I(-1)))); return None
            if name == 'erase':
                x = ip.argv(argnodes)[0]; w = ip.val(x)
                if isinstance(w, Opaque) and w.fam == 'mapit':
                    k = w.kw['key']
                    if k is None: c.violated('the end of the map is not erased'); raise PathEnd()
                    if isinstance(k, (str, tuple)): raise Unsupported('erase of an iterator')
                    c.check('an entry erased is there', z3.Select(m, k) != -1, 'safety')
                    c.write(obj, Opaque('lmap', m=z3.Store(m, k, I(-1)), **keep(v))); return Opaque('mapit', key=('next', k), map=obj)
                k = key_of(ip, x); look(ip, v, k); was = S(z3.If(z3.Select(m, k) != -1, I(1), I(0))); c.write(obj, Opaque('lmap', m=z3.Store(m, k, I(-1)), **keep(v))); return was
            if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
                a = ip.argv(argnodes)
                if len(a) == 1:
                    p = c.read(a[0], True) if isinstance(a[0], LV) else a[0]
                    if not (isinstance(p, Obj) and p.cls == 'std::pair'): raise Unsupported('map insert')
                    k, h = key_of(ip, p.f['first']), p.f['second']
                else: k = key_of(ip, a[0]); h = ip.val(a[1])
                look(ip, v, k); new = z3.Select(m, k) == -1
                if not isinstance(h, (Handle, Ptr)): raise Unsupported('map insert')
                ht = h.t if isinstance(h, Handle) else I(0)
                put = z3.Store(m, k, ht) if name == 'insert_or_assign' else z3.If(new, z3.Store(m, k, ht), m)
                if len(a) > 1 and isinstance(a[1], LV) and is_xvalue(argnodes[1]) and c.choose(z3.BoolVal(True) if name == 'insert_or_assign' else new): c.write(a[1], Handle(h.kind, I(0)) if isinstance(h, Handle) else Ptr(None, 'shared'))
                c.write(obj, Opaque('lmap', m=S(put), **keep(v)))
                return Obj('std::pair', {'first': Opaque('mapit', key=k, map=obj, present=TRUE), 'second': S(new)})
            if name in ('at', 'operator[]'): return self.slot(ip, obj, key_of(ip, ip.argv(argnodes)[0]), name == 'at')
            if name == 'size': x = c.fresh_int('map_size', 0); return x
            if name == 'empty':
                q = z3.Int('qe'); return S(z3.ForAll([q], z3.Select(m, q) == -1))
            if name in ('reserve', 'rehash'): return None
            if name == 'swap':
                o = ip.argv(argnodes)[0]; w = c.read(o); c.write(obj, w); c.write(o, v); return None
            if name == 'operator=':
                x = ip.argv(argnodes)[0]; w = ip.val(x); c.write(obj, w); return obj
            raise Unsupported(f'map::{name}')
        if isinstance(v, Opaque) and v.fam == 'cset':
            if name in ('push_back', 'emplace_back', 'insert', 'emplace'):
                x = ip.argv(argnodes)[0]; k = collected(ip, v, x); c.write(obj, Opaque('cset', s=z3.Store(v.kw['s'], k[0], TRUE), h=z3.Store(v.kw['h'], k[0], k[1]), of=v.kw['of'])); return None
            if name in ('begin', 'cbegin'): return Opaque('mapit', key='begin', map=obj)
            if name in ('end', 'cend'): return Opaque('mapit', key=None, map=obj)
            if name in ('reserve', 'shrink_to_fit'): return None
            if name == 'empty':
                q = z3.Int('qe'); return S(z3.ForAll([q], z3.Not(z3.Select(v.kw['s'], q))))
            if name == 'size': return c.fresh_int('set_size', 0)
            raise Unsupported(f'collection::{name}')
        if isinstance(v, Opaque) and v.fam == 'mapit': return self.iter_op(ip, name, obj, v, argnodes)
        return LogUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt) if hasattr(LogUnit, 'lib_method') else NotImplemented
    def lib_operator(self, ip, name, argnodes, n, dst):
        c = ip.c; t = ip.typ(argnodes[0])
        if is_mapit(t):
            d = ip.glv(argnodes[0]); v = c.read(d, True)
            if not (isinstance(v, Opaque) and v.fam == 'mapit'): return self.up(ip, name, argnodes, n, dst)
            return self.iter_op(ip, name, d, v, argnodes[1:])
        if is_map(t) and name in ('operator[]', 'operator='):
            d = ip.glv(argnodes[0])
            if name == 'operator=': w = ip.rv(argnodes[1]); c.write(d, w); return d
            return self.slot(ip, d, key_of(ip, ip.argv(argnodes[1:])[0]))
        return self.up(ip, name, argnodes, n, dst)
    def up(self, ip, name, argnodes, n, dst): return LogUnit.lib_operator(self, ip, name, argnodes, n, dst) if hasattr(LogUnit, 'lib_operator') else NotImplemented
    def iter_op(self, ip, name, d, v, argnodes):
        c = ip.c; k = v.kw['key']
        if name in ('operator==', 'operator!='):
            w = ip.rv(argnodes[0])
            if not (isinstance(w, Opaque) and w.fam == 'mapit'): raise Unsupported('comparison of iterators')
            a, b = (v, w) if w.kw['key'] is None else (w, v)
            if b.kw['key'] is not None: raise Unsupported('comparison of iterators')
            if a.kw['key'] is None: eq = TRUE
            elif z3.is_expr(a.kw['key']): eq = z3.Not(a.kw.get('present', TRUE))
            else: raise Unsupported('comparison of iterators')
            return S(eq) if name == 'operator==' else S(z3.Not(eq))
        if name == 'operator++':
            if not z3.is_expr(k): raise Unsupported('iterator step')
            c.write(d, Opaque('mapit', key=('next', k), map=v.kw['map'])); return d if not argnodes else v
        if name == 'operator=':
            w = ip.rv(argnodes[0]); c.write(d, w); return d
        if name in ('operator->', 'operator*'):
            if k is None: c.violated('the end of the map is not read'); raise PathEnd()
            if not z3.is_expr(k): raise Unsupported('iterator')
            mv = c.read(v.kw['map'])
            if mv.fam == 'lmap':
                look(ip, mv, k); c.check('an entry read is there', z3.Select(mv.kw['m'], k) != -1, 'safety')
                p = root(ip, Obj('std::pair', {'first': keytext(ip, k), 'second': Handle('logger', z3.Select(mv.kw['m'], k))}), 'pair'); self.slots(c, p.root, v.kw['map'], k)
            else:
                p = root(ip, keytext(ip, k) if mv.kw['of'] == 'name' else Handle('logger', z3.Select(mv.kw['h'], k)), 'el')
            return Ptr(p) if name == 'operator->' else p
        raise Unsupported('map iterator ' + name)
    def handle_field(self, ip, h, name): return None
    def slots(self, c, r, d, k): c.ghost['slots'] = dict(c.ghost.get('slots', {}), **{r: (d, k)})
    def slot(self, ip, d, k, at=False):
        c = ip.c; v = c.read(d); look(ip, v, k)
        if at and not c.choose(z3.Select(v.kw['m'], k) != -1): raise CppThrow(Exc('std', rope('out of range')))
        if not c.choose(z3.Select(v.kw['m'], k) != -1): v = Opaque('lmap', m=z3.Store(v.kw['m'], k, I(0)), **keep(v)); c.write(d, v)
        s = root(ip, Handle('logger', z3.Select(v.kw['m'], k)), 'slot'); self.slots(c, s.root, d, k); return s
    def stops_flusher(self, ip, h):
        """destroying a flusher joins its thread, whose callback takes the lock of the loggers"""
        c = ip.c
        if isinstance(h, Handle) and h.kind == 'periodic_function' and self.reg is not None and h.t is not None and self.reg.sub(('f', 'loggers_mutex_')) in c.locks: c.check("a flusher is not stopped while the lock its callback takes is held", h.t == 0)
    def on_destroy(self, ip, lv, v): self.stops_flusher(ip, v)
    def on_reassign(self, ip, d, old, w):
        c = ip.c; s = c.ghost.get('slots', {}); self.stops_flusher(ip, old)
        if isinstance(d, LV) and d.root in s:
            if d.path and d.path != (('f', 'second'),): raise Unsupported('write to a map entry')
            m, k = s[d.root]; v = c.read(m, True); ht = w.t if isinstance(w, Handle) else I(0) if isinstance(w, Ptr) and w.t is None else None
            if ht is None: raise Unsupported('write to a map entry')
            c.write(m, Opaque('lmap', m=z3.Store(v.kw['m'], k, ht), **keep(v)))
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        if name in ('format', 'vformat'):
            xs = ip.argv(argnodes); t = ip.c.fresh_text('message'); ip.c.assume(t.len() >= 0); return Str(t, 'string', ip.c.newgen())
        if name == 'next' and len([a for a in argnodes if a.get('kind') != 'CXXDefaultArgExpr']) == 1:
            v = ip.rv(argnodes[0])
            if isinstance(v, Opaque) and v.fam == 'mapit' and z3.is_expr(v.kw['key']): return Opaque('mapit', key=('next', v.kw['key']), map=v.kw['map'])
            raise Unsupported('next of an iterator')
        return LogUnit.lib_function(self, ip, name, decl, argnodes, n, dst)
    def loop_hook(self, ip, node, cond, body, step): return entry_rule(ip, self, cond, body, step)
    def call_object(self, ip, f, args):
        v = ip.c.read(f, True) if isinstance(f, LV) else f
        if isinstance(v, Opaque) and v.fam == 'callback':
            ip.c.trace.append(Ev('callback', *[ip.val(a) for a in args]))
            if self.throws: fail(ip, self)
            return None
        return NotImplemented
def is_xvalue(n): return n.get('valueCategory') == 'xvalue'
def is_map(t): return 'unordered_map<' in t or t.startswith('std::map<') or t.startswith('map<')
def is_mapit(t): return '_Node_' in t or '_Rb_tree' in t or '__normal_iterator' in t
def keep(v): return {k: x for k, x in v.kw.items() if k != 'm'}
def snapv(ip, x):
    v = ip.val(x) if isinstance(x, LV) else x
    if isinstance(v, (Str, View, CharP)): return text_of(ip, v)
    return v
def keytext(ip, k): ip.c.assume(TID_KEY(k) == k); ip.c.assume(sym_text('keytext', k).len() >= 0); return Str(sym_text('keytext', k), 'string', ip.c.newgen())
def lname(ip, h):
    t = sym_text('lname', h.t); ip.c.assume(t.len() >= 0); return root(ip, Str(t, 'string', ip.c.newgen()), 'lname')
def key_of(ip, x):
    v = ip.val(x) if isinstance(x, LV) else x
    k = ip.lib.text_id(ip, text_of(ip, v))
    if z3.is_app(k) and k.decl().name() == 'tid_keytext': return k.arg(0)
    return k
def look(ip, v, k):
    """what is known of an entry of the map found under the lock: it bears its own name"""
    m0 = v.kw.get('m0')
    if m0 is not None: inv_at(ip.c, m0, k)
def inv_at(c, m, k): e = z3.Select(m, k); c.assume(z3.Or(e == -1, z3.And(e > 0, LNAME(e) == k)))
def collected(ip, v, x):
    w = ip.val(x) if isinstance(x, LV) else x
    if v.kw['of'] == 'name': return key_of(ip, w), I(-1)
    if not isinstance(w, Handle): raise Unsupported('collection of loggers')
    k = ip.c.ghost.get('entry')
    if k is None: raise Unsupported('collection of loggers outside a loop over the map')
    return k, w.t
def c_throw(ip, this, args, n, dst):
    t = text_of(ip, args[0]) if len(args) and not z3.is_expr(ip.val(args[0])) else None
    ip.c.trace.append(Ev('raise')); raise CppThrow(Exc('std', t, 'learnlog_excpt'))
def c_clone(ip, h, args, n, dst):
    c = ip.c; c.check('a formatter cloned is there', h.t > 0, 'safety'); g = c.fresh_int('clone'); c.assume(g > 0); c.assume(LIKE(g) == LIKE(h.t)); c.trace.append(Ev('clone', h, Handle('formatter', g))); return Handle('formatter', g)
def c_setter(ip, u, h, name, args):
    c = ip.c; c.check('a logger used is there', h.t > 0, 'safety'); vs = [snapv(ip, a) for a in args]; c.trace.append(Ev(name, Handle('logger', h.t), *vs))
    if name == 'set_formatter' and args and isinstance(args[0], LV): c.write(args[0], Handle('formatter', I(0)))
    if u.throws and name != 'flush': fail(ip, u)
# ---------------------------------------------------------------- state
def setup(ip, u):
    c = ip.c; need_fields(ip, REG, u.FIELDS); f = {}
    for m in u.GUARD: f[m] = Opaque('std::mutex')
    for m in u.GUARD: f.update(fresh_state(ip, m, False))
    u.reg = root(ip, Obj(REG, f), 'registry'); return u.reg
def fresh_state(ip, m, again):
    c = ip.c; s = c.fresh_name('st') if again else ''
    if m == 'flusher_mutex_': h = z3.Int('flusher' + s); c.assume(h >= 0); return dict(global_flusher_=Handle('periodic_function', h))
    if m == 'thread_mutex_': h = z3.Int('pool' + s); c.assume(h >= 0); return dict(thread_pool_=Handle('thread_pool', h))
    g, d = z3.Int('gformatter' + s), z3.Int('default' + s); c.assume(g > 0); c.assume(d >= 0)
    m = z3.Array('loggers' + s, INT, INT); c.ghost['maps'] = c.ghost.get('maps', []) + [m]; t = sym_text('gpattern' + s); c.assume(t.len() >= 0)
    return dict(global_formatter_=Handle('formatter', g), global_pattern_=Str(t, 'string', c.newgen()), global_log_level_=lvl(ip, 'glevel' + s), global_flush_level_=lvl(ip, 'gflush' + s), auto_register_logger_=z3.Bool('auto' + s), default_logger_=Handle('logger', d), loggers_=Opaque('lmap', m=m, m0=m))
def mp(st): return st['loggers_'].kw['m']
def dflt(st):
    v = st['default_logger_']; return v.t if isinstance(v, Handle) else I(0) if isinstance(v, Ptr) and v.t is None else None
def hid(v): return v.t if isinstance(v, Handle) else I(0) if isinstance(v, Ptr) and v.t is None else None
def invariant(ip, e, x):
    c = ip.c; k = c.fresh_int('anykey'); inv_at(c, mp(e), k)
    v = z3.Select(mp(x), k); c.check('every registered logger is found under its own name', z3.Or(v == -1, z3.And(v > 0, LNAME(v) == k))); c.check('there is always a global formatter', hid(x['global_formatter_']) > 0)
def sections(ip, mutex='loggers_mutex_'): return [s for s in ip.c.ghost.get('sections', []) if s.mutex == mutex]
def the_section(ip, u, what='the operation is one critical section', mutex='loggers_mutex_'):
    c = ip.c; ss = sections(ip, mutex); c.check('the locks are released', z3.BoolVal(not c.locks))
    live = [s for s in ss if not idle(c, s)]
    if len(ss) == 1: live = ss
    if len(live) != 1: c.violated(what, f'{len(ss)} sections'); raise PathEnd()
    return live[0]
def idle(c, s): return all(loops.same(s.entry[k], s.exit[k]) for k in s.entry) and not s.trace
def same_state(ip, s, what, but=()):
    c = ip.c
    for f, a in s.entry.items():
        if f in but: continue
        b = s.exit[f]
        if f == 'loggers_': k = c.fresh_int('k'); c.check(f'{what}: {f} is unchanged', z3.Select(mp(s.exit), k) == z3.Select(mp(s.entry), k))
        elif isinstance(a, Str): c.check_text(f'{what}: {f} is unchanged', b.r, a.r)
        elif isinstance(a, Handle): c.check(f'{what}: {f} is unchanged', hid(b) == a.t)
        else: c.check(f'{what}: {f} is unchanged', b == a)
def map_is(ip, s, what, f):
    """the map afterwards, entry by entry: f(key, old entry)"""
    c = ip.c; k = c.fresh_int('k'); inv_at(c, mp(s.entry), k); c.check(what, z3.Select(mp(s.exit), k) == f(k, z3.Select(mp(s.entry), k)))
def attempt(fn):
    try: return fn(), None
    except CppThrow as e: return None, e.exc
# ---------------------------------------------------------------- loops over every entry
def entry_rule(ip, u, cond, body, step):
    c = ip.c
    its = [r for r, v in c.store.items() if isinstance(v, Opaque) and v.fam == 'mapit' and v.kw['key'] == 'begin']
    if not its: return None
    if len(its) != 1 or cond is None: raise Unsupported('several iterators')
    r = its[0]; it = c.store[r]; src = it.kw['map']; coll = c.read(src, True); ismap = coll.fam == 'lmap'
    k = z3.Int(c.fresh_name('entry')); there = (lambda x: z3.Select(coll.kw['m'], x) != -1) if ismap else (lambda x: z3.Select(coll.kw['s'], x))
    pre = dict(c.store); old = c.ghost.get('entry')
    def once():
        c.kstack.append(k)
        try:
            c.assume(there(k)); c.ghost['entry'] = k
            if ismap: look(ip, coll, k)
            else:
                for m0 in c.ghost.get('maps', []): inv_at(c, m0, k)
            c.store[r] = Opaque('mapit', key=k, map=src, present=TRUE)
            if not c.choose(cond()): raise Break()
            try: body()
            except Continue: pass
            if step: step()
        finally: c.kstack.pop()
    outs = c.nested(once)
    alts = []; throws = []; changed = {}
    for o in outs:
        if o['imprecise']: c.imprecise = o['imprecise']
        if o['kind'] == 'throw': throws.append(o); continue
        if o['kind'] != 'next': raise Unsupported('a loop over the map that stops early')
        w = o['store'].get(r)
        if not (isinstance(w, Opaque) and w.fam == 'mapit' and isinstance(w.kw['key'], tuple) and w.kw['key'][1].eq(k)): raise Unsupported('loop over the map: iterator')
        cnd = And(*[f for f in o['pc'] if f.get_id() in c.decs])
        alts.append((And(*o['pc']), o['trace']))
        if o['locks'] != c.locks: raise Unsupported('a loop that keeps a lock')
        for q, v in pre.items():
            if q == r or v is None: continue
            w = o['store'].get(q)
            if w is None: raise Unsupported('loop destroys an object')
            d = {}; loops.diff(v, w, (), q, d, o)
            for key in d: changed.setdefault(key, []).append((cnd, loops.get_path(w, key[1])))
    c.store[r] = Opaque('mapit', key=None, map=src)
    if throws:
        if c.choose_nd(2):
            i = c.choose_nd(len(throws)) if len(throws) > 1 else 0; o = throws[i]
            for f in o['pc']: c.assume(f)
            c.trace.append(Ev('some', k, o['trace'])); raise o['ex']
    for (q, path), ws in changed.items():
        v = loops.get_path(c.store[q], path); lv = (q, path)
        while not (isinstance(v, Opaque) and v.fam in ('lmap', 'cset')):
            if not path: raise Unsupported('loop over the map: state')
            path = path[:-1]; v = loops.get_path(c.store[q], path)
        ws = [(cn, loops.get_path(o['store'][q], path)) for cn, o in [(And(*[f for f in o['pc'] if f.get_id() in c.decs]), o) for o in outs if o['kind'] == 'next']]
        j = z3.Int(c.fresh_name('j'))
        for cn, w in ws:
            f = ('m',) if v.fam == 'lmap' else ('s', 'h')
            for x in f: 
                if not c.prove(Implies(z3.And(there(k), cn, j != k), z3.Select(w.kw[x], j) == z3.Select(v.kw[x], j))): raise Unsupported('loop over the map: one entry changes another')
        def merged(x):
            e = z3.Select(v.kw[x], k)
            for cn, w in ws: e = z3.If(cn, z3.Select(w.kw[x], k), e)
            return z3.Lambda([k], z3.If(there(k), e, z3.Select(v.kw[x], k)))
        kw = dict(v.kw); kw.update({x: merged(x) for x in (('m',) if v.fam == 'lmap' else ('s', 'h'))})
        c.store[q] = loops.set_path(c.store[q], path, Opaque(v.fam, **kw)) if path else Opaque(v.fam, **kw)
    c.trace.append(Ev('each', k, S(there(k)), alts)); return True
def each(ip, tr, what, m, want):
    """tr visits every entry of map m exactly once; want(key, handle, events) checks one visit"""
    c = ip.c; es = [e for e in tr if e.name == 'each' and any(t for _, t in e.args[2])]
    rest = [e for e in tr if e.name != 'each']
    if len(es) != 1: c.violated(what, f'{len(es)} loops over the loggers'); return rest
    k, there, alts = es[0].args
    c.check(f'{what}: all of them', there == (z3.Select(m, k) != -1))
    for cn, t in alts:
        def one():
            c.kstack.append(k)
            try: c.assume(there); c.assume(cn); inv_at(c, m, k); want(k, z3.Select(m, k), t)
            finally: c.kstack.pop()
        c.nested(one)
    return rest
