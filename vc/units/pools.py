"""Pools and asynchronous loggers under contract: shared by C19, C20, C21."""
from units.threads import *
import units.c05 as c05
TP = 'thread_pool'; AL = 'async_logger'; AM = 'async_msg'
ALIVE = 'alive'
class AsyncUnit(ThreadUnit):
    """a weak reference yields the pool or nothing; requests to the pool are events; a future's get() is an event"""
    handle_kinds = ThreadUnit.handle_kinds | frozenset(['future'])
    outcomes = 2; reg = None
    SELF = 7001
    def handle_contract(self, kind, name):
        if kind == TP or kind.endswith('thread_pool'):
            if name == 'lock': return c_weak_lock
            if name == 'expired': return lambda ip, h, args, n, dst: ip.c.fresh_bool('expired')
            if name == 'use_count': return lambda ip, h, args, n, dst: ip.c.fresh_int('use_count', 0)
            if name in ('enqueue_log', 'enqueue_flush'): return lambda ip, h, args, n, dst: c_request(ip, self, h, name, args)
        if kind == 'promise':
            if name == 'get_future': return lambda ip, h, args, n, dst: Handle('future', h.t)
            if name == 'set_value': return c_set_value
        if kind == 'future' and name in ('get', 'wait'): return lambda ip, h, args, n, dst: c_get(ip, self, h, name)
        if kind == 'future' and name in ('wait_for', 'wait_until'): return lambda ip, h, args, n, dst: c_timed(ip, self, h)
        if kind == 'future' and name == 'valid': return lambda ip, h, args, n, dst: S(h.t != 0)
        if kind in ('logger', AL) and name in ('do_sink_log_', 'do_flush_sink_'): return lambda ip, h, args, n, dst: ip.c.trace.append(Ev(name, h, *[snap(ip, a) for a in args]))
        return ThreadUnit.handle_contract(self, kind, name)
    def lib_construct(self, ip, t, args, ctype):
        if t.startswith('std::future<') or t.startswith('std::shared_future<'):
            if not args: return Handle('future', I(0))
            v = ip.val(args[0])
            if isinstance(v, Handle) and v.kind == 'future':
                if isinstance(args[0], LV): ip.c.write(args[0], Handle('future', I(0)))
                return v
        return ThreadUnit.lib_construct(self, ip, t, args, ctype)
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        if isinstance(v, Obj) and name == 'shared_from_this': return Handle(AL, I(self.SELF))
        return ThreadUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt)
    def on_destroy(self, ip, lv, v):
        if isinstance(v, Handle) and v.kind == 'promise' and v.t is not None and ip.c.prove(v.t != 0): ip.c.trace.append(Ev('dropped', v.t))
        ThreadUnit.on_destroy(self, ip, lv, v)
def c_weak_lock(ip, h, args, n, dst):
    c = ip.c; ok = c.choose_nd(2) == 0; c.trace.append(Ev('locked', h, ok)); return Handle(TP, h.t if ok else I(0))
def c_request(ip, u, h, name, args):
    c = ip.c; c.check('a pool used is there', h.t > 0, 'safety'); vs = [snap(ip, a) for a in args]; c.trace.append(Ev(name, h, *vs))
    if isinstance(args[0], LV): c.write(args[0], Handle(AL, I(0)))
    fail(ip, u)
    if name == 'enqueue_flush': p = c.fresh_int('promise', 1); c.trace.append(Ev('promised', p)); return Handle('future', p)
def c_get(ip, u, h, name):
    c = ip.c; c.check('a future waited for is valid', h.t > 0, 'safety'); c.trace.append(Ev('get', h.t))
    if name == 'get': fail(ip, u)
def c_timed(ip, u, h):
    """future_status: 0 ready, 1 timeout; only a wait that ended ready is one"""
    c = ip.c; c.check('a future waited for is valid', h.t > 0, 'safety')
    if c.choose_nd(2): return I(1)
    c.trace.append(Ev('get', h.t)); return I(0)
def c_set_value(ip, h, args, n, dst):
    ip.c.check('a promise kept is a valid one', h.t > 0, 'safety'); ip.c.trace.append(Ev('set_value', h.t))
PF_ = 'thread_pool_'
def the_logger(ip, u):
    c = ip.c; cl = ip.ast.classes[AL]
    if [f['name'] for f in ip.fields_of(cl) if f['name'] not in LOGGER] != [PF_]: raise Unsupported(f'representation of {AL}')
    p = z3.Int('pool'); c.assume(p > 0); return fresh_logger(ip, cls=AL, extra={PF_: Handle(TP, p)})
# ---------------------------------------------------------------- thread_pool
class PoolUnit(AsyncUnit):
    """the queue operations of a pool are events; what a request holds when it is queued is checked there"""
    obj = None; atomic_events = False
    handle_kinds = (AsyncUnit.handle_kinds | frozenset(['thread', 'atomic_token', 'ptoken', 'ctoken'])) - {'log_msg_buf'}; value_kinds = frozenset()
    stub = (); full = False; outcomes = 2      # full: queueing may fail for want of memory
    def abstract_ctor(self, ip, t): return None
    def contract(self, cls, name):
        f = self.stub and getattr(self, 'c_' + name, None) if name in self.stub else None
        return f or AsyncUnit.contract(self, cls, name)
    def c_enqueue_async_msg_(self, ip, this, args, n, dst):
        c = ip.c
        if self.full: fail(ip, self)
        c.trace.append(Ev('queued', amsg(ip, args[0]), tuple(c.locks)))
    def c_worker_loop_(self, ip, this, args, n, dst): ip.c.trace.append(Ev('loop'))
    def c_process_async_msg_(self, ip, this, args, n, dst): b = z3.BoolVal(ip.c.choose_nd(2) == 0); ip.c.trace.append(Ev('process', b)); ip.c.ghost['last'] = z3.is_true(b); return b
    def c_dequeue_async_msg_(self, ip, this, args, n, dst):
        c = ip.c; d = args[0]; lv, spec = own_msg(ip, AM, 'popped', c03.afields(ip, 'popped')); c.check('a worker takes one request at a time', z3.BoolVal('popped' not in c.ghost)); c.ghost['popped'] = spec
        o = c.store[lv.root]; b = d.sub(('f', 'buf_')); f = dict(o.f); g = f['buf_'].gen
        for k in ('logger_name', 'msg'): v = f[k]; f[k] = View(CharP(b, v.p.off, g), v.n)
        c.write(d, Obj(AM, f), True); c.trace.append(Ev('dequeued', tuple(c.locks)))
def amsg(ip, lv):
    """a request at the time it is queued: texts read out of its own buffer"""
    c = ip.c; o = c.read(lv, True)
    if not (isinstance(o, Obj) and o.cls == AM): raise Unsupported('request')
    b = lv.sub(('f', 'buf_'))
    for k in ('logger_name', 'msg'): p = o.f[k].p; c.check('a queued request owns its texts', z3.BoolVal(p.src == b or c.prove(o.f[k].n == 0)))
    return snapmsg(ip, o)
def tp_fields(ip): return [f['name'] for f in ip.fields_of(ip.ast.classes[TP])]
def the_base(ip):
    c = ip.c; f = {}
    for fd in ip.fields_of(ip.ast.classes[TP]): f[fd['name']] = Opaque('field', name=fd['name'])
    return root(ip, Obj(TP, f), 'tp')
# ---------------------------------------------------------------- the three kinds of pool
KINDS = {'lock_thread_pool': 'lock', 'lockfree_thread_pool': 'lockfree', 'lockfree_concurrent_thread_pool': 'lockfree_concurrent'}
QUEUES = (('BlockingConcurrentQueue<', 'bcq'), ('ConcurrentQueue<', 'cq'), ('block_queue<', 'bq'))
SEEN = ('put', 'take', 'start', 'join', 'hook', 'loop', 'signal', 'semwait', 'token', 'detach')
def fam_of(t):
    t = re.sub(r'^(moodycamel::|learnlog::|base::)*', '', t)
    for p, f in QUEUES:
        if t.startswith(p): return f
    if t.startswith('LightweightSemaphore'): return 'sema'
def is_threads(t): return 'vector<' in t and 'std::thread' in t
class KindUnit(PoolUnit):
    """a pool of one kind; its queue is the queue's contract"""
    kind = None; obj = None; who = None; atomic_events = True; inside = False; base = 0; symdiv = True
    def contract(self, cls, name):
        if cls is None and name.endswith('get_errno'): return lambda ip, this, args, n, dst: ip.c.fresh_int('errno')
        return PoolUnit.contract(self, cls, name)
    def abstract_ctor(self, ip, t):
        f = fam_of(t)
        if f: return lambda ip, args, ctype: self.made_queue(ip, f, args)
    def made_queue(self, ip, f, args):
        c = ip.c
        if f == 'sema': return Opaque('sema')
        k = ip.tonum(ip.val(args[0])) if args and z3.is_expr(ip.val(args[0])) else None; c.trace.append(Ev('queue', f, k)); return Opaque(f)
    def lib_construct(self, ip, t, args, ctype):
        f = fam_of(t)
        if f: return self.made_queue(ip, f, args)
        if t == 'std::thread' and args:
            v = ip.val(args[0])
            from interp import FuncRef
            if isinstance(v, (Closure, FuncRef)): self.started(ip, ip.bound(args[0], args[1:])); return Opaque('thread', run=1)
        if re.match(r'(moodycamel::)?(Producer|Consumer)Token', t): return Handle('ptoken' if 'Producer' in t else 'ctoken', ip.c.fresh_int('token', 1))
        return PoolUnit.lib_construct(self, ip, t, args, ctype)
    def make_vector(self, ip, t, k, a, ctype):
        if not a and is_threads(t): return Arr(z3.K(INT, I(0)), 0, 'thread')
        if not a and 'atomic_token' in t: return Arr(z3.K(INT, I(0)), 0, 'atomic_token')
        return PoolUnit.make_vector(self, ip, t, k, a, ctype)
    def make_object(self, ip, k, a, n):
        c = ip.c; k = re.sub(r'^(moodycamel::|learnlog::|base::)*', '', k)
        if k == 'ConsumerToken': q = ip.argv(a)[0]; h = c.fresh_int('ctoken', 1); c.trace.append(Ev('token', 'consumer', h, q)); return Handle('ctoken', h)
        if k == 'atomic_token': return self.new_token(ip, a)
        return PoolUnit.make_object(self, ip, k, a, n)
    def new_object(self, ip, t, init, lv):
        if 'atomic_token' in t:
            while init is not None and init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr', 'CXXBindTemporaryExpr'): init = init['inner'][0]
            return self.new_token(ip, init.get('inner', []) if init else [])
        if 'ConsumerToken' in t:
            while init is not None and init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr', 'CXXBindTemporaryExpr'): init = init['inner'][0]
            return self.make_object(ip, 'ConsumerToken', init.get('inner', []) if init else [], None)
        return PoolUnit.new_object(self, ip, t, init, lv)
    def new_token(self, ip, a):
        """producer tokens made one after the other are numbered 1, 2, .. so that they are told apart"""
        c = ip.c
        if [e for e in c.trace if not isinstance(e, FE) and e.name == 'token'] and c.kstack: raise Unsupported('several tokens in one turn')
        h = S(1 + self.base + c.kstack[-1]) if c.kstack else c.fresh_int('ptoken', 2 ** 50); c.trace.append(Ev('token', 'producer', h)); return Handle('atomic_token', h)
    def handle_contract(self, kind, name):
        if kind == 'thread':
            if name == 'join': return c_join
            if name == 'joinable': return lambda ip, h, args, n, dst: TRUE
            if name == 'detach': return lambda ip, h, args, n, dst: ip.c.trace.append(Ev('detach', h.t))
        if kind == 'atomic_token' and name in ('enqueue_lock', 'release'): return lambda ip, h, args, n, dst: c_token_lock(ip, h, name)
        return PoolUnit.handle_contract(self, kind, name)
    def handle_field(self, ip, h, name):
        if h.kind == 'atomic_token' and name == 'p_token_': return root(ip, Handle('ptoken', h.t), 'ptoken')
        return PoolUnit.handle_field(self, ip, h, name)
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        c = ip.c
        if isinstance(v, Arr) and v.kind == 'thread' and name in ('emplace_back', 'push_back'):
            x = ip.argv(argnodes)[0]; w = ip.val(x)
            if isinstance(w, Opaque) and w.fam == 'thread':
                if w.kw['run'] is None: raise Unsupported('empty thread')
                if isinstance(x, LV): c.write(x, Opaque('thread', run=None))
            else: y = ip.argv(argnodes); self.started(ip, ip.bound(y[0], y[1:]))
            c.write(obj, Arr(z3.Store(v.a, v.n, v.n + 1), S(v.n + 1), 'thread')); return None
        if isinstance(v, TMap): return self.tmap_op(ip, obj, v, name, argnodes)
        if isinstance(v, Opaque) and v.fam in ('bq', 'bcq', 'cq'): return self.queue_op(ip, obj, v, name, ip.argv(argnodes), argnodes)
        if isinstance(v, Opaque) and v.fam == 'sema':
            a = [ip.val(x) for x in ip.argv([x for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr'])]
            if name == 'signal': c.trace.append(Ev('signal', a[0] if a else I(1))); return None
            if name == 'wait': c.trace.append(Ev('semwait')); return TRUE
            raise Unsupported(f'semaphore {name}')
        if isinstance(v, Atomic) and self.obj is not None and isinstance(obj, LV) and obj.root == self.obj.root and name in ('load', 'fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-=', 'exchange') or isinstance(v, Atomic) and name.startswith('operator ') and self.obj is not None and isinstance(obj, LV) and obj.root == self.obj.root:
            return self.counter_op(ip, obj, v, name, argnodes)
        return PoolUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt)
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        if name in ('yield', 'sleep_for', 'nanosleep'): return None
        return PoolUnit.lib_function(self, ip, name, decl, argnodes, n, dst)
    def lib_operator(self, ip, name, argnodes, n, dst):
        t = ip.typ(argnodes[0])
        if 'map<' in t and name == 'operator[]':
            d = ip.glv(argnodes[0]); v = ip.c.read(d, True)
            if isinstance(v, TMap): return self.tmap_op(ip, d, v, name, argnodes[1:])
        if 'terator' in t:
            d = ip.glv(argnodes[0]); v = ip.c.read(d, True)
            if isinstance(v, Opaque) and v.fam == 'mapit' and name in ('operator->', 'operator*') and isinstance(ip.c.read(v.kw['map'], True), TMap):
                if v.kw['key'] is None: ip.c.violated('the end of the map is not read'); raise PathEnd()
                ip.c.check('an entry read is there', v.kw['present'], 'safety'); p = Ptr(v.kw['map'].sub(('e', v.kw['key']))); return p if name == 'operator->' else p.t
        return PoolUnit.lib_operator(self, ip, name, argnodes, n, dst)
    def tmap_op(self, ip, obj, v, name, argnodes):
        c = ip.c; a = ip.argv([x for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr']); key = lambda: S(ip.tonum(ip.val(a[0])))
        if name in ('end', 'cend'): return Opaque('mapit', key=None, map=obj)
        if name in ('find', 'count'):
            k = key(); here = S(z3.Select(v.a, k) != -1); return Opaque('mapit', key=k, map=obj, present=here) if name == 'find' else S(z3.If(here, I(1), I(0)))
        if name in ('operator[]', 'at'):
            k = key()
            if not c.choose(z3.Select(v.a, k) != -1):
                if name == 'at': raise CppThrow(Exc('std', rope('out of range')))
                c.write(obj, TMap(z3.Store(v.a, k, I(0))))
            return obj.sub(('m', k))
        if name in ('emplace', 'insert', 'try_emplace'):
            if len(a) == 2: k = key(); h = ip.val(a[1])
            else:
                p = c.read(a[0], True) if isinstance(a[0], LV) else a[0]; k = ip.tonum(ip.val(p.f['first'])); h = p.f['second']
            ht = h.t if isinstance(h, Handle) else I(0) if isinstance(h, Ptr) and h.t is None else None
            if ht is None: raise Unsupported('map entry')
            new = c.choose(z3.Select(v.a, k) == -1)
            if new: c.write(obj, TMap(z3.Store(v.a, k, ht)))
            return Obj('std::pair', {'first': Opaque('mapit', key=k, map=obj, present=TRUE), 'second': z3.BoolVal(new)})
        if name == 'erase' and z3.is_expr(ip.val(a[0])): k = key(); c.write(obj, TMap(z3.Store(v.a, k, I(-1)))); return I(0)
        if name == 'clear': c.write(obj, TMap(z3.K(INT, I(-1)))); return None
        if name in ('reserve',): return None
        raise Unsupported(f'map::{name}')
    def started(self, ip, w):
        c = ip.c
        if not isinstance(w, Closure): raise Unsupported('function of a thread')
        c.trace.append(Ev('start', w, tuple(sorted(k for k, q in c.read(self.obj, True).f.items() if not (isinstance(q, Opaque) and q.fam == 'uninit')) if self.obj else ())))
    def counter_op(self, ip, obj, v, name, argnodes):
        """a counter of the pool: other threads change it at any time"""
        c = ip.c; f = obj.path[0][1]; old = c.fresh_int(f, 0, 2 ** 62); a = [ip.val(x) for x in ip.argv([x for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr'])]
        if name == 'load' or name.startswith('operator ') and name not in ('operator ++', 'operator --'): c.trace.append(Ev('count', f, I(0), old)); self.observed(ip, f, old); return old
        d = {'fetch_add': 1, 'operator++': 1, 'operator+=': 1, 'fetch_sub': -1, 'operator--': -1, 'operator-=': -1}.get(name)
        if d is None: raise Unsupported(f'atomic {name}')
        x = ip.tonum(a[0]) * d if name in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=') else I(d)
        if self.who == 'worker': c.assume(old < z3.Int('workers'))      # each worker takes one number; checked: one read-modify-write per worker, nowhere else
        c.trace.append(Ev('count', f, S(x), old)); return old if name.startswith('fetch') or len(a) == 1 and not name.endswith('=') else S(old + x)
    def observed(self, ip, f, v): pass
    def queue_op(self, ip, obj, v, name, args, nodes):
        c = ip.c; vals = [ip.val(x) for x in args]; tok = None
        if name in ('size_approx', 'size'): return c.fresh_int('size', 0)
        if name in ('empty', 'is_empty'): return c.fresh_bool('empty')
        if v.fam == 'bq' and name in ('get_override_count', 'get_discard_count'): r = c.fresh_int('counted', 0); c.trace.append(Ev('asked', name, r)); return r
        if v.fam == 'bq' and name in ('reset_override_count', 'reset_discard_count'): c.trace.append(Ev('asked', name, I(0))); return None
        if vals and isinstance(vals[0], Handle) and vals[0].kind in ('ptoken', 'ctoken'): tok = vals[0]; args = args[1:]; nodes = nodes[1:]; c.check('a token used is there', tok.t > 0, 'safety')
        m = args[0] if args else None
        if name in ('enqueue', 'try_enqueue') and v.fam in ('bq', 'bcq', 'cq') and not (v.fam == 'bq' and name == 'try_enqueue'):
            if nodes[0].get('valueCategory') == 'lvalue': raise Unsupported('a request is copied')
            if name == 'try_enqueue' and c.choose_nd(2): c.trace.append(Ev('noput')); return FALSE
            x = amsg(ip, m); c.trace.append(Ev('put', x, tok, tuple(c.locks), tuple(sorted(c.ghost.get('held', {}))), m=m.root if isinstance(m, LV) else None)); self.gone(ip, m); return TRUE
        if v.fam == 'bq' and name in ('enqueue_circular', 'enqueue_if_have_room'): c.violated('an accepted request is never dropped', name); raise PathEnd()
        if name in ('dequeue', 'wait_dequeue') or name in ('try_dequeue', 'try_dequeue_from_producer', 'wait_dequeue_timed', 'dequeue_for'):
            if name not in ('dequeue', 'wait_dequeue') and c.choose_nd(2): return FALSE
            self.taken(ip, m); c.trace.append(Ev('take', tok, name)); return TRUE
        raise Unsupported(f'queue operation {name}')
    def gone(self, ip, m):
        """moved from: any valid request"""
        c = ip.c; n = c.fresh_name('gone'); lv, spec = own_msg(ip, AM, n, c03.afields(ip, n)); self.place(ip, lv, m)
    def taken(self, ip, m):
        c = ip.c; n = f'taken{len([e for e in c.trace if e.name == "take"])}'; lv, spec = own_msg(ip, AM, n, c03.afields(ip, n)); c.ghost['taken'] = spec; self.place(ip, lv, m)
    def place(self, ip, lv, d):
        c = ip.c; o = c.store[lv.root]; b = d.sub(('f', 'buf_')); f = dict(o.f); g = f['buf_'].gen
        for k in ('logger_name', 'msg'): v = f[k]; f[k] = View(CharP(b, v.p.off, g), v.n)
        c.write(d, Obj(AM, f), True)
    def on_destroy(self, ip, lv, v):
        if isinstance(v, (Handle, Arr)): return
        PoolUnit.on_destroy(self, ip, lv, v)
    def call_object(self, ip, f, args):
        v = ip.c.read(f, True) if isinstance(f, LV) else f
        if isinstance(v, Opaque) and v.fam == 'callback': ip.c.trace.append(Ev('hook', v.kw['id'])); return None
        return NotImplemented
    def loop_hook(self, ip, node, cond, body, step): return retry(ip, self, cond, body, step)
    # thread-local state
    def tls(self, ip, d):
        c = ip.c; t = norm(strip_cv(qt(d)))
        if 'unordered_map' in t or t.startswith('std::map<'): return TMap(z3.Array('tmap', INT, INT))
        if 'atomic_token' in t: return Handle('atomic_token', I(0))
        if 'ConsumerToken' in t or 'c_token' in t: return Handle('ctoken', I(0))
    def thread_local(self, ip, d):
        key = 'tls:' + d.get('name', '?'); c = ip.c
        if c.store.get(key) is None:
            v = self.tls(ip, d)
            if v is None: return None
            c.store[key] = v
        return LV(key)
    def static_value(self, ip, d):
        if d.get('tls'): raise Unsupported('thread-local variable of a function')
    def global_value(self, ip, r):
        d = ip.ast.by_id.get(r['id'], r)
        if d.get('tls'): return self.thread_local(ip, d)
        return PoolUnit.global_value(self, ip, r)
class TMap(Val):
    """a thread's map from pools to tokens; -1: no entry"""
    fam = 'tmap'
    def __init__(self, a): self.a = a
    def get(self, ctx, e): return Handle('atomic_token', z3.Select(self.a, e[1])) if e[0] == 'm' else Entry(self.a, e[1]) if e[0] == 'e' else Val.get(self, ctx, e)
    def set(self, ctx, e, v):
        if e[0] == 'e': return TMap(v.a)
        return TMap(z3.Store(self.a, e[1], v.t if isinstance(v, Handle) else I(0))) if e[0] == 'm' else Val.set(self, ctx, e, v)
    def __eq__(self, o): return isinstance(o, TMap) and self.a.eq(o.a)
    def __hash__(self): return 3
class Entry(Val):
    def __init__(self, a, k): self.a = a; self.k = k
    def get(self, ctx, e):
        if e == ('f', 'first'): return self.k
        if e == ('f', 'second'): return Handle('atomic_token', z3.Select(self.a, self.k))
        return Val.get(self, ctx, e)
    def set(self, ctx, e, v):
        if e == ('f', 'second'): return Entry(z3.Store(self.a, self.k, v.t if isinstance(v, Handle) else I(0)), self.k)
        return Val.set(self, ctx, e, v)
def c_join(ip, h, args, n, dst):
    c = ip.c; c.trace.append(Ev('join', h.t))
def c_token_lock(ip, h, name):
    c = ip.c; held = dict(c.ghost.get('held', {})); k = str(h.t)
    if name == 'enqueue_lock':
        if k in held: c.violated('a producer token is not locked twice'); raise PathEnd()
        held[k] = 1
    else:
        if k not in held: c.violated('only a locked producer token is released'); raise PathEnd()
        del held[k]
    c.ghost['held'] = held
def retry(ip, u, cond, body, step):
    """a loop whose turns that go on change nothing: only its last turn counts. Other loops: by induction."""
    c = ip.c; pre = dict(c.store); t0 = len(c.trace)
    def once():
        if cond is not None and not c.choose(cond()): raise Break()
        try: body()
        except Continue: pass
        if step: step()
    ip.e.mute += 1
    try: outs = c.nested(once)
    finally: ip.e.mute -= 1
    nexts = [o for o in outs if o['kind'] == 'next']; ends = [o for o in outs if o['kind'] != 'next']
    if not nexts or not ends: return None
    for o in nexts:
        if any(v is not None and q in o['store'] and not loops.same(v, o['store'][q]) for q, v in pre.items()): 
            if any(e.name == 'put' and e.kw.get('m') in pre for e in flat_(o['trace'])) and any(e.name == 'noput' for x in outs for e in flat_(x['trace'])): c.violated('a request is queued exactly once', 'queued, then tried again'); raise PathEnd()
            return None
        if any(e.name in SEEN for e in flat_(o['trace'])): return None
    outs = c.nested(once); ends = [o for o in outs if o['kind'] != 'next']
    o = ends[c.choose_nd(len(ends))] if len(ends) > 1 else ends[0]
    for f in o['pc']: c.assume(f)
    c.store = dict(o['store']); c.locks = list(o['locks']); c.ghost = dict(o.get('ghost', c.ghost)); c.trace += o['trace']
    if o['kind'] == 'break': return True
    raise o['ex']
def flat_(tr):
    out = []
    for e in tr:
        if isinstance(e, FE):
            for _, t in e.alts: out += flat_(t)
        else: out.append(e)
    return out
def ctors(ip, cls):
    fs = [m for m in ip.ast.classes[cls].methods if m.kind == 'CXXConstructorDecl' and not m.node.get('isImplicit') and not m.node.get('explicitlyDeleted')]
    out = {}
    for f in fs: out[len(f.params)] = f
    return out
def build(ip, u, cls, n=4, limit=True, sfx=''):
    """the pool as its constructor leaves it"""
    c = ip.c; q, t = z3.Int('queue_size' + sfx), z3.Int('workers' + sfx); c.assume(z3.And(q >= 1, q < 2 ** 40, t >= 0, t < 2 ** 64))
    if limit: c.assume(z3.And(t >= 1, t <= 1024))
    o = root(ip, Obj(cls, {}), 'pool'); u.obj = o; f = [root(ip, Opaque('callback', id=x), x) for x in ('on_start', 'on_stop')]
    ctor(ip, cls, o, [q, t] + f[:n - 2], nparams=n); return o
