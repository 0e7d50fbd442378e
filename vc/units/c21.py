"""C21: a pool runs exactly the requested workers, each with its hooks, and its destructor stops and joins each of them."""
from units.pools import *
from units import flags
def fields(ip, cls): return [f['name'] for f in ip.fields_of(ip.ast.classes[cls])]
def threads_field(ip, cls):
    r = [f['name'] for f in ip.fields_of(ip.ast.classes[cls]) if is_threads(norm(strip_cv(qt(f))))]
    if len(r) != 1: raise Unsupported(f'threads of {cls}')
    return r[0]
def listed(ip, tr, what, hi):
    """one 'start' per worker"""
    names = set(fields(ip, ip.e.unit.cls)); th = threads_field(ip, ip.e.unit.cls)
    def started(e):
        miss = names - set(e.args[1]) - {th}; ip.c.check('a worker starts only when the pool is built', z3.BoolVal(not miss), 'post')
    check_each(ip, tr, what, I(0), hi, lambda k: [(TRUE, [('start', started)])])
def closures(ip, tr):
    out = []
    for e in flat_(tr):
        if e.name == 'start' and not any(e.args[0] is f or (e.args[0].node is f.node and e.args[0].this == f.this) for f in out): out.append(e.args[0])
    return out
def getter(ip, cls, o, nm): return ip.val(call(ip, TP, nm, o))
def u_ctor(cls, n):
    def run(ip, u):
        c = ip.c; t, q = z3.Int('workers'), z3.Int('queue_size'); u.cls = cls; lo, ex = attempt(lambda: build(ip, u, cls, n, limit=False)); st = only(c.trace, ('start', 'detach')); o = u.obj; ok = z3.And(t >= 1, t <= 1024)
        if ex is not None:
            c.check('a worker count between 1 and 1024 is accepted', z3.Not(ok)); c.check('the failure is an exception of the standard kind', z3.BoolVal(ex.kind == 'std'))
            c.check('a refused pool starts no thread', z3.BoolVal(not st)); return
        c.check('a worker count outside 1..1024 is refused', ok)
        if not c.choose(ok): return
        listed(ip, st, 'exactly the requested workers are started', t)
        v = c.read(o, True); th = v.f[threads_field(ip, cls)]; c.check('every worker is kept to be joined', th.n == t); i = c.fresh_int('i', 0); j = c.fresh_int('j', 0)
        c.check('and is another thread', Implies(z3.And(i < j, j < t), z3.Select(th.a, i) != z3.Select(th.a, j)))
        c.check('the reported worker count is the requested one', getter(ip, cls, o, 'threads_size') == t); c.check('the reported queue size is the requested one', getter(ip, cls, o, 'message_queue_size') == q)
        c.check('the reported queue kind is that of the pool', getter(ip, cls, o, 'message_queue_type') == flags.enum_value(ip, KINDS[cls], 'msg_queue_type'))
        mk = [e for e in flat_(c.trace) if e.name == 'queue']; c.check('the queue has the requested size', z3.BoolVal(False) if len(mk) != 1 or mk[0].args[1] is None else mk[0].args[1] == q)
    return run
def u_worker(cls, n):
    """what a worker does, from its start to its end"""
    def run(ip, u):
        c = ip.c; u.cls = cls; o = build(ip, u, cls, n); fs = closures(ip, c.trace)
        if not fs: raise Unsupported('no worker')
        f = fs[c.choose_nd(len(fs))] if len(fs) > 1 else fs[0]; c.trace.clear(); u.who = 'worker'; c.kstack.append(c.fresh_int('me', 0))
        r, ex = attempt(lambda: ip.invoke(f, [])); c.kstack.pop(); u.who = None; tr = flat_(c.trace)
        c.check('a worker ends normally', z3.BoolVal(ex is None)); ns = [e.args[0] if e.name == 'hook' else e.name for e in tr if e.name in ('hook', 'loop')]
        want = (['on_start'] if n > 2 else []) + ['loop'] + (['on_stop'] if n > 3 else [])
        c.check('a worker calls the start hook, serves requests, then calls the stop hook', z3.BoolVal(ns == want)); c.check('a worker processes nothing outside its loop', z3.BoolVal(not [e for e in tr if e.name in ('take', 'put', 'process')]))
        c.check('a worker ends without holding a lock', z3.BoolVal(not c.locks))
    return run
def pool_at_end(ip, u, cls):
    """the pool as its constructor left it, then used"""
    c = ip.c; u.cls = cls; o = build(ip, u, cls, 4); c.trace.clear(); c.ghost.pop('held', None); return o
def dtor_of(ip, cls):
    fs = [f for f in ip.ast.methods(f'{cls}::~{cls}') if f.body is not None]
    if len(fs) != 1: raise Unsupported(f'destructor of {cls}')
    return fs[0]
def stops(ip, tr):
    """puts of the destructor with their requests"""
    return only(tr, ('put',))
def u_dtor(cls):
    def run(ip, u):
        c = ip.c; t = z3.Int('workers'); o = pool_at_end(ip, u, cls); th = c.read(o, True).f[threads_field(ip, cls)]; r, ex = attempt(lambda: ip.run_func(dtor_of(ip, cls), o, []))
        c.check('destroying a pool throws nothing', z3.BoolVal(ex is None))
        if ex is not None: return
        term = kind_of(ip, 'terminate')
        check_each(ip, stops(ip, c.trace), 'every worker is asked to stop exactly once', I(0), t, lambda k: [(TRUE, [('put', lambda e: c.check('what is queued at the end is a termination request', e.args[0].f['msg_type'] == term))])])
        seen = []
        def joined(k):
            def f(e): c.check('each worker is joined', e.args[0] == z3.Select(th.a, k))
            return f
        check_each(ip, only(c.trace, ('join', 'detach')), 'every worker is joined', I(0), t, lambda k: [(TRUE, [('join', joined(k))])])
        order = [e for e in only(c.trace, ('put', 'join'))]; has = [{x.name for x in flat_([e])} for e in order]; i = max([i for i, h in enumerate(has) if 'put' in h], default=-1); j = min([j for j, h in enumerate(has) if 'join' in h], default=99)
        c.check('all of them are asked before the first is waited for', z3.BoolVal(i < j))
    return run
def u_counters(ip, u):
    """the counters a pool reports and resets are those of its queue"""
    c = ip.c; cls = 'lock_thread_pool'; o = pool_at_end(ip, u, cls)
    for fn, want in (('override_count', 'get_override_count'), ('discard_count', 'get_discard_count'), ('reset_override_count', 'reset_override_count'), ('reset_discard_count', 'reset_discard_count')):
        c.trace.clear(); r = ip.val(call(ip, cls, fn, o)); t = only(c.trace, ('asked',)); c.check(f'{fn} is that of the queue', z3.BoolVal([e.args[0] for e in t] == [want]))
        if len(t) == 1 and not fn.startswith('reset'): c.check(f'{fn} is the number the queue reports', r == t[0].args[1])
def kind_of(ip, nm): return flags.enum_value(ip, nm, 'async_msg_type')
class CtorUnit(KindUnit): stub = ('worker_loop_',)
def units():
    out = []
    for cls in KINDS:
        for n in (4, 3, 2): out += [U(f'{cls}: construct with {n - 2} hooks', [f'{cls}::{cls}', 'thread_pool::thread_pool', 'thread_pool::threads_size', 'thread_pool::message_queue_size', 'thread_pool::message_queue_type'], u_ctor(cls, n), base=CtorUnit, kind=cls), U(f'{cls}: worker with {n - 2} hooks', [f'{cls}::{cls}'], u_worker(cls, n), base=CtorUnit, kind=cls)]
        out.append(U(f'{cls}: destroy', [f'{cls}::~{cls}', f'{cls}::enqueue_async_msg_'], u_dtor(cls), base=CtorUnit, kind=cls))
    out.append(U('lock_thread_pool: counters', ['lock_thread_pool::override_count', 'lock_thread_pool::discard_count', 'lock_thread_pool::reset_override_count', 'lock_thread_pool::reset_discard_count'], u_counters, base=CtorUnit, kind='lock_thread_pool'))
    return out
