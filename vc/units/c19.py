"""C19: every accepted request is processed exactly once, by its logger, with its message; pools drain before they end."""
from units.pools import *
from units.c20 import c17_flat as flat
from units import flags
from interp import symrem
def u_enqueue_log(ip, u):
    c = ip.c; tp = the_base(ip); m, spec, hold = fresh_msg(ip, 'm'); lg = root(ip, Handle(AL, z3.Int('lg')), 'lg'); c.assume(z3.Int('lg') > 0); call(ip, TP, 'enqueue_log', tp, [lg, m]); q = queued(ip, 1)
    if q: check_snap(ip, q[0], spec, 'the request holds the message'); c.check('the request is to log', q[0].f['msg_type'] == kind(ip, 'log')); c.check('the request names its logger', hid(q[0].f['logger']) == z3.Int('lg'))
def queued(ip, n):
    c = ip.c; q = [e.args[0] for e in flat(c.trace) if e.name == 'queued']; c.check('exactly one request is queued', z3.BoolVal(len(q) == n and not any(isinstance(e, FE) for e in only(c.trace, ('queued',))))); return q if len(q) == n else None
def u_enqueue_flush(ip, u):
    c = ip.c; tp = the_base(ip); lg = root(ip, Handle(AL, z3.Int('lg')), 'lg'); c.assume(z3.Int('lg') > 0); r = ip.val(call(ip, TP, 'enqueue_flush', tp, [lg])); q = queued(ip, 1)
    if not q: return
    c.check('the request is to flush', q[0].f['msg_type'] == kind(ip, 'flush')); c.check('the request names its logger', hid(q[0].f['logger']) == z3.Int('lg'))
    p = q[0].f['flush_promise']; c.check('the future returned is that of the promise in the request', z3.BoolVal(isinstance(r, Handle) and r.kind == 'future') if not (isinstance(r, Handle) and isinstance(p, Handle)) else z3.And(r.t == p.t, p.t != 0))
def u_full(name):
    """a request that could not be queued is not passed over in silence"""
    def run(ip, u):
        c = ip.c; tp = the_base(ip); lg = root(ip, Handle(AL, z3.Int('lg')), 'lg'); c.assume(z3.Int('lg') > 0); a = [lg] + ([fresh_msg(ip, 'm')[0]] if name == 'enqueue_log' else [])
        _, exc = attempt(lambda: call(ip, TP, name, tp, a)); bad = only(c.trace, ('thrown', 'thrown_other')); q = only(c.trace, ('queued',))
        c.check('a request is queued or its submitter learns that it was not', z3.BoolVal((exc is None) == (not bad) and bool(q) == (not bad)))
    return run
def kind(ip, nm): return flags.enum_value(ip, nm, 'async_msg_type')
def u_process(ip, u):
    c = ip.c; tp = the_base(ip); c.assume(z3.Int('popped_lg') > 0); c.assume(z3.Int('popped_pr') > 0); r = call(ip, TP, 'process_async_msg_', tp); tr = [e for e in flat(c.trace) if e.name in ('do_sink_log_', 'do_flush_sink_', 'set_value', 'dequeued')]
    c.check('one request is taken', z3.BoolVal([e.name for e in tr][:1] == ['dequeued'] and len([e for e in tr if e.name == 'dequeued']) == 1)); w = tr[1:]; ns = [e.name for e in w]; t = z3.Int('popped_type'); spec = c.ghost.get('popped'); b = ip.tobool(r)
    if spec is None: return
    for e in w:
        if e.name != 'set_value': c.check('the request is processed by the logger that submitted it', e.args[0].t == z3.Int('popped_lg'))
    if c.choose(t == kind(ip, 'log')):
        c.check('a log request is processed exactly once', z3.BoolVal(ns == ['do_sink_log_'])); c.check('the worker goes on', b)
        if ns == ['do_sink_log_']: check_snap(ip, w[0].args[1], spec, 'with the message it was submitted with')
    elif c.choose(t == kind(ip, 'flush')):
        c.check('a flush request flushes once and completes only after that', z3.BoolVal(ns == ['do_flush_sink_', 'set_value'])); c.check('the worker goes on', b)
        if ns[-1:] == ['set_value']: c.check('its own promise is completed', w[-1].args[0] == z3.Int('popped_pr'))
    else: c.check('a control request logs and flushes nothing', z3.BoolVal(not ns)); c.check('a worker stops on its termination request', z3.Not(b))
class LoopUnit(PoolUnit):
    """the worker's loop: every turn from every reachable state of its locals, with the result of the last request"""
    turns = 0; after = 0
    def loop_hook(self, ip, node, cond, body, step):
        c = ip.c; self.turns += 1; pre = dict(c.store); seen = [(pre, c.ghost.get('last'))]; ends = []; i = 0
        def once():
            if cond is not None and not c.choose(cond()): raise Break()
            try: body()
            except Continue: pass
            if step: step()
        while i < len(seen):
            st, last = seen[i]; i += 1
            def turn(): c.store = dict(st); once()
            for o in c.nested(turn):
                if o['kind'] == 'throw': raise Unsupported('a turn throws')
                bs = [z3.is_true(e.args[0]) for e in o['trace'] if e.name == 'process']; seq = ([] if last is None else [last]) + bs
                for b in seq[:-1]: c.check('no request is taken after the termination request', z3.BoolVal(b))
                now = seq[-1] if seq else None; more = o['kind'] == 'next'
                if not more: c.check('the worker ends only on its termination request', z3.BoolVal(now is False)); ends.append(o); continue
                n = {k: o['store'].get(k) for k in pre}
                for k, v in n.items():
                    if not loops.same(v, pre[k]) and not (z3.is_expr(v) and (z3.is_true(S(v)) or z3.is_false(S(v)))): raise Unsupported('state of the loop')
                if not any(all(loops.same(n[k], s[k]) for k in n) and l == now for s, l in seen): seen.append((n, now))
                if len(seen) > 12: raise Unsupported('states of the loop')
        if not ends: c.violated('the worker ends on its termination request', '', 'post'); raise PathEnd()
        c.check('a turn of the worker processes one request', z3.BoolVal(any(l is not None for _, l in seen) or any(e.name == 'process' for o in ends for e in o['trace'])))
        o = ends[c.choose_nd(len(ends))] if len(ends) > 1 else ends[0]
        for f in o['pc']: c.assume(f)
        c.store = dict(o['store']); c.trace += o['trace']; c.ghost = dict(o['ghost'], last=False); self.after = len(c.trace)
        if o['kind'] in ('return',): raise o['ex']
        return True
def u_loop(ip, u):
    c = ip.c; tp = the_base(ip); u.turns = 0; call(ip, TP, 'worker_loop_', tp); c.check('the worker works in a loop', z3.BoolVal(u.turns == 1)); c.check('no request is taken after the termination request', z3.BoolVal(not [e for e in c.trace[u.after:] if e.name == 'process']))
def base_units():
    K = lambda n, f, r, **k: U(n, [TP + '::' + f], r, base=k.pop('base', PoolUnit), **k)
    return [K('pool: submit a message', 'enqueue_log', u_enqueue_log, stub=('enqueue_async_msg_',)), K('pool: submit a flush', 'enqueue_flush', u_enqueue_flush, stub=('enqueue_async_msg_',)), K('pool: submit a message in vain', 'enqueue_log', u_full('enqueue_log'), stub=('enqueue_async_msg_',), full=True), K('pool: submit a flush in vain', 'enqueue_flush', u_full('enqueue_flush'), stub=('enqueue_async_msg_',), full=True), K('pool: process', 'process_async_msg_', u_process, stub=('dequeue_async_msg_',)), K('pool: worker loop', 'worker_loop_', u_loop, base=LoopUnit, stub=('process_async_msg_',))]
# ---------------------------------------------------------------- the three kinds of queue
def counts(tr): return [e for e in flat_(tr) if e.name == 'count' and not is0(e.args[1])]
def is0(t): t = S(t); return is_const(t) and cval(t) == 0
def request(ip, nm='req'):
    lv, spec = own_msg(ip, AM, nm, c03.afields(ip, nm)); return lv, spec
def enq(ip, o, lv): return virt(ip, o, 'enqueue_async_msg_', [lv])
def deq(ip, o, lv): return virt(ip, o, 'dequeue_async_msg_', [lv])
def virt(ip, o, name, args): return call(ip, ip.c.read(o, True).cls, name, o, args)
def same_request(ip, x, spec, nm, what):
    c = ip.c; check_snap(ip, x, spec, what)
    for k, v in c03.afields(ip, nm).items(): c.check(f'{what}: {k}', same_field(x.f[k], v))
def same_field(a, b): return a.t == b.t if isinstance(a, Handle) and isinstance(b, Handle) else a == b if z3.is_expr(a) and z3.is_expr(b) else z3.BoolVal(loops.same(a, b))
def u_enq(cls):
    def run(ip, u):
        c = ip.c; o = build(ip, u, cls); c.trace.clear(); st = state_of(c, o); r = ready(ip, u, o); lv, spec = request(ip); enq(ip, o, lv); puts = [e for e in c.trace if not isinstance(e, FE) and e.name == 'put']
        c.check('an accepted request is queued exactly once', z3.BoolVal(len(puts) == 1 and not [e for e in c.trace if isinstance(e, FE) and only([e], ('put',))]))
        c.check('submitting takes no request out', z3.BoolVal(not [e for e in flat_(c.trace) if e.name == 'take'])); c.check('submitting leaves no lock behind', z3.BoolVal(not c.locks and not c.ghost.get('held')))
        if len(puts) != 1: return
        same_request(ip, puts[0].args[0], spec, 'req', 'the request queued is the one submitted'); c.check('the pool is as before', z3.BoolVal(unchanged_pool(c, o, st))); r(puts[0])
    return run
def state_of(c, o): return dict(c.read(o, True).f)
def unchanged_pool(c, o, st): now = c.read(o, True).f; return all(k in now and loops.same(v, now[k]) for k, v in st.items())
def ready(ip, u, o):
    """what must hold for the token a request is queued with"""
    c = ip.c; cls = c.read(o, True).cls; kind = KINDS[cls]
    if kind != 'lockfree_concurrent': return lambda e: None
    t = z3.Int('workers')
    def chk(e):
        tok = e.args[1]
        if tok is None: c.violated('a request is queued where a worker looks for it', 'no producer token', 'post'); return
        c.check('a request is queued where a worker of this pool looks for it', z3.And(tok.t >= 1 + u.base, tok.t <= t + u.base)); c.check('threads sharing a token queue one at a time', z3.BoolVal(str(tok.t) in e.args[3] or any(h for h in e.args[3] if h)))
    return chk
def u_deq(cls):
    """a worker, up to the point where it has taken one request"""
    def run(ip, u):
        c = ip.c; o = build(ip, u, cls); fs = c21.closures(ip, c.trace)
        if not fs: raise Unsupported('no worker')
        c.trace.clear(); u.who = 'worker'; me = c.fresh_int('me', 0); c.kstack.append(me)
        def loop(ip2, this, args, n, dst):
            lv, spec = request(ip2, 'into'); st = state_of(c, o); u.who = 'taking'; t0 = len(c.trace); deq(ip2, o, lv); tr = c.trace[t0:]; u.who = 'worker'; tk = [e for e in tr if not isinstance(e, FE) and e.name == 'take']
            c.check('a worker takes exactly one request', z3.BoolVal(len(tk) == 1 and not [e for e in tr if isinstance(e, FE) and only([e], ('take',))])); c.check('a worker leaves no lock behind', z3.BoolVal(not c.locks)); c.check('a worker queues nothing', z3.BoolVal(not [e for e in flat_(tr) if e.name == 'put']))
            if len(tk) != 1: return
            same_request(ip2, amsg(ip2, lv), c.ghost['taken'], 'taken0', 'the request handed out is the one taken'); c.check('the pool is as before', z3.BoolVal(unchanged_pool(c, o, st))); c.trace.append(Ev('served', tk[0].args[0]))
        u.c_worker_loop_ = loop; fs and ip.invoke(fs[0], []); c.kstack.pop(); u.who = None; sv = [e for e in c.trace if not isinstance(e, FE) and e.name == 'served']
        c.check('a worker serves requests', z3.BoolVal(len(sv) == 1))
        if len(sv) != 1: return
        tok = sv[0].args[0]; kind = KINDS[cls]; cn = counts(c.trace)
        if kind == 'lockfree' and tok is not None:
            mine = [e for e in flat_(c.trace) if e.name == 'token' and e.args[0] == 'consumer']; c.check('a worker uses its own consumer token', z3.BoolVal(False) if not mine else tok.t == mine[-1].args[1]); c.check('made for the queue of this pool', z3.BoolVal(bool(mine) and isinstance(mine[-1].args[2], LV) and mine[-1].args[2].root == o.root))
        if kind == 'lockfree_concurrent':
            c.check('a worker serves a fixed producer token', z3.BoolVal(tok is not None))
            if tok is None: return
            c.check('the token it serves is that of its own number', z3.BoolVal(False) if len(cn) != 1 else z3.And(cn[0].args[1] == 1, tok.t == 1 + u.base + cn[0].args[2]))
    return run
def sema_needs(ip, u, cls):
    """how many signals a worker waits for before it serves"""
    c = ip.c; n = []
    def one():
        s = c.save(); o = build(ip, u, cls); fs = c21.closures(ip, c.trace); c.trace.clear(); u.who = 'worker'; c.kstack.append(c.fresh_int('me', 0)); u.c_worker_loop_ = lambda *a: None; ip.invoke(fs[0], []); c.kstack.pop(); u.who = None; n.append((len([e for e in flat_(c.trace) if e.name == 'semwait']), [e.args[0] for e in counts(c.trace)]))
    ip.e.mute += 1
    try: c.nested(one)
    finally: ip.e.mute -= 1
    u.obj = None
    if len({x[0] for x in n}) != 1: raise Unsupported('a worker waits now and then')
    return n[0]
def signals(tr): return z3.Sum([I(0)] + [e.args[0] for e in tr if not isinstance(e, FE) and e.name == 'signal'])
def u_producer(ip, u):
    """one thread, two pools: the token kept for one is not used for the other, and the same one is used again"""
    cls = 'lockfree_concurrent_thread_pool'; c = ip.c; w, cf = sema_needs(ip, u, cls); c.trace.clear(); t1, t2 = z3.Int('workers'), z3.Int('workers2'); m0 = z3.Array('tmap', INT, INT)
    u.base = 0; p1 = build(ip, u, cls); u.base = 4096; p2 = build(ip, u, cls, sfx='2'); q = z3.Int('qk'); ids = [v for v in [z3.Int('id1')]]
    def first(o, base, t, what):
        u.obj = o; u.base = base; c.trace.clear(); lv, spec = request(ip, 'r' + c.fresh_name('q').replace('!', '_')); enq(ip, o, lv); puts = [e for e in c.trace if not isinstance(e, FE) and e.name == 'put']
        if len(puts) != 1 or puts[0].args[1] is None: c.violated(f'{what}: the request is queued once, with a token', '', 'post'); raise PathEnd()
        e = puts[0]; tok = e.args[1].t; c.check(f'{what}: the token is one of this pool', z3.And(tok >= 1 + base, tok <= base + t)); c.check(f'{what}: the token is locked meanwhile', z3.BoolVal(len(e.args[3]) == 1)); c.check(f'{what}: the token is released', z3.BoolVal(not c.ghost.get('held') and not c.locks)); return tok, counts(c.trace), signals(c.trace)
    def fresh_use(o, base, t, what):
        tok, cn, sg = first(o, base, t, what); c.check(f'{what}: a new producer takes the next number', z3.BoolVal(False) if len(cn) != 1 else z3.And(cn[0].args[1] == 1, tok == 1 + base + symrem(cn[0].args[2], t))); c.check(f'{what}: producers and workers are numbered apart', z3.BoolVal(not cn or cn[0].args[0] not in cf)); c.check(f'{what}: a new producer lets a waiting worker start', sg >= w); return tok
    a = fresh_use(p1, 0, t1, 'first pool'); b = fresh_use(p2, 4096, t2, 'second pool')
    for o, base, t, tok, what in ((p1, 0, t1, a, 'first pool again'), (p2, 4096, t2, b, 'second pool again')):
        x, cn, sg = first(o, base, t, what); c.check(f'{what}: a thread keeps its token', x == tok); c.check(f'{what}: a known producer is not counted again', z3.BoolVal(not cn))
class TwoPools(KindUnit):
    """ids of pools not yet given out have no entry in any thread's map"""
    def tls(self, ip, d):
        v = KindUnit.tls(self, ip, d)
        if isinstance(v, TMap):
            c = ip.c; n0 = c.ghost.get('ids0')
            if n0 is None: raise Unsupported('pools are not numbered')
            q = z3.Int('qid'); c.assume(z3.ForAll([q], Implies(q >= n0, z3.Select(v.a, q) == -1)))
        return v
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        c = ip.c
        if isinstance(v, Atomic) and isinstance(obj, LV) and obj.root.startswith('static:') and 'ids0' not in c.ghost: c.ghost['ids0'] = v.v; c.assume(z3.And(v.v >= 0, v.v < 2 ** 62))
        return KindUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt)
def u_drain(cls):
    """before the first termination request is queued, everything accepted has been taken; or the queue keeps it ahead"""
    def run(ip, u):
        c = ip.c; kind = KINDS[cls]; t = z3.Int('workers'); w, cf = sema_needs(ip, u, cls); o = c21.pool_at_end(ip, u, cls); zero = {k: v for k, v in c.read(o, True).f.items() if isinstance(v, Atomic) and is0(v.v)}; ok = []
        if kind == 'lockfree':
            for f in zero:
                if balanced(ip, u, cls, f): ok.append(f)
            c.check('requests accepted but not yet taken are counted exactly', z3.BoolVal(bool(ok)))
            if not ok: return
        o = c21.pool_at_end(ip, u, cls); r, ex = attempt(lambda: ip.run_func(c21.dtor_of(ip, cls), o, [])); tr = c.trace; th = c.read(o, True).f[c21.threads_field(ip, cls)]
        if kind == 'lockfree':
            i = min([i for i, e in enumerate(tr) if only([e], ('put',))], default=None)
            if i is None: return
            seen = [e for e in flat_(tr[:i]) if e.name == 'count' and e.args[0] in ok and is0(e.args[1])]
            c.check('termination is requested only after everything accepted was taken', z3.BoolVal(any(c.prove(e.args[2] == 0) for e in seen)))
        if kind == 'lockfree_concurrent':
            check_each(ip, only(tr, ('put',)), 'each worker finds a termination request behind everything queued for it', I(0), t, lambda k: [(TRUE, [('put', lambda e: c.check('it is queued with the token of that worker', z3.BoolVal(False) if e.args[1] is None else e.args[1].t == 1 + u.base + k))])])
            if w: check_each(ip, merged(only(tr, ('signal',))), 'each worker still waiting to start is let start', I(0), t, lambda k: [(TRUE, [('signal', lambda e: c.check('often enough', e.args[0] >= w))])]) if any(isinstance(e, FE) for e in only(tr, ('signal',))) else c.check('each worker still waiting to start is let start', signals(tr) >= w * t)
    return run
def merged(tr): return tr
def balanced(ip, u, cls, f):
    """counter f: one more before a request is queued, one less after one is taken, nothing else"""
    c = ip.c; res = []
    def e1():
        o = build(ip, u, cls); c.trace.clear(); lv, s = request(ip); enq(ip, o, lv); tr = flat_(c.trace); i = [i for i, e in enumerate(tr) if e.name == 'count' and e.args[0] == f and not is0(e.args[1])]; p = [i for i, e in enumerate(tr) if e.name == 'put']; res.append(len(i) == 1 and len(p) == 1 and i[0] < p[0] and c.prove(tr[i[0]].args[1] == 1))
    def e2():
        o = build(ip, u, cls); fs = c21.closures(ip, c.trace); c.trace.clear(); u.who = 'worker'; c.kstack.append(c.fresh_int('me', 0))
        def loop(ip2, this, args, n, dst): lv, s = request(ip2, 'into'); u.who = 'taking'; deq(ip2, o, lv); u.who = 'worker'
        u.c_worker_loop_ = loop; ip.invoke(fs[0], []); c.kstack.pop(); u.who = None; tr = flat_(c.trace); i = [i for i, e in enumerate(tr) if e.name == 'count' and e.args[0] == f and not is0(e.args[1])]; p = [i for i, e in enumerate(tr) if e.name == 'take']; res.append(len(i) == 1 and len(p) == 1 and i[0] > p[0] and c.prove(tr[i[0]].args[1] == -1))
    ip.e.mute += 1
    try: c.nested(e1); c.nested(e2)
    finally: ip.e.mute -= 1
    u.obj = None; return bool(res) and all(res)
class LoopedUnit(KindUnit): stub = ('worker_loop_',)
# ---------------------------------------------------------------- the lock of a producer token
class TokenUnit(KindUnit):
    """the flag of a token: every other thread changes it at any time"""
    loop_limit = 12
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        c = ip.c
        if isinstance(v, Atomic) and self.obj is not None and isinstance(obj, LV) and obj.root == self.obj.root:
            if v.ty != 'bool': raise Unsupported('lock of a token')
            a = ip.argv([x for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr']); val = lambda i: ip.tobool(ip.val(a[i])); order = [int(str(ip.val(x))) for x in a if z3.is_expr(ip.val(x)) and z3.is_int(ip.val(x)) and is_const(S(ip.val(x)))]
            old = z3.BoolVal(c.choose_nd(2) == 0)
            if name == 'load' or name.startswith('operator ') or name == 'operator bool': return old
            if name in ('store', 'operator='): c.trace.append(Ev('flag', None, val(0), order[-1] if order else 5)); return None
            if name == 'exchange': c.trace.append(Ev('flag', old, val(0), order[-1] if order else 5)); return old
            if name.startswith('compare_exchange'):
                e = ip.tobool(ip.val(a[0])); new = val(1); o = order[0] if order else 5
                if c.prove(old == e) and not (name.endswith('weak') and c.choose_nd(2)): c.trace.append(Ev('flag', old, new, o)); return TRUE
                c.write(a[0], old); return FALSE
            raise Unsupported(f'atomic {name}')
        return KindUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt)
    def loop_hook(self, ip, node, cond, body, step):
        """locals of a spin loop take finitely many values: every turn from every reachable state"""
        c = ip.c; seen = [dict(c.store)]; ends = []; i = 0; pre = dict(c.store)
        def once():
            if cond is not None and not c.choose(cond()): raise Break()
            try: body()
            except Continue: pass
            if step: step()
        while i < len(seen):
            st = seen[i]; i += 1
            def turn(): c.store = dict(st); once()
            for o in c.nested(turn):
                if o['kind'] != 'next': ends.append(o); continue
                if [e for e in o['trace'] if e.name == 'flag' and changes(c, e)]: c.violated('a token once locked is not tried again', '', 'post')
                n = {k: o['store'].get(k) for k in pre}
                for k, v in n.items():
                    if not loops.same(v, pre[k]) and not (z3.is_expr(v) and (z3.is_true(S(v)) or z3.is_false(S(v)))): raise Unsupported('state of a spin loop')
                if not any(all(loops.same(n[k], s[k]) for k in n) for s in seen): seen.append(n)
                if len(seen) > self.loop_limit: raise Unsupported('states of a spin loop')
        if not ends: c.violated('locking a token ends'); raise PathEnd()
        o = ends[c.choose_nd(len(ends))] if len(ends) > 1 else ends[0]
        for f in o['pc']: c.assume(f)
        c.store = dict(o['store']); c.ghost = dict(o['ghost']); c.trace += o['trace']
        if o['kind'] == 'break': return True
        raise o['ex']
def changes(c, e): return e.args[0] is None or not c.prove(e.args[0] == e.args[1])
def the_token(ip, u):
    c = ip.c; cl = ip.ast.classes['atomic_token']; f = {}; fl = []
    for fd in ip.fields_of(cl):
        t = norm(strip_cv(qt(fd)))
        if 'atomic<bool>' in t: f[fd['name']] = Atomic(FALSE, 'bool'); fl.append(fd['name'])
        elif 'Token' in t: f[fd['name']] = Handle('ptoken', c.fresh_int('pt', 1))
        else: raise Unsupported('representation of atomic_token')
    if len(fl) != 1: raise Unsupported('representation of atomic_token')
    u.obj = root(ip, Obj('atomic_token', f), 'token'); return u.obj
def u_lock(ip, u):
    c = ip.c; t = the_token(ip, u); call(ip, 'atomic_token', 'enqueue_lock', t); ev = [e for e in flat_(c.trace) if e.name == 'flag' and changes(c, e)]
    c.check('the lock is taken by changing it from free to held, once', z3.BoolVal(False) if len(ev) != 1 or ev[0].args[0] is None else z3.And(z3.Not(ev[0].args[0]), ev[0].args[1]))
    if len(ev) == 1: c.check('what the last owner wrote is visible', z3.BoolVal(ev[0].args[2] in (2, 4, 5)))
def u_release(ip, u):
    c = ip.c; t = the_token(ip, u); call(ip, 'atomic_token', 'release', t); ev = [e for e in flat_(c.trace) if e.name == 'flag']; c.check('the lock is freed, once', z3.BoolVal(False) if len(ev) != 1 else z3.Not(ev[0].args[1])); 
    if len(ev) == 1: c.check('what this owner wrote becomes visible', z3.BoolVal(ev[0].args[2] in (3, 4, 5)))
def u_newtoken(ip, u):
    c = ip.c; o = root(ip, Obj('atomic_token', {}), 'token'); q = root(ip, Opaque('cq'), 'queue'); u.obj = None; ctor(ip, 'atomic_token', o, [q], nparams=1); f = [v for v in c.read(o, True).f.values() if isinstance(v, Atomic)]
    c.check('a new token is free', z3.BoolVal(False) if len(f) != 1 else z3.Not(ip.tobool(f[0].v)))
import units.c21 as c21
def units():
    out = base_units()
    for cls in KINDS:
        q = cls + '::'
        out += [U(f'{cls}: queue a request', [q + 'enqueue_async_msg_'], u_enq(cls), base=EntryUnit, kind=cls), U(f'{cls}: take a request', [q + 'dequeue_async_msg_', q + cls], u_deq(cls), base=LoopedUnit, kind=cls), U(f'{cls}: drain', [q + '~' + cls, q + 'enqueue_async_msg_', q + 'dequeue_async_msg_'], u_drain(cls), base=LoopedUnit, kind=cls)]
    q = 'lockfree_concurrent_thread_pool::'
    return out + [U('concurrent pool: producers', [q + 'enqueue_async_msg_', q + 'next_pool_id_'], u_producer, base=type('TP2', (TwoPools,), {'stub': ('worker_loop_',)})), U('token: lock', ['atomic_token::enqueue_lock'], u_lock, base=TokenUnit), U('token: release', ['atomic_token::release'], u_release, base=TokenUnit), U('token: new', ['atomic_token::atomic_token'], u_newtoken, base=NewToken)]
class NewToken(KindUnit):
    def handle_contract(self, kind, name): return None

class EntryUnit(TwoPools):
    """the map holds nothing, or a token of this pool, for this pool"""
    def tls(self, ip, d):
        v = KindUnit.tls(self, ip, d)
        if isinstance(v, TMap):
            c = ip.c; n0 = c.ghost.get('ids0')
            if n0 is None: raise Unsupported('pools are not numbered')
            e = z3.Select(v.a, n0); c.assume(z3.Or(e == -1, z3.And(e >= 1, e <= z3.Int('workers'))))
        return v
