"""C02: block_queue<T> as a monitor around the bounded FIFO contract of circular_queue."""
from units.common import *
BQ = 'block_queue<Elem>'
ROLES = {}

class BQUnit(Unit):
    handle_kinds = frozenset(['Elem']); value_kinds = frozenset(['Elem']); atomic_events = True
    def abstract_ctor(self, ip, t):
        if t == 'Elem':
            def mk(ip, args, ctype):
                if not args: return Handle('Elem', ip.c.fresh_int('elem'))
                v = ip.c.read(args[0])
                if '&&' in (ctype or ''): ip.c.write(args[0], Handle('Elem', ip.c.fresh_int('movedfrom')))
                return v
            return mk
        if t == 'circular_queue<Elem>':
            def mk(ip, args, ctype):
                if len(args) == 1 and z3.is_expr(args[0]):
                    ip.c.check('ring capacity is positive', args[0] >= 1, 'pre')
                    return Ring(z3.K(z3.IntSort(), I(0)), I(0), I(0), args[0], I(0), 'Elem')
                raise Unsupported('ring construction')
            return mk
    def on_lock(self, ip, key):
        c = ip.c
        if key != self.mutex: return
        r = c.store[self.q.root].f[self.rf]; n = fresh_ring(c, 'Elem')
        c.assume(n.cap == r.cap)
        c.write(self.q.sub(('f', self.rf)), n, True)
        c.ghost['sections'] = c.ghost.get('sections', []) + [[n, None, len(c.trace)]]
    def on_unlock(self, ip, key):
        c = ip.c
        if key != self.mutex: return
        s = c.ghost['sections']; c.ghost['sections'] = s[:-1] + [[s[-1][0], c.store[self.q.root].f[self.rf], s[-1][2]]]
    def on_access(self, c, lv, mode):
        if not isinstance(lv, LV) or lv.root != self.q.root or not lv.path: return
        f = lv.path[0][1]
        if f in self.guarded and self.mutex not in c.locks:
            c.violated(f'shared state is touched only under the queue\'s lock', f'{f} ({mode})')

    def loop_hook(self, ip, node, cond, body, step): return wait_loop(ip, self, cond, body, step)
def wait_loop(ip, u, cond, body, step):
    """a loop whose turns that go on do nothing but wait: after any number of them other threads did what they like, and nothing else happened"""
    c = ip.c; pre = dict(c.store); t0 = len(c.trace)
    def turn():
        if cond is not None and not c.choose(cond()): raise Break()
        try: body()
        except Continue: pass
        if step: step()
    ip.e.mute += 1
    try: outs = c.nested(turn)
    finally: ip.e.mute -= 1
    nexts = [o for o in outs if o['kind'] == 'next']
    if not nexts or not all(any(e.name == 'wait' for e in o['trace'] if isinstance(e, Ev)) for o in nexts): return None
    for o in nexts:
        if not all(isinstance(e, Ev) and e.name in ('wait', 'lock', 'unlock', 'now') for e in o['trace']): return None
        for q, v in pre.items():
            w = o['store'].get(q)
            if q == u.q.root:
                if v.f.keys() != w.f.keys() or not all(f in u.guarded or loops.same(v.f[f], w.f[f]) for f in v.f): return None
            elif v is not None and (w is None or not loops.same(v, w)): return None
    for last in (False, True):
        try: turn()
        except Break: return True
        if last: raise PathEnd()

def setup(ip, u):
    c = ip.c; cl = ip.ast.classes.get(BQ)
    if cl is None: raise Unsupported('block_queue not found')
    f = {}; u.extra = False; u.guarded = []; mut = []; rings = []; u.disc = None
    for fd in ip.fields_of(cl):
        t = norm(strip_cv(qt(fd))); n = fd['name']
        if t == 'std::mutex': f[n] = Opaque('std::mutex'); mut.append(n)
        elif t == 'std::condition_variable': f[n] = Opaque(t)
        elif 'atomic<' in t: f[n] = Atomic(c.fresh_int(n, 0, 2 ** 62), 'unsigned long'); u.disc = n
        elif t.startswith('circular_queue<'): rings.append(n); u.guarded.append(n); r = fresh_ring(c, 'Elem'); c.assume(r.cap >= 1); f[n] = r
        else:
            v = ip.fresh_of(t, n)
            if v is None: raise Unsupported(f'field {n} of {BQ}')
            f[n] = v; u.guarded.append(n); u.extra = True
    if len(mut) != 1 or len(rings) != 1: raise Unsupported('representation of block_queue changed')
    q = root(ip, Obj(BQ, f), 'q'); u.q = q; u.rf = rings[0]; u.mutex = q.sub(('f', mut[0]))
    return q, f

def same_ring(c, r, s, what):
    i = c.fresh_int('i', 0)
    c.check(what, z3.And(r.cap == s.cap, r.ovr == s.ovr, r.hi - r.lo == s.hi - s.lo, Implies(i < r.hi - r.lo, z3.Select(r.a, r.lo + i) == z3.Select(s.a, s.lo + i))))
def pushed(r, x):
    full = r.hi - r.lo == r.cap
    return Ring(z3.Store(r.a, r.hi, x), z3.If(full, r.lo + 1, r.lo), r.hi + 1, r.cap, z3.If(full, r.ovr + 1, r.ovr), r.kind)
def popped(r): return Ring(r.a, r.lo + 1, r.hi, r.cap, r.ovr, r.kind)

def finish(ip, u, effect):
    """sections: all but the last leave the queue alone; the last has the given effect; returns the last section"""
    c = ip.c; ss = c.ghost.get('sections', [])
    c.check('the lock is released', z3.BoolVal(not c.locks))
    if not ss: c.violated('the operation takes the lock'); raise PathEnd()
    for e, x, _ in ss[:-1]:
        same_ring(c, x, e, 'the queue is changed in one critical section only')
    return ss[-1]
def notified(ip, u, role, at):
    c = ip.c
    cvs = ROLES.get(role)
    if u.extra: raise Unsupported('representation of block_queue changed')
    if not cvs: raise Unsupported(f'no waiting {role} found')
    got = [e.args[0].path[-1][1] for e in c.trace[at:] if e.name == 'notify' and e.args[0].path]
    c.check(f'a blocked {role} is notified after the change', z3.BoolVal(all(cv in got for cv in cvs)))
def adds(ip, u): return [e for e in ip.c.trace if e.name == 'atomic' and e.args[1] == u.q.sub(('f', u.disc))]
def no_discard(ip, u, f):
    ip.c.check('the discard counter is left alone', z3.BoolVal(all(e.args[0] == 'load' for e in adds(ip, u))))
def item(ip): return root(ip, Handle('Elem', z3.Int('item')), 'item')

def u_enq(name):
    def run(ip, u):
        c = ip.c; q, f = setup(ip, u); it = item(ip); call(ip, BQ, name, q, [it])
        e, x, at = finish(ip, u, None); full = e.hi - e.lo == e.cap
        if name == 'enqueue_if_have_room':
            if c.choose(full):
                same_ring(c, x, e, 'a full queue is left alone')
                ev = [a for a in adds(ip, u) if a.args[0] != 'load']
                c.check('exactly one discard is counted, atomically', z3.BoolVal(len(ev) == 1 and ev[0].args[0] == 'add') if not (len(ev) == 1 and ev[0].args[0] == 'add') else ev[0].args[2] == 1)
                return
        if name == 'enqueue': c.check('a blocking enqueue waits until there is room and never overwrites', z3.Not(full))
        same_ring(c, x, pushed(e, z3.Int('item')), 'the item is appended atomically (oldest dropped and counted only if full)')
        no_discard(ip, u, f); notified(ip, u, 'consumer', at)
    return run
def waits(ip): return {e.args[0].path[-1][1] for e in ip.c.trace if e.name in ('wait', 'nowait')}
def u_deq(name, timed):
    def run(ip, u):
        c = ip.c; q, f = setup(ip, u); out = root(ip, Handle('Elem', z3.Int('old_out')), 'out')
        d = z3.Int('duration'); c.assume(z3.And(d >= -2 ** 40, d <= 2 ** 40))
        r = call(ip, BQ, name, q, [out] + ([d] if timed else []))
        e, x, at = finish(ip, u, None); no_discard(ip, u, f)
        if timed:
            for ev in c.trace:
                if ev.name in ('wait', 'nowait'): c.check('the timed wait lasts as long as asked', z3.BoolVal(False) if ev.args[1] is None else ev.args[1] == d * 10 ** 6)
            if not c.choose(r):
                c.check('false only if nothing was available', e.hi == e.lo); same_ring(c, x, e, 'nothing is removed when false is returned')
                c.check('the output is untouched when false is returned', c.read(out, True).t == z3.Int('old_out')); return
        c.check('dequeue takes from a non-empty queue', e.hi > e.lo)
        c.check('the oldest item is returned', c.read(out, True).t == z3.Select(e.a, e.lo))
        i = c.fresh_int('i', 0); p = popped(e)
        c.check('exactly the oldest item is removed', z3.And(x.cap == p.cap, x.ovr == p.ovr, x.hi - x.lo == p.hi - p.lo, Implies(i < p.hi - p.lo, z3.Select(x.a, x.lo + i) == z3.Select(p.a, p.lo + i))))
        notified(ip, u, 'producer', at)
    return run
def u_roles(ip, u):
    c = ip.c; q, f = setup(ip, u); w = c.choose_nd(3)
    nm, role = (('enqueue', 'producer'), ('dequeue', 'consumer'), ('dequeue_for', 'consumer'))[w]
    args = [root(ip, Handle('Elem', z3.Int('x')), 'x')] + ([z3.Int('duration')] if w == 2 else [])
    if w == 2: c.assume(z3.And(args[1] >= 0, args[1] < 2 ** 40))
    call(ip, BQ, nm, q, args)
    ROLES.setdefault(role, set()).update(waits(ip))
    c.check('producers and consumers do not wait on the same condition variable unless every wake-up is broadcast', z3.BoolVal(not (ROLES.get('producer', set()) & ROLES.get('consumer', set()))))
def u_get(name, spec):
    def run(ip, u):
        c = ip.c; q, f = setup(ip, u); r = call(ip, BQ, name, q); e, x, at = finish(ip, u, None)
        spec(c, e, x, r); no_discard(ip, u, f)
    return run
def g_size(c, e, x, r): same_ring(c, x, e, 'size changes nothing'); c.check('size is the number of items', r == e.hi - e.lo)
def g_ovr(c, e, x, r): same_ring(c, x, e, 'get_override_count changes nothing'); c.check('the override counter is reported', r == e.ovr)
def g_reset(c, e, x, r): same_ring(c, x, Ring(e.a, e.lo, e.hi, e.cap, I(0), e.kind), 'only the override counter is reset')
def u_disc(reset):
    def run(ip, u):
        c = ip.c; q, f = setup(ip, u); r = call(ip, BQ, 'reset_discard_count' if reset else 'get_discard_count', q)
        v = c.read(q.sub(('f', u.disc)), True).v
        if reset: c.check('the discard counter is reset', v == 0)
        else: c.check('the discard counter is reported', r == f[u.disc].v); c.check('reporting changes nothing', v == f[u.disc].v)
    return run
def u_ctor(ip, u):
    c = ip.c; N = z3.Int('N'); c.assume(z3.And(N >= 1, N < 2 ** 62)); q = root(ip, Obj(BQ, {}), 'q'); u.q = LV('none'); u.mutex = LV('none')
    ctor(ip, BQ, q, [N], nparams=1, pred=lambda f: 'block_queue' not in f.params[0]['type']['qualType']); o = c.read(q, True)
    for v in o.f.values():
        if isinstance(v, Ring): c.check('the queue is empty with room for N items', z3.And(v.cap == N, v.hi == v.lo, v.ovr == 0))
        if isinstance(v, Atomic): c.check('the discard counter starts at 0', v.v == 0)

def units():
    ROLES.clear(); q = 'block_queue::'; K = lambda n, f, r: U(n, [q + f], r, base=BQUnit)
    roles = K('queue: roles of the condition variables', 'dequeue', u_roles); roles.first = True
    return [roles, K('queue: construct', 'block_queue', u_ctor)] + \
        [K('queue: ' + n, n, u_enq(n)) for n in ('enqueue', 'enqueue_nowait', 'enqueue_if_have_room')] + \
        [K('queue: dequeue', 'dequeue', u_deq('dequeue', False)), K('queue: dequeue_for', 'dequeue_for', u_deq('dequeue_for', True)),
         K('queue: size', 'size', u_get('size', g_size)), K('queue: get_override_count', 'get_override_count', u_get('get_override_count', g_ovr)), K('queue: reset_override_count', 'reset_override_count', u_get('reset_override_count', g_reset)),
         K('queue: get_discard_count', 'get_discard_count', u_disc(False)), K('queue: reset_discard_count', 'reset_discard_count', u_disc(True))]
