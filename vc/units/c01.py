"""C01: circular_queue<T> against a bounded FIFO with overwrite."""
from units.common import *
CQ = 'circular_queue<Elem>'
FIELDS = ('max_size_', 'head_', 'tail_', 'override_cnt_', 'vec_')

class CQUnit(Unit):
    handle_kinds = frozenset(['Elem']); value_kinds = frozenset(['Elem'])
    def abstract_ctor(self, ip, t):
        if t == 'Elem':
            def mk(ip, args, ctype):
                if not args: return Handle('Elem', ip.c.fresh_int('elem'))
                v = ip.c.read(args[0])
                if '&&' in (ctype or ''): ip.c.write(args[0], Handle('Elem', ip.c.fresh_int('movedfrom')))
                return v
            return mk

def state(ip, valid, nm='q'):
    c = ip.c; need_fields(ip, CQ, FIELDS)
    a = z3.Array(nm + '_arr', z3.IntSort(), z3.IntSort())
    ovr = z3.Int(nm + '_ovr'); c.assume(z3.And(ovr >= 0, ovr < 2 ** 63))
    if valid:
        M, h, t = z3.Int(nm + '_max'), z3.Int(nm + '_head'), z3.Int(nm + '_tail')
        c.assume(z3.And(M >= 2, M <= 2 ** 62, h >= 0, h < M, t >= 0, t < M)); n = M
    else:
        M = h = t = I(0); n = z3.Int(nm + '_vn'); c.assume(z3.And(n >= 0, n <= 2 ** 62))
    return root(ip, Obj(CQ, dict(max_size_=M, head_=h, tail_=t, override_cnt_=ovr, vec_=Arr(a, n, 'Elem'))), nm)

class V:
    """abstract view of a concrete state"""
    def __init__(self, o):
        self.M, self.h, self.t, self.ovr, self.vec = [o.f[x] for x in FIELDS]
        self.size = z3.If(self.t >= self.h, self.t - self.h, self.t - self.h + self.M)
    def at(self, i): return z3.Select(self.vec.a, z3.If(self.h + i < self.M, self.h + i, self.h + i - self.M))
    def inv(self):
        return z3.Or(z3.And(self.M == 0, self.h == 0, self.t == 0),
                     z3.And(self.M >= 2, 0 <= self.h, self.h < self.M, 0 <= self.t, self.t < self.M, self.vec.n == self.M))
    def inert(self): return z3.And(self.M == 0, self.h == 0, self.t == 0)

def view(ip, q): return V(ip.c.read(q, True))
def idx(ip): return ip.c.fresh_int('i', 0)

def u_ctor(ip, u):
    c = ip.c; N = z3.Int('N'); c.assume(z3.And(N >= 1, N < 2 ** 62))
    q = root(ip, Obj(CQ, {}), 'q')
    ctor(ip, CQ, q, [N], nparams=1, pred=lambda f: 'circular_queue' not in f.params[0]['type']['qualType'])
    v = view(ip, q)
    c.check('invariant established', v.inv()); c.check('holds at most N items', v.M == N + 1); c.check('starts empty', v.size == 0); c.check('overwrite counter starts at 0', v.ovr == 0)
def u_ctor0(ip, u):
    q = root(ip, Obj(CQ, {}), 'q'); ctor(ip, CQ, q, [], nparams=0)
    v = view(ip, q); ip.c.check('default constructed is inert', v.inert()); ip.c.check('overwrite counter starts at 0', v.ovr == 0)
def u_push(ip, u):
    c = ip.c; q = state(ip, True); v = view(ip, q); item = root(ip, Handle('Elem', z3.Int('item')), 'item')
    call(ip, CQ, 'push_back', q, [item]); w = view(ip, q)
    full = v.size == v.M - 1; i = idx(ip)
    c.check('invariant kept', w.inv()); c.check('capacity kept', w.M == v.M)
    c.check('size grows by one up to the capacity', w.size == z3.If(full, v.size, v.size + 1))
    c.check('the new item is last', w.at(w.size - 1) == z3.Int('item'))
    c.check('all other items keep their order, only the oldest is dropped when full', Implies(i < w.size - 1, w.at(i) == z3.If(full, v.at(i + 1), v.at(i))))
    c.check('overwrite counter counts exactly the dropped item', w.ovr == z3.If(full, v.ovr + 1, v.ovr))
def u_pop(ip, u):
    c = ip.c; q = state(ip, True); v = view(ip, q); c.assume(v.size >= 1)
    call(ip, CQ, 'pop_front', q); w = view(ip, q); i = idx(ip)
    c.check('invariant kept', w.inv()); c.check('capacity kept', w.M == v.M); c.check('size shrinks by one', w.size == v.size - 1)
    c.check('exactly the oldest item is removed', Implies(i < w.size, w.at(i) == v.at(i + 1))); c.check('overwrite counter kept', w.ovr == v.ovr)
def const(name, spec, valid):
    def run(ip, u):
        c = ip.c; q = state(ip, valid); v = view(ip, q); o = c.read(q, True)
        r = call(ip, CQ, name, q); spec(ip, v, r)
        c.check(f'{name} changes nothing', unchanged(ip, o, c.read(q, True)))
    return run
def u_at(ip, u):
    c = ip.c; q = state(ip, True); v = view(ip, q); i = z3.Int('at_i'); c.assume(z3.And(i >= 0, i < v.size)); o = c.read(q, True)
    r = call(ip, CQ, 'at', q, [i]); c.check('at(i) is the i-th oldest item', ip.val(r).t == v.at(i)); c.check('at changes nothing', unchanged(ip, o, c.read(q, True)))
def u_front(k):
    def run(ip, u):
        c = ip.c; q = state(ip, True); v = view(ip, q); c.assume(v.size >= 1); o = c.read(q, True)
        r = call(ip, CQ, 'front', q, pred=lambda f: is_const_m(f) == k); c.check('front() is the oldest item', ip.val(r).t == v.at(0)); c.check('front changes nothing', unchanged(ip, o, c.read(q, True)))
    return run
def u_clear(ip, u):
    c = ip.c; q = state(ip, c.choose_nd(2) == 0); call(ip, CQ, 'clear', q); w = view(ip, q)
    c.check('cleared queue is inert and empty', w.inert()); c.check('overwrite counter is 0', w.ovr == 0)
def u_reset(ip, u):
    c = ip.c; q = state(ip, c.choose_nd(2) == 0); v = view(ip, q); call(ip, CQ, 'reset_override_count', q); w = view(ip, q); i = idx(ip)
    c.check('counter is 0', w.ovr == 0); c.check('items kept', z3.And(w.M == v.M, w.h == v.h, w.t == v.t, Implies(i < v.size, w.at(i) == v.at(i))))
def u_inert(ip, u):
    c = ip.c; q = state(ip, False)
    op = c.choose_nd(2)
    if op == 0: call(ip, CQ, 'push_back', q, [root(ip, Handle('Elem', z3.Int('item')), 'item')])
    else: call(ip, CQ, 'pop_front', q)
    c.check('an inert queue stays inert', view(ip, q).inert())
def eqv(c, v, w, i, what):
    c.check(f'{what}: same capacity and size', z3.And(w.M == v.M, w.size == v.size)); c.check(f'{what}: same items', Implies(i < v.size, w.at(i) == v.at(i)))
    c.check(f'{what}: same overwrite counter', w.ovr == v.ovr); c.check(f'{what}: invariant', w.inv())
def is_move(f): return '&&' in f.type
def u_copy(ip, u, assign):
    c = ip.c; s = state(ip, c.choose_nd(2) == 0, 's'); v = view(ip, s); o = c.read(s, True); i = idx(ip)
    if assign:
        d = state(ip, c.choose_nd(2) == 0, 'd'); f = find(ip, CQ, 'operator=', lambda f: not is_move(f))
        ip.memberwise(CQ, d, s, False) if f.body is None else ip.run_func(f, d, [s])
    else:
        d = root(ip, Obj(CQ, {}), 'd'); ctor(ip, CQ, d, [s], lambda f: f.params and 'circular_queue' in f.params[0]['type']['qualType'] and not is_move(f), 1)
    eqv(c, v, view(ip, d), i, 'copy'); c.check('the source is unchanged', unchanged(ip, o, c.read(s, True)))
def u_move(ip, u, assign):
    c = ip.c; s = state(ip, c.choose_nd(2) == 0, 's'); v = view(ip, s); i = idx(ip)
    if assign:
        d = state(ip, c.choose_nd(2) == 0, 'd'); ip.run_func(find(ip, CQ, 'operator=', is_move), d, [s])
    else:
        d = root(ip, Obj(CQ, {}), 'd'); ctor(ip, CQ, d, [s], lambda f: f.params and 'circular_queue' in f.params[0]['type']['qualType'] and is_move(f), 1)
    eqv(c, v, view(ip, d), i, 'moved-to'); w = view(ip, s)
    c.check('the source is inert and empty', w.inert()); c.check('the source counter is handed over', w.ovr == 0)

def units():
    q = 'circular_queue::'; K = lambda n, f, r: U(n, [q + f], r, base=CQUnit)
    size = lambda ip, v, r: ip.c.check('size() is the number of items', r == v.size)
    empty = lambda ip, v, r: ip.c.check('empty() iff no items', r == (v.size == 0))
    full = lambda ip, v, r: ip.c.check('full() iff capacity reached (never when inert)', r == z3.And(v.M > 0, v.size == v.M - 1))
    cnt = lambda ip, v, r: ip.c.check('override_count() reports the counter', r == v.ovr)
    out = [K('ring: construct(N)', 'circular_queue', u_ctor), K('ring: default construct', 'circular_queue', u_ctor0), K('ring: push_back', 'push_back', u_push), K('ring: pop_front', 'pop_front', u_pop),
           K('ring: at', 'at', u_at), K('ring: front const', 'front', u_front(True)), K('ring: front', 'front', u_front(False)), K('ring: clear', 'clear', u_clear), K('ring: reset counter', 'reset_override_count', u_reset), K('ring: inert push/pop', 'push_back', u_inert)]
    for nm, sp in (('size', size), ('empty', empty), ('full', full), ('override_count', cnt)):
        out += [K(f'ring: {nm}', nm, const(nm, sp, True)), K(f'ring: {nm} (inert)', nm, const(nm, sp, False))]
    out += [K('ring: copy construct', 'circular_queue', lambda ip, u: u_copy(ip, u, False)), K('ring: copy assign', 'operator=', lambda ip, u: u_copy(ip, u, True)),
            K('ring: move construct', 'circular_queue', lambda ip, u: u_move(ip, u, False)), K('ring: move assign', 'operator=', lambda ip, u: u_move(ip, u, True))]
    return out
