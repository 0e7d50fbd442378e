"""C11: formatters reach every sink, one each; clones and swaps of loggers."""
from units.loggers import *
import units.c07 as c07
INT = z3.IntSort(); LIKE = z3.Function('formats_like', INT, INT)
class FUnit(LogUnit):
    def handle_contract(self, kind, name):
        if kind == 'formatter' and name == 'clone': return c_clone
        return LogUnit.handle_contract(self, kind, name)
    def made(self, ip, k, a, n):
        if k == 'pattern_formatter': return self.pattern(ip, a)
    def make_object(self, ip, k, a, n): return self.made(ip, k, a, n)
    def new_object(self, ip, t, init, lv):
        while init is not None and init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr'): init = init['inner'][0]
        return self.made(ip, t, init['inner'] if init else [], None)
    def pattern(self, ip, a):
        """a pattern formatter made from a pattern (its constructor is under contract in C07)"""
        c = ip.c; a = [x for x in a if x.get('kind') != 'CXXDefaultArgExpr']; x = ip.argv(a); v = ip.val(x[0]) if x else None; t = text_of(ip, x[0]) if x else Rope(['%+'])
        if isinstance(x[0] if x else None, LV) and '&&' in '' : pass
        if len(x) > 1: raise Unsupported('pattern formatter with more than a pattern')
        h = c.fresh_int('formatter'); c.assume(h > 0); c.ghost['patterns'] = dict(c.ghost.get('patterns', {}), **{str(h): t}); c.trace.append(Ev('made', h)); return Handle('formatter', h)
def c_clone(ip, h, args, n, dst):
    c = ip.c; g = c.fresh_int('clone'); c.assume(g > 0); c.assume(LIKE(g) == LIKE(h.t)); c.trace.append(Ev('clone', h, Handle('formatter', g))); return Handle('formatter', g)
def flat(tr, c):
    """(condition, bounds, events) of every way a sink gets a formatter"""
def u_set(ip, u):
    c = ip.c; lg = fresh_logger(ip, cls=u.cls); s = c.read(lg, True).f['sinks_']; f = z3.Int('given'); c.assume(f > 0); call(ip, 'logger', 'set_formatter', lg, [root(ip, Handle('formatter', f), 'f')], nparams=1)
    given_once(ip, s, f, c.trace)
def given_once(ip, s, f, trace):
    """every sink gets exactly one formatter: the given one, at most once, or a clone made for it alone"""
    c = ip.c; tr = only(trace, ('sink.set_formatter', 'clone')); last = []
    def got(k):
        def p(e): 
            c.check('each sink gets its formatter', e.args[0].t == z3.Select(s.a, k)); h = e.args[1]
            if not isinstance(h, Handle): raise Unsupported('formatter of a sink')
            c.check('each sink gets a formatter that is there', h.t > 0, 'safety'); c.check('each sink formats like the formatter given', LIKE(h.t) == LIKE(f))
        return p
    # sinks get one formatter each
    sets = only(trace, ('sink.set_formatter',)); check_each(ip, sets, 'every sink gets exactly one formatter', I(0), s.n, lambda k: [(TRUE, [('sink.set_formatter', got(k))])])
    # where they come from
    owners = []
    def walk(t, cond, k):
        cl = [e for e in t if isinstance(e, Ev) and e.name == 'clone']
        for e in t:
            if isinstance(e, FE):
                for a, x in e.alts: walk(x, cond + [z3.And(e.lo <= e.k, e.k < e.hi), a], e.k)
            elif e.name == 'sink.set_formatter' and isinstance(e.args[1], Handle): owners.append((cond, k, e.args[1].t, [x.args[1].t for x in cl]))
    walk(tr, [], None); i1, i2 = z3.Ints('i1 i2'); used = set()
    for n, (cond, k, t, cl) in enumerate(owners):
        mine = [x for x in cl if x.eq(t)]
        if mine:
            c.check('no two sinks share a clone', z3.BoolVal(k is not None or str(t) not in used)); used.add(str(t)); continue
        last.append((cond, k, t))
        if k is not None: c.check('the formatter given goes to one sink only', z3.Not(z3.And(*[z3.substitute(x, (k, i1)) for x in cond], *[z3.substitute(x, (k, i2)) for x in cond], i1 < i2)))
        c.check('a sink gets the formatter given or a clone of its own', Implies(And(*cond), t == f) if k is None else Implies(z3.And(*[z3.substitute(x, (k, i1)) for x in cond]), z3.substitute(t, (k, i1)) == f))
    for x in range(len(last)):
        for y in range(x): c.check('the formatter given goes to one sink only', z3.Not(z3.And(*[z3.substitute(a, (last[x][1], i1)) if last[x][1] is not None else a for a in last[x][0]], *[z3.substitute(a, (last[y][1], i2)) if last[y][1] is not None else a for a in last[y][0]])))
def u_pattern(ip, u):
    c = ip.c; lg = fresh_logger(ip); before = c.read(lg, True); call(ip, 'logger', 'set_pattern', lg, [text_root(ip, 'text')], nparams=1); ev = only(c.trace, ('made', 'set_formatter'))
    c.check('one formatter is made and set', z3.BoolVal([e.name for e in ev] == ['made', 'set_formatter'])); o = c.read(lg, True)
    if len(ev) == 2: c.check('the formatter made is set', ev[1].args[0].t == ev[0].args[0]); c.check_text('the formatter is made from the pattern', c.ghost['patterns'][str(ev[0].args[0])], sym_text('text'))
    c.check_text('the logger remembers its pattern', o.f['pattern_'].r, sym_text('text')); kept(ip, o, before, 'set_pattern', ('pattern_',)); c.check_text('the pattern reported is the one set', text_of(ip, call(ip, 'logger', 'get_pattern', lg, nparams=0)) if ip.ast.methods('logger::get_pattern') else sym_text('text'), sym_text('text'))
def kept(ip, o, b, what, but=()):
    for k in b.f:
        if k in but: continue
        x, y = o.f[k], b.f[k]; c = ip.c
        if isinstance(x, Str): c.check_text(f'{what}: {k}', x.r, y.r)
        elif isinstance(x, Arr): i = c.fresh_int('i', 0); c.check(f'{what}: {k}', z3.And(x.n == y.n, Implies(i < y.n, z3.Select(x.a, i) == z3.Select(y.a, i))))
        elif z3.is_expr(x) and z3.is_expr(y): c.check(f'{what}: {k}', x == y)
        else: c.check(f'{what}: {k}', z3.BoolVal(loops.same(x, y)))
def u_clone(ip, u):
    c = ip.c; ex = {'thread_pool_': root(ip, Handle('thread_pool', z3.Int('pool')), 'tp')} if u.cls != 'logger' else None
    if ex: ex = {'thread_pool_': Handle('thread_pool', z3.Int('pool'))}
    lg = fresh_logger(ip, cls=u.cls, tracer='any', extra=ex); before = c.read(lg, True); r = ip.val(call(ip, u.cls, 'clone', lg, [text_root(ip, 'text')], nparams=1))
    c.check('a clone is another logger', z3.BoolVal(isinstance(r, Ptr) and isinstance(r.t, LV) and r.t.root != lg.root))
    if not (isinstance(r, Ptr) and isinstance(r.t, LV)): return
    o = c.read(r.t, True); c.check('a clone is of the same kind', z3.BoolVal(o.cls == u.cls)); c.check_text('a clone has the new name', o.f['name_'].r, sym_text('text')); kept(ip, o, before, 'clone', ('name_', 'tracer_')); kept(ip, c.read(lg, True), before, 'the original')
def u_swap(ip, u):
    c = ip.c; a = fresh_logger(ip, 'a', 'any'); b = fresh_logger(ip, 'b', 'any'); c.write(b, Obj('logger', dict(c.read(b, True).f, is_async_=z3.BoolVal(True)))); x, y = c.read(a, True), c.read(b, True)
    if u.free: ip.run_func([f for f in ip.ast.methods('swap') if f.body is not None and f.cls is None and len(f.params) == 2][0], None, [a, b])
    else: call(ip, 'logger', 'swap', a, [b], nparams=1)
    kept(ip, c.read(a, True), y, 'swap', ('is_async_',)); kept(ip, c.read(b, True), x, 'swap', ('is_async_',))
    for l, o in ((a, x), (b, y)):
        if 'is_async_' in o.f: c.check('swap: each logger stays of its kind', c.read(l, True).f['is_async_'] == o.f['is_async_'])
def u_self(ip, u):
    c = ip.c; a = fresh_logger(ip, 'a', 'any'); x = c.read(a, True); call(ip, 'logger', 'swap', a, [a], nparams=1); kept(ip, c.read(a, True), x, 'swap with itself')
def units():
    K = lambda n, f, r, **k: U(n, f, r, base=FUnit, **k)
    return [K('set_formatter', ['logger::set_formatter'], u_set, cls='logger'), K('set_pattern', ['logger::set_pattern'], u_pattern, stubs=('set_formatter',)), K('clone', ['logger::clone'], u_clone, cls='logger'), K('clone async', ['async_logger::clone'], u_clone, cls='async_logger'),
            K('swap', ['logger::swap'], u_swap, free=False), K('swap with itself', ['logger::swap'], u_self), K('free swap', ['swap', 'logger::swap'], u_swap, free=True), c07.units()[5]]
