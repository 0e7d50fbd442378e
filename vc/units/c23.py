"""C23: replacing the pool drops exactly the async loggers; the factories keep one pool."""
from units.registry import *
import units.c17 as c17
from units.c17 import flatten, attempt, no_exc
from units.flags import enum_value
QS, TS, QT = [z3.Function(n, INT, INT) for n in ('pool_queue_size', 'pool_threads', 'pool_queue_kind')]
KIND = {'lock_thread_pool': 'lock', 'lockfree_thread_pool': 'lockfree', 'lockfree_concurrent_thread_pool': 'lockfree_concurrent'}
class PoolRegUnit(RegUnit):
    stubbed = ()
    def contract(self, cls, name):
        if cls == REG and name in self.stubbed: return getattr(self, 'c_' + name)
        return RegUnit.contract(self, cls, name)
    def handle_contract(self, kind, name):
        if kind.endswith('thread_pool'):
            for nm, f in (('message_queue_size', QS), ('threads_size', TS), ('message_queue_type', QT)):
                if name == nm: return lambda ip, h, args, n, dst, f=f: (ip.c.check('a pool asked is there', h.t > 0, 'safety'), f(h.t))[1]
        return RegUnit.handle_contract(self, kind, name)
    def fresh(self, ip, k, kind, args):
        h = RegUnit.fresh(self, ip, k, kind, args); c = ip.c
        if k in KIND:
            c.assume(QT(h.t) == enum_value(ip, KIND[k], 'msg_queue_type'))
            if len(args) > 0: c.assume(QS(h.t) == ip.tonum(args[0]))
            if len(args) > 1: c.assume(TS(h.t) == ip.tonum(args[1]))
        return h
    def c_instance(self, ip, this, args, n, dst): return self.reg
    def c_get_thread_pool(self, ip, this, args, n, dst): return Handle('thread_pool', ip.c.ghost['current'])
    def c_register_thread_pool(self, ip, this, args, n, dst):
        v = ip.val(args[0]); ip.c.trace.append(Ev('register_pool', v)); ip.c.ghost['current'] = hid(v)
    def c_initialize_logger(self, ip, this, args, n, dst):
        ip.c.trace.append(Ev('initialize', ip.val(args[0]))); fail(ip, self)
def drops_async(ip, s):
    c = ip.c; map_is(ip, s, 'exactly the asynchronous loggers are removed from the registry', lambda k, old: z3.If(z3.And(old != -1, IS_ASYNC(old)), I(-1), old)); d = dflt(s.entry)
    c.check('the default logger is cleared iff it is asynchronous', hid(s.exit['default_logger_']) == z3.If(z3.And(d > 0, IS_ASYNC(d)), 0, d)); same_state(ip, s, 'replacing the pool', ('loggers_', 'default_logger_'))
def u_register(ip, u):
    c = ip.c; r = setup(ip, u); p = z3.Int('newpool'); c.assume(p >= 0); call(ip, REG, 'register_thread_pool', r, [root(ip, Handle('thread_pool', p), 'tp')]); c17.quiet(ip, 'register_thread_pool')
    drops_async(ip, the_section(ip, u)); t = the_section(ip, u, 'the pool is replaced in one critical section', 'thread_mutex_'); c.check('the new pool is the current one', hid(t.exit['thread_pool_']) == p)
def u_get(ip, u):
    r = setup(ip, u); v = ip.val(call(ip, REG, 'get_thread_pool', r)); s = the_section(ip, u, mutex='thread_mutex_'); same_state(ip, s, 'get_thread_pool'); ip.c.check('the current pool is returned', hid(v) == hid(s.entry['thread_pool_'])); ip.c.check('nothing else is done', z3.BoolVal(not sections(ip)))
def u_close(ip, u):
    c = ip.c; r = setup(ip, u); call(ip, REG, 'close_registry', r); c17.quiet(ip, 'close'); s = the_section(ip, u)
    map_is(ip, s, 'no logger is registered after closing', lambda k, old: I(-1)); c.check('there is no default logger after closing', hid(s.exit['default_logger_']) == 0)
    for m, f, w in (('flusher_mutex_', 'global_flusher_', 'the periodic flusher is stopped'), ('thread_mutex_', 'thread_pool_', 'the pool is dropped')): c.check(w, hid(the_section(ip, u, w, m).exit[f]) == 0)
def u_make(cls):
    def run(ip, u):
        c = ip.c; r = setup(ip, u); q, n = z3.Ints('queue_size workers'); c.assume(z3.And(q >= 1, q < 2 ** 62, n >= 1, n <= 1024)); fs = [f for f in ip.ast.methods(f'{REG}::initialize_thread_pool') if f.body is not None]
        if not fs: raise Unsupported('initialize_thread_pool')
        want = [f for f in fs if cls in str(f.node.get('_targs', '')) or True]; ip.run_func(want[0], r, [q, n]); mk = [e for e in c.trace if e.name == 'made']
        t = the_section(ip, u, 'the pool is replaced in one critical section', 'thread_mutex_'); c.check('exactly one pool is made and becomes the current one', z3.BoolVal(len(mk) == 1) if len(mk) != 1 else hid(t.exit['thread_pool_']) == mk[0].args[1].t)
        if len(mk) == 1 and len(mk[0].args[2]) == 2: c.check('the pool has the size and worker count asked for', z3.And(ip.tonum(mk[0].args[2][0]) == q, ip.tonum(mk[0].args[2][1]) == n))
        else: c.violated('the pool has the size and worker count asked for')
        drops_async(ip, the_section(ip, u))
    return run
def of_null_sink(fs):
    """the instances for the sink the contracts are checked with"""
    def first(f):
        for x in f.node.get('inner', []):
            if x.get('kind') == 'TemplateArgument': return x.get('type', {}).get('qualType', '')
        return ''
    r = [f for f in fs if 'null_sink' in first(f) and 'null_mutex' not in first(f)]; return r if r else fs
def u_factory(pool, named=None):
    def run(ip, u):
        c = ip.c; u.reg = root(ip, Obj(REG, {}), 'registry'); p = z3.Int('current'); c.assume(p >= 0); c.assume(z3.And(QS(p) >= 1, QS(p) < 2 ** 62, TS(p) >= 1, TS(p) <= 1024)); c.ghost['current'] = p; kind = enum_value(ip, KIND[pool], 'msg_queue_type')
        c.assume(z3.Or(*[QT(p) == enum_value(ip, k, 'msg_queue_type') for k in KIND.values()]))
        fs = [f for f in (ip.ast.byqual.get(named, []) if named else ip.ast.methods(f'async_factory_template<{pool}>::create')) if f.body is not None]; fs = of_null_sink([f for f in fs if len(f.params) == 1])
        if len(fs) != 1: raise Unsupported(f'factory for {pool}: {len(fs)}')
        res, exc = attempt(lambda: ip.run_func(fs[0], None, [text_root(ip, 'name')])); ev = c.trace; regs = only(ev, ('register_pool',)); init = only(ev, ('initialize',)); logs = [e for e in ev if e.name == 'made' and e.args[0] == 'async_logger']
        if exc is not None: c.check('only exceptions that are not standard ones are passed on', z3.BoolVal(exc.kind == 'other')); return
        c.check('exactly one asynchronous logger is made and initialised', z3.BoolVal(len(logs) == 1 and len(init) == 1))
        if len(logs) != 1 or len(init) != 1: return
        lg = logs[0].args[1].t; c.check('the logger made is initialised and returned', z3.And(hid(init[0].args[0]) == lg, hid(ip.val(res)) == lg))
        a = logs[0].args[2]; c.check_text('the logger has the name given', a[0], sym_text('name')); pool_of = [x for x in a if isinstance(x, Handle) and x.kind.endswith('pool')]
        c.check('the logger is given a pool', z3.BoolVal(len(pool_of) == 1))
        if len(pool_of) != 1: return
        g = pool_of[0].t; c.check('the logger works on the pool that is current', g == c.ghost['current']); c.check('there is a pool', g > 0); c.check('its queue kind is the factory\'s', QT(g) == kind)
        if c.choose(z3.And(p > 0, QT(p) == kind)): c.check('a matching pool is kept', z3.And(z3.BoolVal(not regs), g == p)); return
        c.check('a pool of the right kind is installed once', z3.BoolVal(len(regs) == 1)); mk = c.ghost.get('made', {}).get(str(g))
        if mk is None: c.violated('the pool installed is a new one'); return
        if c.choose(p == 0): c.check('the first pool has the default size and worker count', z3.BoolVal(not mk[1]))
        else: c.check('a replaced pool hands its size and worker count on', z3.And(QS(g) == QS(p), TS(g) == TS(p)))
    return run
def K(n, f, r, **kw): return U(n, [f], r, base=PoolRegUnit, **kw)
def units():
    st = dict(stubbed=('instance', 'get_thread_pool', 'register_thread_pool', 'initialize_logger'), outcomes=3)
    return [K('pool: register', 'registry::register_thread_pool', u_register), K('pool: get', 'registry::get_thread_pool', u_get), K('registry: close', 'registry::close_registry', u_close), K('pool: make', 'registry::initialize_thread_pool', u_make('lock_thread_pool'))] + \
        [K(f'factory: {p}', f'async_factory_template<{p}>::create', u_factory(p), **st) for p in KIND] + \
        [K('factory: create_async_' + p[:-len('_thread_pool')], 'create_async_' + p[:-len('_thread_pool')], u_factory(p, 'create_async_' + p[:-len('_thread_pool')]), **st) for p in KIND]
