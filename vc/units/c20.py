"""C20: the asynchronous logger hands copies to the pool; the worker delivers and flushes without the pool."""
from units.pools import *
NOPOOL = ('locked', 'enqueue_log', 'enqueue_flush', 'get', 'promised')
def state(ip, lg): o = ip.c.read(lg, True); return {k: v for k, v in o.f.items()}
def kept(ip, lg, old, what):
    now = state(ip, lg); ip.c.check(f'{what}: the logger itself is unchanged', z3.BoolVal(all(loops.same(old[k], now[k]) for k in old)))
def front(ip, u, name, args, req):
    """the caller's side: the events of one call"""
    c = ip.c; lg = the_logger(ip, u); old = state(ip, lg); r, ex = attempt(lambda: call(ip, AL, name, lg, args)); tr = c17_flat(c.trace)
    c.check('nothing is thrown at the caller', z3.BoolVal(ex is None)); kept(ip, lg, old, name)
    c.check('the caller touches no sink itself', z3.BoolVal(not [e for e in tr if e.name.startswith('sink.')]))
    got = [e for e in tr if e.name in ('enqueue_log', 'enqueue_flush')]; locks = [e for e in tr if e.name == 'locked']; rep = [e for e in tr if e.name == 'report']; raised = [e for e in tr if e.name in ('thrown', 'raise')]
    if ex is not None: return None
    if not any(e.args[1] for e in locks):
        c.check('without a pool nothing is submitted', z3.BoolVal(not got)); c.check('without a pool the failure is reported once', z3.BoolVal(len(rep) == 1)); return None
    c.check('one request is submitted', z3.BoolVal([e.name for e in got] == [req]))
    if [e.name for e in got] != [req]: return None
    e = got[0]; c.check('to the logger\'s pool', e.args[0].t == z3.Int('pool')); c.check('the request names the logger itself', z3.BoolVal(False) if not isinstance(e.args[1], Handle) else e.args[1].t == u.SELF)
    c.check('one report for a failure, none otherwise', z3.BoolVal(len(rep) == len(raised))); return tr, e, raised
def c17_flat(tr):
    out = []
    for e in tr:
        if isinstance(e, FE):
            for _, t in e.alts: out += c17_flat(t)
        else: out.append(e)
    return out
def u_log(ip, u):
    c = ip.c; m, spec, hold = fresh_msg(ip, 'm'); r = front(ip, u, 'sink_log_', [m], 'enqueue_log')
    if r: check_snap(ip, r[1].args[2], spec, 'the request carries the very same message'); c.check('logging does not wait', z3.BoolVal(not [e for e in r[0] if e.name == 'get']))
def u_flush(ip, u):
    c = ip.c; r = front(ip, u, 'flush_sink_', [], 'enqueue_flush')
    if not r: return
    tr, e, raised = r; p = [x.args[0] for x in tr if x.name == 'promised']; g = [x.args[0] for x in tr if x.name == 'get']
    if p: c.check('flushing waits for the promise of its own request', z3.BoolVal(bool(g)) if not g else g[0] == p[0])
def no_pool(ip, tr): ip.c.check('the worker neither submits to nor waits for the pool', z3.BoolVal(not [e for e in c17_flat(tr) if e.name in NOPOOL or e.name in ('wait', 'join')]))
def u_deliver(ip, u):
    c = ip.c; lg = the_logger(ip, u); old = state(ip, lg); m, spec = own_msg(ip, AM, 'm', c03.afields(ip, 'm')) if c.choose_nd(2) else fresh_msg(ip, 'm')[:2]
    r, ex = attempt(lambda: call(ip, AL, 'do_sink_log_', lg, [m])); tr = only(c.trace, ('sink.log', 'sink.flush'))
    c.check('a failing sink does not stop the worker', z3.BoolVal(ex is None))
    if ex is not None: return
    kept(ip, lg, old, 'delivery'); no_pool(ip, c.trace); c05.delivered(ip, lg, spec, c.trace)
    fl = z3.And(spec.f['level'] >= z3.Int('lg_flush'), spec.f['level'] != LEVEL_OFF)
    if c.choose(fl): c05.flushed(ip, lg, c.trace, 'flush level reached'); c05.flush_after(ip, tr, 'sinks are flushed after all of them got the message')
    else: c.check('nothing is flushed below the flush level', z3.BoolVal(not only(c.trace, ('sink.flush',))))
    reports(ip, c.trace)
def reports(ip, tr):
    """each failure of a sink is reported once, right where it happened"""
    for e in tr:
        if isinstance(e, FE):
            for _, t in e.alts: reports(ip, t)
    ns = [e.name for e in tr if not isinstance(e, FE) and e.name in ('thrown', 'report')]
    ip.c.check('a failing sink is reported once', z3.BoolVal(ns == ['thrown', 'report'] * (len(ns) // 2)))
def u_do_flush(ip, u):
    c = ip.c; lg = the_logger(ip, u); old = state(ip, lg); r, ex = attempt(lambda: call(ip, AL, 'do_flush_sink_', lg, [])); c.check('a failing sink does not stop the worker', z3.BoolVal(ex is None))
    if ex is None: kept(ip, lg, old, 'flush'); no_pool(ip, c.trace); c05.flushed(ip, lg, c.trace); reports(ip, c.trace)
def u_gate(ip, u):
    """the public entry of the logger: a message that passes the gate is handed to sink_log_ once"""
    c = ip.c; lg = the_logger(ip, u); a = root(ip, view_lv(ip, text_root(ip, 'text')), 'v'); l = lvl(ip, 'l')
    call(ip, 'logger', 'log', lg, [l, a], lambda f: 'level' in f.params[0]['type']['qualType'] and 'string_view' in f.params[1]['type']['qualType'])
    tr = only(c.trace, ('sink_log_', 'flush_sink_')); rep = only(c.trace, ('report',)); out = c.choose(l >= z3.Int('lg_level'))
    c.check('an accepted message is handed over once', z3.BoolVal([e.name for e in tr] == (['sink_log_'] if out else []) and not rep))
    if out and tr: m = tr[0].args[0]; c.check_text('with its text', m.f['msg'], sym_text('text')); c.check_text('with the logger\'s name', m.f['logger_name'], sym_text('lg_name')); c.check('with its level', m.f['level'] == l)
def u_flush_entry(ip, u):
    c = ip.c; lg = the_logger(ip, u); call(ip, 'logger', 'flush', lg); c.check('flush() asks for one flush', z3.BoolVal([e.name for e in only(c.trace, ('sink_log_', 'flush_sink_'))] == ['flush_sink_']))
def u_ctor(ip, u):
    c = ip.c; k = c.choose_nd(2); nm = text_root(ip, 'name'); p = root(ip, Handle(TP, z3.Int('pool')), 'tp'); c.assume(z3.Int('pool') > 0); o = root(ip, Obj(AL, {}), 'lg')
    if k == 0:
        s = root(ip, Handle('sink', z3.Int('s')), 's'); c.assume(z3.Int('s') > 0); ctor(ip, AL, o, [nm, s, p], lambda f: 'sink' in f.params[1]['type']['qualType'] and 'list' not in f.params[1]['type']['qualType'], 3)
        a = c.read(o, True).f['sinks_']; c.check('it has the sink given', z3.And(a.n == 1, z3.Select(a.a, 0) == z3.Int('s')))
    else:
        arr = sink_array(ip, 'given'); hold = root(ip, arr, 'given'); il = Opaque('initializer_list', els=None)
        ctor(ip, AL, o, [nm, Iter(hold, I(0)), Iter(hold, arr.n), p], nparams=4); a = c.read(o, True).f['sinks_']; i = c.fresh_int('i', 0)
        c.check('it has the sinks given, in order', z3.And(a.n == arr.n, Implies(i < arr.n, z3.Select(a.a, i) == z3.Select(arr.a, i))))
    f = c.read(o, True).f; c.check_text('it has the name given', f['name_'].r, sym_text('name')); c.check('it refers to the pool given', hid(f[PF_]) == z3.Int('pool')); c.check('it calls itself asynchronous', ip.tobool(f['is_async_']))
def units():
    K = lambda n, f, r, **k: U(n, f, r, base=AsyncUnit, **k); q = AL + '::'
    import units.c19 as c19
    return [K('async: submit', [q + 'sink_log_'], u_log), K('async: flush', [q + 'flush_sink_'], u_flush), K('async: worker delivers', [q + 'do_sink_log_', q + 'do_flush_sink_'], u_deliver), K('async: worker flushes', [q + 'do_flush_sink_'], u_do_flush),
            K('async: gate', ['logger::log'], u_gate, stubs=('sink_log_', 'flush_sink_')), K('async: flush entry', ['logger::flush'], u_flush_entry, stubs=('sink_log_', 'flush_sink_')), K('async: construct', [q + AL], u_ctor)] + c19.base_units()
