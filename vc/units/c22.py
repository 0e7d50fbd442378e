"""C22: periodic work: one full interval before each call, prompt and final destruction."""
from units.threads import *
import units.c17 as c17
import units.c23 as c23
PF = 'periodic_function'
class PerUnit(ThreadUnit):
    obj = None; in_thread = False
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        return ThreadUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt)
    def call_object(self, ip, f, args):
        v = ip.c.read(f, True) if isinstance(f, LV) else f
        if isinstance(v, Opaque) and v.fam == 'callback': ip.c.trace.append(Ev('call', v)); return None
        return NotImplemented
    def on_lock(self, ip, key):
        if self.in_thread: interfere(ip, self)
        else: ThreadUnit.on_lock(self, ip, key)
    def loop_hook(self, ip, node, cond, body, step):
        if self.in_thread: return turn(ip, self, cond, body, step)
        return ThreadUnit.loop_hook(self, ip, node, cond, body, step)
def interfere(ip, u):
    """whoever takes the lock finds the flag in any state; it never goes back up"""
    c = ip.c; d = u.obj.sub(('f', u.flag)); v = c.read(d, True); w = c.fresh_bool('active')
    if isinstance(v, Atomic): x = c.fresh_int('active', 0, 1); w = Atomic(x, v.ty)
    c.assume(Implies(isset(ip, u, w), isset(ip, u, v))); c.write(d, w, True)
def fields(ip, u):
    cl = ip.ast.classes.get(PF)
    if cl is None: raise Unsupported(PF)
    r = {}
    for fd in ip.fields_of(cl):
        t = norm(strip_cv(qt(fd))).replace('mutable ', ''); n = fd['name']
        k = 'thread' if t == 'std::thread' else 'mutex' if t == 'std::mutex' else 'cv' if t == 'std::condition_variable' else 'flag' if t == 'bool' or 'atomic' in t and 'bool' in t else None
        if k is None or k in r: raise Unsupported(f'field {n} of {PF}')
        r[k] = n
    if set(r) != {'thread', 'mutex', 'cv', 'flag'}: raise Unsupported(f'representation of {PF}')
    u.flag = r['flag']; u.f = r; return r
def isset(ip, u, v):
    """does the flag allow work? allowed is the value it has when the constructor starts the thread"""
    b = ip.tobool(v.v) if isinstance(v, Atomic) else ip.tobool(v); return S(b == u.pol)
def build(ip, u, d):
    c = ip.c; r = fields(ip, u); o = root(ip, Obj(PF, {}), 'pf'); u.obj = o; f = root(ip, Opaque('callback', id='given'), 'func')
    ctor(ip, PF, o, [f, d], nparams=2); st = only(c.trace, ('start',)); u.pol = TRUE
    if st:
        v = st[0].args[2][o.root].f.get(r['flag'])
        if v is None: c.violated('the flag is set before the thread is started'); raise PathEnd()
        b = S(ip.tobool(v.v) if isinstance(v, Atomic) else ip.tobool(v))
        if not (z3.is_true(b) or z3.is_false(b)): b = TRUE if c.prove(b) else FALSE if c.prove(z3.Not(b)) else None
        if b is None: raise Unsupported('flag of the thread')
        u.pol = b
    return o, r
def u_ctor(ip, u):
    c = ip.c; d = z3.Int('interval'); c.assume(z3.And(d >= -2 ** 40, d <= 2 ** 40)); o, r = build(ip, u, d); st = only(c.trace, ('start',)); c.check('the function is not called by the constructor', z3.BoolVal(not only(c.trace, ('call',)))); v = c.read(o, True)
    if c.choose(d <= 0): c.check('no thread is started for an interval of zero or less', z3.BoolVal(not st and v.f[r['thread']].kw['run'] is None)); return
    c.check('exactly one thread is started for a positive interval', z3.BoolVal(len(st) == 1))
    if len(st) != 1: return
    c.check('the thread is owned by the object', z3.BoolVal(v.f[r['thread']].kw['run'] == st[0].args[0] and not only(c.trace, ('detach',))))
    c.check('work stays allowed', isset(ip, u, v.f[r['flag']]))
def u_thread(ip, u):
    """the thread, one turn from any state"""
    c = ip.c; d = z3.Int('interval'); c.assume(z3.And(d >= 1, d <= 2 ** 40)); o, r = build(ip, u, d); st = only(c.trace, ('start',))
    if len(st) != 1: return
    c.trace.clear(); u.in_thread = True; u.turns = 0
    try: ip.invoke(st[0].args[1], [])
    finally: u.in_thread = False
    c.check('the thread works in a loop', z3.BoolVal(u.turns > 0)); c.check('the thread ends without holding the lock', z3.BoolVal(not c.locks)); c.check('no call outside the turns of the loop', z3.BoolVal(not only(c.trace, ('call',)))); c.check('the thread ends only when work is no longer allowed', z3.Not(isset(ip, u, c.read(o.sub(('f', r['flag'])), True))))
def turn(ip, u, cond, body, step):
    c = ip.c; u.turns += 1; held = list(c.locks); d = z3.Int('interval'); m = u.obj.sub(('f', u.f['mutex'])); cv = u.obj.sub(('f', u.f['cv'])); fl = u.obj.sub(('f', u.flag)); pre = dict(c.store); ends = []
    def once():
        if m not in c.locks: interfere(ip, u)
        if cond is not None and not c.choose(cond()): raise Break()
        try: body()
        except Continue: pass
        if step: step()
    def one():
        ex = None; t0 = len(c.trace)
        try: once()
        except (Break, Return) as e: ex = e
        ev = [e for e in c.trace[t0:] if e.name in ('wait', 'nowait', 'call')]; calls = [i for i, e in enumerate(ev) if e.name == 'call']
        for e in ev:
            if e.name in ('wait', 'nowait'): c.check('the thread waits for the destructor\'s signal', z3.BoolVal(e.args[0] == cv)); c.check('each wait lasts one full interval', z3.BoolVal(False) if e.args[1] is None else e.args[1] == d * 10 ** 6)
        if ex is None:
            c.check('each turn waits, then calls the function exactly once', z3.BoolVal([e.name for e in ev] == ['wait', 'call'])); c.check('a turn leaves the lock as it found it', z3.BoolVal(c.locks == held))
            if ev and ev[0].name == 'wait': c.check('only the end of the interval or the end of work ends a wait', z3.BoolVal(ev[0].args[2] is True))
            for q, v in pre.items():
                if q != u.obj.root and v is not None and q in c.store and not loops.same(v, c.store[q]): raise Unsupported('a turn changes other state')
        else:
            c.check('the last turn does not call the function', z3.BoolVal(not calls)); c.check('the thread ends only when work is no longer allowed', z3.Not(isset(ip, u, c.read(fl, True))))
            raise ex
    ex = None
    outs = c.nested(one); stops = [o for o in outs if o['kind'] in ('break', 'return')]
    if not any(o['kind'] == 'next' for o in outs): c.violated('the function is called again and again')
    if not stops: c.violated('the thread ends when work is no longer allowed'); raise PathEnd()
    o = stops[c.choose_nd(len(stops))] if len(stops) > 1 else stops[0]
    for f in o['pc']: c.assume(f)
    c.store = dict(o['store']); c.locks = list(o['locks']); c.trace += [e for e in o['trace'] if e.name != 'call']
    if o['kind'] == 'return': raise o['ex']
    return True
def u_dtor(ip, u):
    c = ip.c; d = z3.Int('interval'); c.assume(z3.And(d >= -2 ** 40, d <= 2 ** 40)); u.obj = None; o, r = build(ip, u, d); run = c.read(o, True).f[r['thread']].kw['run']; c.trace.clear(); u.armed = True
    m, cv, f = [o.sub(('f', r[k])) for k in ('mutex', 'cv', 'flag')]
    try: dtor_body(ip, o)
    finally: u.armed = False
    ev = [e for e in c.trace if e.name in ('join', 'notify', 'detach', 'lock', 'unlock', 'lowered', 'wait')]; js = [i for i, e in enumerate(ev) if e.name == 'join']
    if run is None: c.check('nothing is waited for when there is no thread', z3.BoolVal(not js)); return
    c.check('the destructor joins the thread', z3.BoolVal(len(js) == 1))
    if len(js) != 1: return
    low = [(i, e) for i, e in enumerate(ev) if e.name == 'lowered']; c.check('work is forbidden before the thread is joined', z3.BoolVal(bool(low) and low[0][0] < js[0]))
    if not low: return
    c.check('work is forbidden under the lock the thread waits with (no lost wake-up)', z3.BoolVal(all(e.args[0] for _, e in low))); c.check('the waiting thread is woken after work was forbidden and before it is joined', z3.BoolVal(any(e.name == 'notify' and e.args[0] == cv and low[-1][0] < i < js[0] for i, e in enumerate(ev))))
    c.check('the lock is free while the thread is joined', z3.BoolVal(m not in ev[js[0]].args[1])); c.check('the destructor does not wait for anything else', z3.BoolVal(not any(e.name == 'wait' for e in ev)))
def dtor_body(ip, o):
    fs = [f for f in ip.ast.methods(f'{PF}::~{PF}') if f.body is not None]
    if len(fs) != 1: raise Unsupported(f'destructor of {PF}')
    ip.run_func(fs[0], o, [])
class DtorUnit(PerUnit):
    armed = False
    def on_reassign(self, ip, d, old, w): pass
    def on_access(self, c, lv, mode):
        if self.armed and isinstance(lv, LV) and lv.root == self.obj.root and lv.path and lv.path[0][1] == self.flag and mode == 'w': c.trace.append(Ev('lowered', self.obj.sub(('f', self.f['mutex'])) in c.locks))
def u_every(ip, u):
    c = ip.c; r = setup(ip, u); d = z3.Int('interval'); c.assume(z3.And(d >= -2 ** 40, d <= 2 ** 40)); fs = [f for f in ip.ast.methods(f'{REG}::flush_every') if f.body is not None]
    if not fs: raise Unsupported('flush_every')
    ip.run_func(fs[0], r, [d]); s = the_section(ip, u, 'the flusher is replaced in one critical section', 'flusher_mutex_'); mk = [e for e in c.trace if e.name == 'made' and e.args[0] == PF]
    if not mk and c.prove(d <= 0): c.check('an interval of zero or less removes the old flusher', hid(s.exit['global_flusher_']) == 0); return
    c.check('one new flusher is made and replaces the old one', z3.BoolVal(len(mk) == 1) if len(mk) != 1 else hid(s.exit['global_flusher_']) == mk[0].args[1].t)
    if len(mk) != 1: return
    a = mk[0].args[2]; c.check('the new flusher has the interval given', z3.BoolVal(False) if len(a) != 2 or not z3.is_expr(a[1]) else a[1] == d)
    if not isinstance(a[0], Closure): raise Unsupported('function of the flusher')
    c.trace.clear(); c.ghost['sections'] = []; ip.invoke(a[0], [])
    ss = sections(ip); c.check('the periodic work flushes every registered logger', z3.BoolVal(len(ss) == 1))
    if len(ss) == 1: c17.visited(ip, ss[0], 'the periodic work flushes every registered logger', 'flush', tr=c.trace)
def units():
    q = PF + '::'
    return [U('periodic: construct', [q + PF], u_ctor, base=PerUnit), U('periodic: thread', [q + PF], u_thread, base=PerUnit), U('periodic: destroy', [q + '~' + PF], u_dtor, base=DtorUnit), U('registry: flush_every', ['registry::flush_every'], u_every, base=RegUnit), U('registry: close', ['registry::close_registry'], c23.u_close, base=c23.PoolRegUnit)]
