"""C17: the registry is a map from names to loggers, plus one default logger."""
from units.registry import *
from units.flags import enum_value
def logger_arg(ip, nm='given', null=False):
    c = ip.c; h = z3.Int(nm); c.assume(h >= 0 if null else h > 0); return root(ip, Handle('logger', h), nm), h
def name_arg(ip, nm='name'): return text_root(ip, nm), z3.Int('tid_' + nm)
def quiet(ip, what): ip.c.check(f'{what}: no logger is configured, flushed or called', z3.BoolVal(not [e for e in flatten(ip.c.trace) if e.name in SETTERS + ('callback',)]))
def flatten(tr):
    for e in tr:
        if e.name == 'each':
            for _, t in e.args[2]: yield from flatten(t)
        elif e.name == 'some': yield from flatten(e.args[1])
        else: yield e
def std_exc(ip, exc, what): ip.c.check(what, z3.BoolVal(exc is not None and exc.kind == 'std'))
def no_exc(ip, exc, what='no exception'):
    if exc is not None: ip.c.violated(what); raise PathEnd()
def u_register(ip, u):
    c = ip.c; r = setup(ip, u); a, h = logger_arg(ip); _, exc = attempt(lambda: call(ip, REG, 'register_logger', r, [a])); s = the_section(ip, u); n = LNAME(h); inv_at(c, mp(s.entry), n); quiet(ip, 'register')
    if c.choose(z3.Select(mp(s.entry), n) != -1): std_exc(ip, exc, 'registering under a name that is taken fails'); same_state(ip, s, 'a registration that fails'); return
    no_exc(ip, exc, 'registering under a free name succeeds'); map_is(ip, s, 'the logger is found under its name, all others are as before', lambda k, old: z3.If(k == n, h, old)); same_state(ip, s, 'registration', ('loggers_',))
def u_get(ip, u):
    c = ip.c; r = setup(ip, u); a, n = name_arg(ip); v = ip.val(call(ip, REG, 'get_logger', r, [a])); s = the_section(ip, u); quiet(ip, 'lookup'); same_state(ip, s, 'lookup'); inv_at(c, mp(s.entry), n)
    e = z3.Select(mp(s.entry), n)
    if hid(v) is None: raise Unsupported('result of get_logger')
    c.check('lookup returns the logger registered under the name, or none', hid(v) == z3.If(e == -1, 0, e))
def u_remove(ip, u):
    c = ip.c; r = setup(ip, u); a, n = name_arg(ip); call(ip, REG, 'remove_logger', r, [a]); s = the_section(ip, u); quiet(ip, 'removal'); map_is(ip, s, 'exactly the name is removed', lambda k, old: z3.If(k == n, I(-1), old))
    d = dflt(s.entry); c.check('the default logger is cleared iff it bears the name', hid(s.exit['default_logger_']) == z3.If(z3.And(d > 0, LNAME(d) == n), 0, d)); same_state(ip, s, 'removal', ('loggers_', 'default_logger_'))
def u_get_default(ip, u):
    r = setup(ip, u); v = ip.val(call(ip, REG, 'get_default_logger', r)); s = the_section(ip, u); quiet(ip, 'get_default_logger'); same_state(ip, s, 'get_default_logger'); ip.c.check('the default logger is returned', hid(v) == dflt(s.entry))
def u_set_default(ip, u):
    c = ip.c; r = setup(ip, u); a, h = logger_arg(ip, null=True); call(ip, REG, 'set_default_logger', r, [a]); s = the_section(ip, u); quiet(ip, 'set_default_logger'); n = LNAME(h)
    c.check('the default logger is the one given', hid(s.exit['default_logger_']) == h); map_is(ip, s, 'it is also registered under its name, all others are as before', lambda k, old: z3.If(z3.And(h > 0, k == n), h, old)); same_state(ip, s, 'set_default_logger', ('loggers_', 'default_logger_'))
def u_remove_all(ip, u):
    c = ip.c; r = setup(ip, u); call(ip, REG, 'remove_all', r); s = the_section(ip, u); quiet(ip, 'remove_all'); map_is(ip, s, 'no logger is registered any more', lambda k, old: I(-1)); c.check('there is no default logger any more', hid(s.exit['default_logger_']) == 0); same_state(ip, s, 'remove_all', ('loggers_', 'default_logger_'))
def u_auto(ip, u):
    c = ip.c; r = setup(ip, u); call(ip, REG, 'set_auto_register_logger', r, [z3.Bool('flag')]); s = the_section(ip, u); quiet(ip, 'set_auto_register_logger'); c.check('automatic registration is set', ip.tobool(s.exit['auto_register_logger_']) == z3.Bool('flag')); same_state(ip, s, 'set_auto_register_logger', ('auto_register_logger_',))
def visited(ip, s, what, name, extra=lambda e: None, tr=None):
    c = ip.c
    def want(k, h, t):
        evs = [e for e in flatten(t) if e.name in SETTERS + ('callback',)]
        c.check(f'{what}: each exactly once', z3.BoolVal([e.name for e in evs] == [name]))
        if [e.name for e in evs] == [name]: c.check(f'{what}: that very logger', evs[0].args[0].t == h); extra(evs[0])
    rest = each(ip, s.trace if tr is None else tr, what, mp(s.entry), want); c.check(f'{what}: and no other', z3.BoolVal(not [e for e in flatten(rest) if e.name in SETTERS + ('callback',)]))
def u_flush_all(ip, u):
    r = setup(ip, u); call(ip, REG, 'flush_all', r); s = the_section(ip, u); same_state(ip, s, 'flush_all'); visited(ip, s, 'every registered logger is flushed', 'flush', tr=ip.c.trace)
def u_exec_all(ip, u):
    c = ip.c; r = setup(ip, u); f = root(ip, Opaque('callback'), 'func'); _, exc = attempt(lambda: call(ip, REG, 'exec_all', r, [f])); s = the_section(ip, u); same_state(ip, s, 'exec_all')
    if exc is not None: c.check('exec_all fails only when the function does', z3.BoolVal(any(e.name in ('thrown', 'thrown_other') for e in flatten(c.trace)))); return
    visited(ip, s, 'the function is called for every registered logger', 'callback', tr=c.trace)
def u_ctor(ip, u):
    c = ip.c; need_fields(ip, REG, u.FIELDS); r = root(ip, Obj(REG, {}), 'registry'); u.reg = r; u.constructing = True
    try: ctor(ip, REG, r, [], nparams=0)
    finally: u.constructing = False
    o = c.read(r, True).f; m = o['loggers_'].kw['m']; d = hid(o['default_logger_']); n = z3.Int('tid:default_logger'); k = c.fresh_int('k')
    made = c.ghost.get('made', {}); lg = [x for x, (t, a) in made.items() if t == 'logger' and a and isinstance(a[0], Rope) and a[0].concrete() == 'default_logger']
    c.check('a new registry holds the default logger "default_logger" and no other', z3.And(d > 0, z3.BoolVal(str(d) in lg), z3.Select(m, k) == z3.If(k == n, d, -1)))
    g = hid(o['global_formatter_']); t = made.get(str(g)); c.check('the global formatter of a new registry is the default one', z3.BoolVal(t is not None and t[0] == 'pattern_formatter' and (not t[1] or isinstance(t[1][0], Rope) and t[1][0].concrete() == '%+'))); c.check_text('the global pattern of a new registry is "%+"', o['global_pattern_'].r, rope('%+'))
    c.check('initial global settings', z3.And(o['global_log_level_'] == enum_value(ip, 'info', 'level_enum'), o['global_flush_level_'] == enum_value(ip, 'off', 'level_enum'), ip.tobool(o['auto_register_logger_']))); c.check('there is no pool and no flusher yet', z3.And(hid(o['thread_pool_']) == 0, hid(o['global_flusher_']) == 0))
class InstUnit(RegUnit):
    def static_value(self, ip, d): return Obj(REG, {}) if norm(strip_cv(qt(d))).split('::')[-1] == REG else RegUnit.static_value(self, ip, d)
def u_instance(ip, u):
    """every call, from whatever thread, gives the one registry"""
    c = ip.c; a = call(ip, REG, 'instance', None); b = call(ip, REG, 'instance', None)
    if not isinstance(a, LV) or not str(a.root).startswith('static:') or a.path: raise Unsupported('where the registry lives')
    c.check('every call gives the same registry', z3.BoolVal(a == b)); c.check('all threads share the registry', z3.BoolVal(a.root not in c.ghost.get('tls', ())))
def K(n, f, r, **kw): return U(n, ['registry::' + f], r, base=RegUnit, **kw)
def units():
    return [K('registry: register', 'register_logger', u_register), K('registry: get', 'get_logger', u_get), K('registry: remove', 'remove_logger', u_remove), K('registry: get default', 'get_default_logger', u_get_default), K('registry: set default', 'set_default_logger', u_set_default),
            K('registry: remove all', 'remove_all', u_remove_all), K('registry: auto registration', 'set_auto_register_logger', u_auto), K('registry: flush all', 'flush_all', u_flush_all), K('registry: exec all', 'exec_all', u_exec_all, throws=True), K('registry: construct', 'registry', u_ctor), U('registry: instance', ['registry::instance'], u_instance, base=InstUnit)]
