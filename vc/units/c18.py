"""C18: global settings reach every registered logger and every logger initialised later."""
from units.registry import *
import units.c17 as c17
from units.c17 import flatten, attempt, logger_arg, name_arg, std_exc, no_exc
def sets(tr): return [e for e in flatten(tr) if e.name in SETTERS + ('callback',)]
def u_global(setter, field, fn):
    def run(ip, u):
        c = ip.c; r = setup(ip, u); v = lvl(ip, 'wanted'); call(ip, REG, fn, r, [v]); s = the_section(ip, u)
        c.check(f'{fn}: the global value is the one given', s.exit[field] == v); same_state(ip, s, fn, (field,))
        c17.visited(ip, s, f'{fn}: reaches every registered logger', setter, lambda e: c.check(f'{fn}: with the value given', e.args[1] == v))
    return run
def gets_own(ip, what, f, k, h, t):
    """one visit: the logger gets a formatter of its own that formats like f"""
    c = ip.c; ev = [e for e in flatten(t) if e.name in SETTERS]
    c.check(f'{what}: each logger gets one formatter', z3.BoolVal([e.name for e in ev] == ['set_formatter']))
    if [e.name for e in ev] != ['set_formatter']: return
    e = ev[0]; c.check(f'{what}: that very logger', e.args[0].t == h); g = hid(e.args[1]); mine = [x.args[1].t for x in flatten(t) if x.name == 'clone'] + [x.args[1].t for x in flatten(t) if x.name == 'made' and x.args[1].kind == 'formatter']
    c.check(f'{what}: it formats like the global one', z3.And(g > 0, LIKE(g) == f)); c.check(f'{what}: no two loggers share a formatter', z3.BoolVal(any(x.eq(g) for x in mine)))
def reach(ip, s, what, f):
    rest = each(ip, s.trace, f'{what}: reaches every registered logger', mp(s.entry), lambda k, h, t: gets_own(ip, what, f, k, h, t)); ip.c.check(f'{what}: and no other', z3.BoolVal(not sets(rest)))
def u_gformatter(ip, u):
    c = ip.c; r = setup(ip, u); g = z3.Int('given'); c.assume(g > 0); call(ip, REG, 'set_global_formatter', r, [root(ip, Handle('formatter', g), 'given')]); s = the_section(ip, u)
    c.check('set_global_formatter: the global formatter formats like the one given', z3.And(hid(s.exit['global_formatter_']) > 0, LIKE(hid(s.exit['global_formatter_'])) == LIKE(g))); same_state(ip, s, 'set_global_formatter', ('global_formatter_',)); reach(ip, s, 'set_global_formatter', LIKE(g))
def u_gpattern(ip, u):
    c = ip.c; r = setup(ip, u); p = text_root(ip, 'text'); call(ip, REG, 'set_global_pattern', r, [p]); ss = sections(ip); c.check('the locks are released', z3.BoolVal(not c.locks))
    made = [z3.Int(h) if False else e.args[1].t for e in flatten(c.trace) if e.name == 'made' and e.args[0] == 'pattern_formatter' and e.args[2] and isinstance(e.args[2][0], Rope) and Cmp(c).eq(e.args[2][0].segs, sym_text('text').segs) is True]
    if not made: c.violated('set_global_pattern: a formatter is made from the pattern given'); return
    pats = fm = 0
    for s in ss:
        but = []
        if Cmp(c).eq(s.exit['global_pattern_'].r.segs, sym_text('text').segs) is True: pats += 1; but.append('global_pattern_')
        g = hid(s.exit['global_formatter_'])
        if any(c.prove(LIKE(g) == LIKE(m)) for m in made): fm += 1; but.append('global_formatter_'); reach(ip, s, 'set_global_pattern', LIKE(g))
        else: c.check('set_global_pattern: loggers are reached when the formatter is set', z3.BoolVal(not sets(s.trace)))
        same_state(ip, s, 'set_global_pattern', tuple(but))
    c.check('set_global_pattern: the global pattern and formatter are those given, once', z3.BoolVal(pats >= 1 and fm == 1))
def u_named(fn, setter, text=False):
    def run(ip, u):
        c = ip.c; r = setup(ip, u); a, n = name_arg(ip); v = text_root(ip, 'text') if text else lvl(ip, 'wanted'); _, exc = attempt(lambda: call(ip, REG, fn, r, [a, v])); ss = sections(ip); c.check('the locks are released', z3.BoolVal(not c.locks))
        if not ss: c.violated(f'{fn} looks the name up under the lock'); return
        for s in ss: same_state(ip, s, fn)
        s = ss[-1]; e = z3.Select(mp(s.entry), n); inv_at(c, mp(s.entry), n); ev = sets(c.trace)
        if c.choose(e == -1): std_exc(ip, exc, f'{fn}: fails when no logger bears the name'); c.check(f'{fn}: changes nothing when it fails', z3.BoolVal(not ev)); return
        no_exc(ip, exc, f'{fn}: succeeds for a registered name'); c.check(f'{fn}: exactly one logger is set, once', z3.BoolVal([x.name for x in ev] == [setter]))
        if [x.name for x in ev] != [setter]: return
        c.check(f'{fn}: it is the logger of that name', ev[0].args[0].t == e)
        if text: c.check_text(f'{fn}: the pattern given', ev[0].args[1], sym_text('text'))
        else: c.check(f'{fn}: the value given', ev[0].args[1] == v)
    return run
def u_init(ip, u):
    c = ip.c; r = setup(ip, u); a, h = logger_arg(ip); _, exc = attempt(lambda: call(ip, REG, 'initialize_logger', r, [a])); s = the_section(ip, u); en = s.entry; n = LNAME(h); inv_at(c, mp(en), n); ev = sets(c.trace)
    for x in ev: c.check('initialize_logger: only the logger given is configured', x.args[0].t == h)
    c.check('initialize_logger: it is neither flushed nor called', z3.BoolVal(all(x.name.startswith('set_') for x in ev)))
    fs = [x for x in ev if x.name in ('set_formatter', 'set_pattern')]
    if not fs or fs[-1].name != 'set_formatter': c.violated('initialize_logger: the logger ends up with the global formatter')
    else:
        g = hid(fs[-1].args[1]); c.check('initialize_logger: the logger ends up with the global formatter', z3.And(g > 0, LIKE(g) == LIKE(hid(en['global_formatter_'])))); c.check('initialize_logger: the formatter is its own', z3.BoolVal(any(e.name == 'clone' and e.args[1].t.eq(g) for e in flatten(c.trace))))
    for nm, f in (('set_log_level', 'global_log_level_'), ('set_flush_level', 'global_flush_level_')):
        xs = [x for x in ev if x.name == nm]
        if not xs: c.violated(f'initialize_logger: {f} is applied')
        else: c.check(f'initialize_logger: {f} is applied', xs[-1].args[1] == en[f])
    same_state(ip, s, 'initialize_logger', ('loggers_',)); auto = ip.tobool(en['auto_register_logger_'])
    taken = z3.Select(mp(en), n) != -1
    if c.choose(z3.And(auto, taken)): std_exc(ip, exc, 'initialize_logger: registration under a taken name fails'); same_state(ip, s, 'initialize_logger under a taken name'); return
    no_exc(ip, exc, 'initialize_logger: succeeds'); map_is(ip, s, 'initialize_logger: registered iff automatic registration is on', lambda k, old: z3.If(z3.And(auto, k == n), h, old))
def K(n, f, r, **kw): return U(n, ['registry::' + f], r, base=RegUnit, **kw)
def units():
    return [K('globals: level', 'set_global_log_level', u_global('set_log_level', 'global_log_level_', 'set_global_log_level')), K('globals: flush level', 'set_global_flush_level', u_global('set_flush_level', 'global_flush_level_', 'set_global_flush_level')),
            K('globals: formatter', 'set_global_formatter', u_gformatter), K('globals: pattern', 'set_global_pattern', u_gpattern),
            K('named: pattern', 'set_pattern', u_named('set_pattern', 'set_pattern', True)), K('named: level', 'set_log_level', u_named('set_log_level', 'set_log_level')), K('named: flush level', 'set_flush_level', u_named('set_flush_level', 'set_flush_level')),
            K('globals: initialise', 'initialize_logger', u_init)]
