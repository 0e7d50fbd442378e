"""C16: every multi-threaded sink formats, writes, flushes and changes its formatter under its lock; the lock is always released."""
from units.sinks import *
MT = ('basic_sink<std::mutex>', 'basic_file_sink<std::mutex>', 'rolling_file_sink<std::mutex>', 'ostream_sink<std::mutex>', 'null_sink<std::mutex>', 'std_sink<static_mutex>', 'ansicolor_sink<static_mutex>')
WORK = ('format', 'fwrite', 'fflush', 'write', 'flush', 'fclose', 'output_', 'flush_', 'set_pattern_', 'set_formatter_', 'file.open', 'file.close', 'file.flush', 'file.write', 'file.size')
class LockUnit(FileContracts):
    def contract(self, cls, name):
        if name == 'get_rolling_filename': return lambda ip, this, args, n, dst: Str(sym_text('rolled', ip.tonum(ip.val(args[0]))), 'string', ip.c.newgen())
        return FileContracts.contract(self, cls, name)
    def on_access(self, c, lv, mode):
        g = c.ghost.get('state')
        if g and isinstance(lv, LV) and lv.root == g[0] and lv.path and lv.path[0][0] == 'f' and lv.path[0][1] in g[1] and g[2] not in c.locks: c.violated('the sink\'s formatter and stream are touched only under its lock', f'{lv.path[0][1]} ({mode})')
    def on_lock(self, ip, key):
        g = ip.c.ghost.get('state')
        if g and key == g[2]: ip.c.ghost['taken'] = ip.c.ghost.get('taken', 0) + 1
def run_locked(name, mk):
    def run(ip, u):
        c = ip.c; s = the_sink(ip, u.cls); key = lock_of(ip, s); o = c.read(s, True); st = changing(u.cls, o)
        args = mk(ip); c.ghost['state'] = (s.root, st, key); c.trace.clear(); exc = outcome(lambda: invoke(ip, u.cls, name, s, args)); c.ghost['state'] = None
        c.check('the lock is released' + (' when an exception leaves' if exc else ''), z3.BoolVal(not c.locks))
        w = [e for e in flatten(c.trace) if e.name in WORK]
        for e in w: c.check(f'{e.name} happens under the sink\'s lock', z3.BoolVal(key in e.kw.get('locks', ())))
        if w: c.check('formatting and writing happen under one hold of the lock', z3.BoolVal(c.ghost.get('taken', 0) == 1))
        if name == 'log' and u.cls.split('<')[0] != 'null_sink' and exc is None: c.check('the message is formatted', z3.BoolVal(any(e.name in ('format', 'output_') for e in w)))
        if name in ('set_pattern', 'set_formatter'):
            h = c.read(formatter_of(ip, s), True); c.check('the formatter is replaced by the one given', h.t == (z3.Int('given') if name == 'set_formatter' else [e.args[0] for e in c.trace if e.name == 'made'][0] if any(e.name == 'made' for e in c.trace) else I(-1)))
    return run
class ShareUnit(LockUnit):
    def contract(self, cls, name):
        if cls is None and name.split('::')[-1] in ('in_terminal', 'is_color_terminal'): return lambda ip, this, args, n, dst: ip.c.fresh_bool(name.split('::')[-1])
        return LockUnit.contract(self, cls, name)
def changing(cls, o):
    """fields that change after construction"""
    roll = cls.startswith('rolling'); return {k for k, v in o.f.items() if isinstance(v, Parts) or isinstance(v, Handle) and (v.kind == 'formatter' or roll) or roll and z3.is_expr(v) and not k.startswith('max_')}
def u_shared(ip, u):
    c = ip.c; keys = []
    for cls, st in (('std_sink<static_mutex>', 'stdout'), ('ansicolor_sink<static_mutex>', 'stderr'), ('std_sink<static_mutex>', 'stderr'), ('ansicolor_sink<static_mutex>', 'stdout')):
        lv = root(ip, Obj(cls, {}), 'sink'); c.assume(z3.Int('file_' + st) > 0); ctor(ip, cls, lv, [Handle('FILE', z3.Int('file_' + st))], nparams=1); keys.append(lock_of(ip, lv))
        if len(keys) > 1: c.check('sinks on standard streams share one lock', z3.BoolVal(keys[-1] == keys[0]))
    for cls in ('stdout_sink<static_mutex>', 'stderr_sink<static_mutex>', 'stdout_ansicolor_sink<static_mutex>', 'stderr_ansicolor_sink<static_mutex>'):
        lv = root(ip, Obj(cls, {}), 'sink'); ctor(ip, cls, lv, [], nparams=0); c.check('sinks on standard streams share one lock', z3.BoolVal(lock_of(ip, lv) == keys[0])); c.check('the sink writes to its own stream', c.read(lv, True).f['file_'].t == z3.Int('file_' + cls[:6]))
    c.check('every thread uses that lock', z3.BoolVal(keys[0].root not in c.ghost.get('tls', ())))
def flatten(tr):
    out = []
    for e in tr:
        if isinstance(e, FE):
            for _, t in e.alts: out += flatten(t)
        else: out.append(e)
    return out
def find_in(ip, cls, name): return [f for f in ip.ast.methods(f'{cls}::{name}') if f.body is not None]
def invoke(ip, cls, name, this, args):
    for k in lineage(ip, cls):
        fs = [f for f in find_in(ip, k, name) if len(f.params) == len(args)]
        if fs: return ip.run_func(fs[0], this, list(args))
    raise Unsupported(f'{cls}::{name}')
def a_log(ip): return [fresh_msg(ip, 'm')[0]]
def a_none(ip): return []
def a_pat(ip): return [text_root(ip, 'text')]
def a_fmt(ip): ip.c.assume(z3.Int('given') > 0); return [root(ip, Handle('formatter', z3.Int('given')), 'given')]
def units():
    out = []
    for cls in MT:
        if cls.startswith('basic_sink'): continue
        for name, mk in (('log', a_log), ('flush', a_none), ('set_pattern', a_pat), ('set_formatter', a_fmt)): out.append(U(f'{cls} {name}', [f'{cls}::{name}'], run_locked(name, mk), base=LockUnit, cls=cls))
    out.append(U('one lock for the standard streams', ['static_mutex::mutex', 'std_sink<static_mutex>::std_sink', 'ansicolor_sink<static_mutex>::ansicolor_sink'], u_shared, base=ShareUnit))
    out.append(U('ansicolor_sink set_level_color', ['ansicolor_sink<static_mutex>::set_level_color'], run_locked('set_level_color', lambda ip: [lvl(ip, 'l'), text_root(ip, 'text')]), base=LockUnit, cls='ansicolor_sink<static_mutex>'))
    from units import factories
    return out + factories.units(('lock',), list(factories.SINKS))
