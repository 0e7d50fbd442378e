"""The functions that make a logger with a sink: they make the sink they name, from the arguments they are given; shared by C12, C13, C15, C16."""
from units.c24 import *
SINKS = {'basic_file': 'basic_file_sink', 'rolling_file': 'rolling_file_sink', 'stdout': 'stdout_sink', 'stderr': 'stderr_sink', 'stdout_color': 'stdout_ansicolor_sink', 'stderr_color': 'stderr_ansicolor_sink', 'ostream': 'ostream_sink', 'null': 'null_sink'}
REAL, NONE = ('std::mutex', 'mutex', 'static_mutex', 'std::recursive_mutex', 'recursive_mutex'), ('null_mutex', 'static_nullmutex')
class FactoryUnit(PubUnit):
    stubbed = ('instance', 'get_thread_pool', 'register_thread_pool', 'initialize_logger'); outcomes = 1
def split(k):
    m = re.match(r'(\w+)<(.*)>$', k)
    if not m: raise Unsupported(f'class of a sink: {k}')
    return m.group(1), m.group(2)
def arguments(ip, kind, fn):
    """what the function is called with, and what the sink must be made from"""
    c = ip.c
    if kind == 'basic_file':
        f = text_root(ip, 'filename'); t = FALSE if '_default_' in fn else z3.Bool('truncate'); return [f] + ([] if '_default_' in fn else [t]), [sym_text('filename'), t]
    if kind == 'rolling_file': f = text_root(ip, 'filename'); a, b = [c.fresh_int(x, 0, 2 ** 64 - 1) for x in ('max_size', 'max_num')]; return [f, root(ip, a, 'a'), root(ip, b, 'b')], [sym_text('filename'), a, b]
    if kind == 'ostream': o = root(ip, Handle('ostream', z3.Int('given_stream')), 'o'); return [o], [Handle('ostream', z3.Int('given_stream'))]
    return [], []
def u_make(fn, kind, say):
    """say: which parts of the statement are checked (class, lock, args)"""
    def run(ip, u):
        c = ip.c; u.reg = root(ip, Obj(REG, {}), 'registry'); p = z3.Int('current'); c.assume(p >= 0); c.assume(z3.And(c23.QS(p) >= 1, c23.TS(p) >= 1)); c.ghost['current'] = p
        c.assume(z3.Or(*[c23.QT(p) == c23.enum_value(ip, k, 'msg_queue_type') for k in c23.KIND.values()]))
        fs = [f for f in ip.ast.byqual.get(fn, []) if f.body is not None]
        if len(fs) != 1: raise Unsupported(f'{fn}: {len(fs)}')
        args, want = arguments(ip, kind, fn); r, exc = attempt(lambda: ip.run_func(fs[0], None, [text_root(ip, 'name')] + args)); c.check('making a logger does not throw when its parts do not', z3.BoolVal(exc is None))
        sk = [e for e in flatten(c.trace) if e.name == 'made' and e.args[1].kind == 'sink']; c.check('one sink is made', z3.BoolVal(len(sk) == 1))
        if len(sk) != 1: return
        cls, lock = split(sk[0].args[0]); a = sk[0].args[2]
        if cls not in SINKS.values() or lock not in REAL + NONE: raise Unsupported(f'class of a sink: {cls}<{lock}>')
        if 'class' in say: c.check('the sink is the one the function names', z3.BoolVal(cls == SINKS[kind]), detail=f'{cls}')
        if 'lock' in say and fn.endswith('_mt'): c.check('a sink for several threads has a lock', z3.BoolVal(lock in REAL), detail=lock)
        if 'lock' in say and fn.endswith('_mt') and kind.startswith('std'): c.check('a sink of a standard stream has the lock all of them share', z3.BoolVal(lock == 'static_mutex'), detail=lock)
        if 'args' in say and cls == SINKS[kind]:
            if kind == 'basic_file' and len(a) == 1: a = a + [FALSE]       # the sink's own default
            if len(a) != len(want):
                if kind == 'ostream': want = want[:len(a)]
                if len(a) != len(want): raise Unsupported('arguments of the sink')
            for i, (x, y) in enumerate(zip(a, want)):
                nm = ['the sink is on the file named', 'the sink gets the mode asked for' if kind == 'basic_file' else 'the sink gets the size limit given', 'the sink gets the number of files given'][i]
                if isinstance(y, Rope): c.check_text(nm, x, y)
                elif isinstance(y, Handle): c.check('the sink is on the stream given', z3.BoolVal(isinstance(x, Handle)) if not isinstance(x, Handle) else x.t == y.t)
                elif z3.is_bool(y): c.check(nm, ip.tobool(x) == y)
                else: c.check(nm, ip.tonum(x) == y)
    return run
def units(say, kinds, names=('fac', 'mk')):
    out = []
    for k in kinds:
        vs = [f'fac_{k}_', f'fac_{k}_async_'] if k not in ('ostream', 'null') else []
        if k == 'basic_file': vs.append('fac_basic_file_default_')
        for v in vs + [f'mk_{k}_']:
            for m in (('mt',) if say == ('lock',) else ('mt', 'st')):
                if v.split('_')[0] in names: out.append(U(f'made by {v}{m}', [f'{k}_logger_{m}' if v.startswith('fac') else 'create'], u_make(v + m, k, say), base=FactoryUnit))
    return out
