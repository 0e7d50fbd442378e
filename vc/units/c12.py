"""C12: the rolling sink keeps every message whole in one file, bounds the files and numbers them forward."""
from units.sinks import *
from units.c16 import invoke, flatten, LockUnit
CLS = 'rolling_file_sink<std::mutex>'
FIELDS = ('file_', 'base_fname_', 'file_index_', 'cur_file_size_', 'max_file_size_', 'max_file_num_')
I0, S0, M, N, F0 = z3.Int('file_index_'), z3.Int('cur_file_size_'), z3.Int('max_file_size_'), z3.Int('max_file_num_'), z3.Int('file_')
K = z3.Int('some_number')
class RollUnit(LockUnit):
    """get_rolling_filename through its contract (C14): a text that depends on the number alone and differs for different numbers"""
class NoFail(RollUnit): io_fails = False; format_fails = False
def rolling(ip):
    """an arbitrary rolling sink: its stream is open on file number file_index_, which has cur_file_size_ bytes"""
    c = ip.c; need_fields_of(ip); s = the_sink(ip, CLS); c.assume(z3.And(F0 > 0, M >= 1, M < 2 ** 62, N >= 1, N <= 10000, I0 >= 1, I0 <= N, S0 >= 0, S0 < 2 ** 62)); c.ghost['content'] = S0; return s
def need_fields_of(ip):
    have = [f['name'] for f in ip.ast.classes[CLS].fields]
    if set(have) != set(FIELDS): raise Unsupported(f'representation of {CLS} changed: {have}')
def chosen(c, lo, j, what):
    """j is the smallest number from lo up whose file does not exist, or the last number"""
    c.check(f'{what}: the number stays within 1..max', z3.And(j >= 1, j <= N)); c.check(f'{what}: the number never goes back', j >= lo)
    c.check(f'{what}: every number passed over is taken', Implies(z3.And(K >= lo, K < j), EXISTS(K)))
    c.check(f'{what}: a file that exists is truncated only when it is the last', z3.Or(j == N, z3.Not(EXISTS(j))))
def valid(ip, s, size, f, i, c):
    o = c.read(s, True); c.check('the size counter is the size of the current file', o.f['cur_file_size_'] == size); c.check('the number is that of the current file', o.f['file_index_'] == i)
    c.check('the stream is open on the current file', o.f['file_'].t == f if isinstance(o.f['file_'], Handle) else FALSE)
    for k, v in (('max_file_size_', M), ('max_file_num_', N)): c.check('the limits are kept', o.f[k] == v)
    c.check_text('the base name is kept', text_of(ip, o.f['base_fname_']), sym_text('base_fname_'))
def u_output(ip, u):
    c = ip.c; s = rolling(ip); fm = c.read(formatter_of(ip, s), True).t; m, spec, hold = fresh_msg(ip, 'm'); c.trace.clear(); exc = outcome(lambda: invoke(ip, CLS, 'log', s, [m]))
    t = flatten(c.trace); T = sym_text(FMT, I(1)); L = T.len(); fe = [e for e in t if e.name == 'format']
    c.check('the message is formatted once', z3.BoolVal(len(fe) == 1))
    if fe: c.check('the message itself is formatted', z3.BoolVal(fe[0].args[1] == m)); c.check('by the formatter of the sink', fe[0].args[0] == fm)
    w = [e for e in t if e.name == 'file.write']; op = [e for e in t if e.name == 'file.open']; cl = [e for e in t if e.name == 'file.close']; od = [e for e in t if e.name == 'file.opened']
    if any(e.name in ('thrown', 'thrown_other') for e in t): c.check('a message that cannot be formatted writes nothing and rolls nothing', z3.BoolVal(exc is not None and not w and not op and not cl)); valid(ip, s, S0, F0, I0, c); return
    failed = any(e.name == 'error' for e in t); c.check('a failure is reported, and only a failure', z3.BoolVal(failed == (exc is not None)))
    c.check('the message is written at most once', z3.BoolVal(len(w) <= 1)); c.check('at most one roll for a message', z3.BoolVal(len(op) <= 1))
    for e in w: c.check_text('the message is written whole', e.args[1], T)
    if failed:
        if w: c.check('an error is raised while writing only after the write was tried', z3.BoolVal(t.index(w[0]) < [i for i, e in enumerate(t) if e.name == 'error'][-1]))
        o = c.read(s, True); i = o.f['file_index_']; c.check('after a failure the number is still within 1..max and not lower', z3.And(i >= I0, i <= N)); return
    c.check('the message is written once', z3.BoolVal(len(w) == 1))
    if len(w) != 1: return
    if op:
        i = op[0].args[0]; f = od[0].args[0] if od else I(-1)
        c.check('it rolls only when the message does not fit', S0 + L > M); c.check('no empty file is left behind by a roll', S0 > 0)
        c.check('the old file is closed before the next is opened', z3.BoolVal(len(cl) == 1 and t.index(cl[0]) < t.index(op[0]))); 
        if cl: c.check('it is the old file that is closed', cl[0].args[0] == F0)
        chosen(c, I0, i, 'roll'); c.check('the next file is started empty', op[0].args[1]); c.check('the message goes to the new file', w[0].args[0] == f); size = L
        c.check('the write follows the roll', z3.BoolVal(t.index(op[0]) < t.index(w[0])))
    else:
        i = I0; f = F0; c.check('the message goes to the current file', w[0].args[0] == F0); c.check('the current file stays open', z3.BoolVal(not cl)); size = S0 + L
    valid(ip, s, size, f, i, c); c.check('no file exceeds the limit unless it holds a single message', z3.Or(size <= M, size == L))
def u_flush(ip, u):
    c = ip.c; s = rolling(ip); c.trace.clear(); exc = outcome(lambda: invoke(ip, CLS, 'flush', s, [])); f = [e for e in flatten(c.trace) if e.name.startswith('file.')]
    c.check('flushing flushes the current file', z3.BoolVal([e.name for e in f] == ['file.flush'])); 
    if f: c.check('its own file', f[0].args[0] == F0)
    c.check('a failure is reported, and only a failure', z3.BoolVal((exc is not None) == any(e.name == 'error' for e in flatten(c.trace)))); valid(ip, s, S0, F0, I0, c)
def u_ctor(ip, u):
    c = ip.c; need_fields_of(ip); b = text_root(ip, 'base_fname_'); c.assume(z3.And(M >= 0, M < 2 ** 64, N >= 1, N < 2 ** 64)); lv = root(ip, Obj(CLS, {}), 'sink'); c.trace.clear(); exc = outcome(lambda: ctor(ip, CLS, lv, [b, M, N], nparams=3))
    t = flatten(c.trace); op = [e for e in t if e.name == 'file.open']; bad = z3.Or(M == 0, N > 10000)
    if not op: c.check('only a wrong limit is rejected', bad); c.check('a wrong limit is rejected with an exception', z3.BoolVal(exc is not None)); return
    c.check('a limit of zero bytes or more than 10000 files is rejected', z3.Not(bad)); c.check('one file is opened', z3.BoolVal(len(op) == 1)); chosen(c, I(1), op[0].args[0], 'construction'); c.check('the file is started empty', op[0].args[1])
    if exc is not None: c.check('only a failure is reported', z3.BoolVal(any(e.name == 'error' for e in t))); return
    c.check_text('the sink reports the base name given', text_of(ip, ip.val(call(ip, CLS, 'base_filename', lv))), sym_text('base_fname_'))
    od = [e for e in t if e.name == 'file.opened']; valid(ip, lv, I(0), od[0].args[0] if od else I(-1), op[0].args[0], c)
def dtor_of(cls, mk):
    def run(ip, u):
        c = ip.c; s = mk(ip, cls); f = c.read(s, True).f['file_'].t; c.trace.clear(); exc = outcome(lambda: ip.run_dtor(s)); t = [e for e in flatten(c.trace) if e.name.startswith('file.')]
        c.check('destruction does not throw', z3.BoolVal(exc is None)); cl = [e for e in t if e.name == 'file.close']; c.check('the file is closed once', z3.BoolVal(len(cl) == 1))
        if cl: c.check('it is its own file', cl[0].args[0] == f); c.check('nothing is done with the file after it is closed', z3.BoolVal(t[-1].name == 'file.close'))
        rep = [e for e in flatten(c.trace) if e.name == 'report']; er = [e for e in flatten(c.trace) if e.name == 'error']; c.check('each failure is reported', z3.BoolVal(len(rep) == len(er)))
    return run
def units():
    K_ = lambda n, names, run, b=RollUnit, **kw: U('rolling ' + n, [f'{CLS}::{x}' for x in names], run, base=b, **kw)
    return [K_('output', ['output_', 'roll_file_', 'flush_'], u_output), K_('flush', ['flush_'], u_flush), K_('constructor', ['rolling_file_sink'], u_ctor), K_('destructor', ['~rolling_file_sink'], dtor_of(CLS, lambda ip, cls: rolling(ip)))] + __import__('units.factories', fromlist=['units']).units(('class', 'args'), ['rolling_file'])
