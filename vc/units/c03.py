"""C03: log_msg_buf and async_msg own their texts and keep every field."""
from units.common import *

class MsgUnit(Unit):
    handle_kinds = frozenset(['async_logger', 'promise'])
    def lib_construct(self, ip, t, args, ctype):
        if t.startswith('std::promise<'):
            if not args: return Handle('promise', ip.c.fresh_int('promise', 1))
            v = ip.val(args[0])
            if not isinstance(v, Handle): return None
            if '&&' not in (ctype or ''): raise Unsupported('copy of a promise')
            ip.c.write(args[0], Handle('promise', I(0))); return v
    def contract(self, cls, name):
        if name.endswith('thread_id') and cls is None: return lambda ip, this, args, n, dst: z3.Int('current_thread')

def is_mv(f): return '&&' in f.type
def par(*types): return lambda f: len(f.params) == len(types) and all(t in p['type']['qualType'] for t, p in zip(types, f.params))
def nothing(ip, v):
    if z3.is_expr(v): return v == 0
    if isinstance(v, Ptr): return z3.BoolVal(v.t is None)
    return z3.BoolVal(v.src is None or ip.c.prove(text_of(ip, v).len() == 0))
def u_ctor_msg(ip, u):
    c = ip.c; need_fields(ip, 'log_msg', MSG_FIELDS)
    a, b = text_root(ip, 'name'), text_root(ip, 'text'); f = fresh_scalars(ip, 'x')
    m = root(ip, Obj('log_msg', {}), 'm'); loc = root(ip, f['loc'], 'loc'); k = c.choose_nd(3)
    vn, vt = root(ip, view_lv(ip, a), 'vn'), root(ip, view_lv(ip, b), 'vt')
    args = [[f['time'], loc, f['level'], vt, vn], [loc, f['level'], vt, vn], [f['level'], vt, vn]][k]
    ctor(ip, 'log_msg', m, args, par(*[['time_point', 'source_loc', 'level', 'view', 'view'], ['source_loc', 'level', 'view', 'view'], ['level', 'view', 'view']][k])); o = c.read(m, True)
    spec = MsgSpec(sym_text('name'), sym_text('text'), dict(f, tid=z3.Int('current_thread')))
    if k > 0:
        now = [e.args[0] for e in c.trace if e.name == 'now']; c.check('the clock is read once', z3.BoolVal(len(now) == 1))
        if now: spec.f['time'] = now[0]
    if k == 2:
        l = o.f['loc'].f; spec.f['loc'] = o.f['loc']
        c.check('no source location when none is given', z3.And(*[nothing(ip, v) for v in l.values()]))
    check_fields(ip, o, spec, 'log_msg'); check_texts(ip, o, spec, 'log_msg')
def B(): return 'log_msg_buf'
def u_from_msg(ip, u):
    c = ip.c; s, spec, hold = fresh_msg(ip); d = root(ip, Obj(B(), {}), 'd'); before = c.read(s, True)
    ctor(ip, B(), d, [s], lambda f: norm(f.params[0]['type']['qualType']) == 'const log_msg &', 1)
    c.check('the original is unchanged', unchanged(ip, before, c.read(s, True)))
    for h in hold: c.store[h.root] = None      # the original texts are destroyed
    check_own(ip, d, spec, 'made from a message')
def u_copy(ip, u):
    c = ip.c; s, spec = own_msg(ip, B(), 's'); d = root(ip, Obj(B(), {}), 'd'); before = c.read(s, True)
    ctor(ip, B(), d, [s], lambda f: norm(f.params[0]['type']['qualType']) == 'const log_msg_buf &', 1)
    c.check('the source is unchanged', unchanged(ip, before, c.read(s, True))); check_own(ip, s, spec, 'copied source')
    c.store[s.root] = None; check_own(ip, d, spec, 'copy')
def u_copy_assign(ip, u):
    c = ip.c; s, spec = own_msg(ip, B(), 's')
    d = s if c.choose_nd(2) else own_msg(ip, B(), 'd')[0]
    ip.run_func(find(ip, B(), 'operator=', lambda f: not is_mv(f)), d, [s])
    check_own(ip, s, spec, 'source of the assignment')
    if d != s: c.store[s.root] = None; check_own(ip, d, spec, 'assigned copy')
def dirty(ip, cls, nm, extra=None):
    """a target in any state: valid, default constructed or moved from"""
    d, _ = own_msg(ip, cls, nm, extra); c = ip.c
    if c.choose_nd(2):
        o = c.read(d, True); f = dict(o.f); f['buf_'] = Str(sym_text(nm + '_junk'), 'membuf', c.newgen()); c.assume(z3.And(sym_text(nm + '_junk').len() >= 0, sym_text(nm + '_junk').len() < 2 ** 31))
        c.store[d.root] = Obj(cls, f)
    return d
def u_move(ip, u):
    c = ip.c; s, spec = own_msg(ip, B(), 's'); d = root(ip, Obj(B(), {}), 'd')
    ctor(ip, B(), d, [s], is_mv, 1); c.store[s.root] = None; check_own(ip, d, spec, 'move')
def u_move_assign(ip, u):
    c = ip.c; s, spec = own_msg(ip, B(), 's'); d = dirty(ip, B(), 'd')
    ip.run_func(find(ip, B(), 'operator=', is_mv), d, [s]); c.store[s.root] = None; check_own(ip, d, spec, 'move-assigned')
def u_default(ip, u):
    c = ip.c; d = root(ip, Obj(B(), {}), 'd'); ctor(ip, B(), d, [], nparams=0)
    for k in ('logger_name', 'msg'): c.check('a default message has empty texts', c.read(d, True).f[k].n == 0)
A = 'async_msg'
def afields(ip, nm):
    ip.c.assume(z3.And(z3.Int(nm + '_type') >= 0, z3.Int(nm + '_type') <= 2))
    need_fields(ip, A, MSG_FIELDS + ('buf_', 'logger', 'msg_type', 'flush_promise'))
    return dict(logger=Handle('async_logger', z3.Int(nm + '_lg')), msg_type=z3.Int(nm + '_type'), flush_promise=Handle('promise', z3.Int(nm + '_pr')))
def check_async(ip, d, lg, ty, pr, what):
    c = ip.c; o = c.read(d, True)
    c.check(f'{what}: the logger is kept', o.f['logger'].t == lg); c.check(f'{what}: the kind is kept', o.f['msg_type'] == ty)
    if pr is not None: c.check(f'{what}: the completion promise is kept', o.f['flush_promise'].t == pr)
def u_async_ctor(ip, u):
    c = ip.c; k = c.choose_nd(3); d = root(ip, Obj(A, {}), 'd'); lg = root(ip, Handle('async_logger', z3.Int('lg')), 'lg'); ty = z3.Int('ty'); c.assume(z3.And(ty >= 0, ty <= 2))
    if k == 0:
        s, spec, hold = fresh_msg(ip); ctor(ip, A, d, [lg, ty, s], par('async_logger', 'type', 'log_msg'))
        for h in hold: c.store[h.root] = None
        check_own(ip, d, spec, 'log request'); check_async(ip, d, z3.Int('lg'), ty, None, 'log request')
    elif k == 1:
        p = root(ip, Handle('promise', z3.Int('pr')), 'p'); ctor(ip, A, d, [lg, ty, p], par('async_logger', 'type', 'promise')); check_async(ip, d, z3.Int('lg'), ty, z3.Int('pr'), 'flush request')
    else: ctor(ip, A, d, [lg, ty], par('async_logger', 'type')); check_async(ip, d, z3.Int('lg'), ty, None, 'request')
def u_async_term(ip, u):
    c = ip.c; d = root(ip, Obj(A, {}), 'd'); ty = z3.Int('ty'); c.assume(z3.And(ty >= 0, ty <= 2)); ctor(ip, A, d, [ty], par('async_msg_type')); check_async(ip, d, I(0), ty, None, 'control request')
def u_async_move(assign):
    def run(ip, u):
        c = ip.c; s, spec = own_msg(ip, A, 's', afields(ip, 's'))
        if assign: d = dirty(ip, A, 'd', afields(ip, 'd')); ip.run_func(find(ip, A, 'operator=', is_mv), d, [s])
        else: d = root(ip, Obj(A, {}), 'd'); ctor(ip, A, d, [s], lambda f: '&&' in f.type and 'async_msg &&' in f.params[0]['type']['qualType'], 1)
        c.store[s.root] = None
        check_own(ip, d, spec, 'moved request'); check_async(ip, d, z3.Int('s_lg'), z3.Int('s_type'), z3.Int('s_pr'), 'moved request')
    return run
def units():
    K = lambda n, f, r: U(n, [f], r, base=MsgUnit)
    return [K('message: constructors', 'log_msg::log_msg', u_ctor_msg), K('buffered message: from a message', 'log_msg_buf::log_msg_buf', u_from_msg), K('buffered message: default', 'log_msg_buf::log_msg_buf', u_default), K('buffered message: copy construct', 'log_msg_buf::log_msg_buf', u_copy),
            K('buffered message: copy assign', 'log_msg_buf::operator=', u_copy_assign), K('buffered message: move construct', 'log_msg_buf::log_msg_buf', u_move), K('buffered message: move assign', 'log_msg_buf::operator=', u_move_assign),
            K('async message: constructors', 'async_msg::async_msg', u_async_ctor), K('async message: control', 'async_msg::async_msg', u_async_term), K('async message: move construct', 'async_msg::async_msg', u_async_move(False)), K('async message: move assign', 'async_msg::operator=', u_async_move(True))]
