"""C13: opening, writing, flushing and closing files, against contracts of the C library and the kernel calls."""
from units.sinks import *
from units.c12 import dtor_of
from units.c14 import P, LEN, ch, common_find
O = dict(O_WRONLY=1, O_RDWR=2, O_CREAT=0o100, O_TRUNC=0o1000, O_APPEND=0o2000, O_CLOEXEC=0o2000000)
class OsUnit(SinkIO):
    """every call is recorded; it may succeed or fail"""
    def lib_construct(self, ip, t, args, ctype):
        if t in ('stat', 'stat64', 'struct stat', 'struct stat64'): return Obj('stat', dict(st_size=ip.c.fresh_int('uninit')))
        return SinkIO.lib_construct(self, ip, t, args, ctype)
    def lib_function(self, ip, name, decl, argnodes, n, dst):
        c = ip.c
        if name in ('stat', 'stat64', 'mkdir', 'open', 'open64', 'close', 'fdopen', 'fstat', 'fstat64', 'fsync', 'fdatasync', 'sleep_for', 'access', 'lstat', 'unlink', 'remove', 'rename', 'fopen', 'freopen'):
            a = [ip.val(x) for x in ip.argv(argnodes)]
            if name in ('stat', 'stat64'): r = c.fresh_int('stat', -1, 0); ev(ip, 'stat', text_of(ip, a[0]), r); return r
            if name == 'mkdir': c.check('a directory created can be used by its owner', bits(ip.tonum(a[1]), 0o700)); r = c.fresh_int('mkdir', -1, 0); ev(ip, 'mkdir', text_of(ip, a[0]), r); return r
            if name in ('open', 'open64'): c.check('a file created can be read and written by its owner', z3.BoolVal(len(a) > 2) if len(a) < 3 else bits(ip.tonum(a[2]), 0o600)); r = c.fresh_int('fd', -1, 2 ** 31 - 1); ev(ip, 'open', text_of(ip, a[0]), ip.tonum(a[1]), r); return r
            if name == 'close': ev(ip, 'close', ip.tonum(a[0])); return c.fresh_int('r', -1, 0)
            if name == 'fdopen':
                if c.choose_nd(2): ev(ip, 'fdopen', ip.tonum(a[0]), text_of(ip, a[1]), I(0)); return Ptr(None)
                h = c.fresh_int('file'); c.assume(h > 0); c.assume(FD(h) == ip.tonum(a[0])); ev(ip, 'fdopen', ip.tonum(a[0]), text_of(ip, a[1]), h); return Handle('FILE', h)
            if name in ('fstat', 'fstat64'):
                r = c.fresh_int('fstat', -1, 0); z = c.fresh_int('file_size', 0, 2 ** 62); p = a[1]; ev(ip, 'fstat', ip.tonum(a[0]), r, z)
                if isinstance(p, Ptr) and isinstance(p.t, LV) and c.choose(r == 0): c.write(p.t.sub(('f', 'st_size')), z)
                return r
            if name in ('fsync', 'fdatasync'): r = c.fresh_int('fsync', -1, 0); ev(ip, 'fsync', ip.tonum(a[0]), r); return r
            if name == 'sleep_for': ev(ip, 'sleep'); return None
            raise Unsupported(f'system call {name}')
        return SinkIO.lib_function(self, ip, name, decl, argnodes, n, dst)
def evs(c, *names): return [e for e in c.trace if isinstance(e, Ev) and e.name in names]
def fb(name, n): return lambda ip: common_find(ip, 'file_base::' + name, n)
def opt_file(ip, nm='f'):
    """an arbitrary FILE*: null or an open stream"""
    c = ip.c; f = z3.Int(nm)
    if c.choose_nd(2): return None, Ptr(None)
    c.assume(f > 0); return f, Handle('FILE', f)
def name_arg(ip): return text_root(ip, 'path')
def throws_iff(c, exc, cond, what): c.check(f'{what}: a failure is reported by throwing', Implies(cond, z3.BoolVal(exc is not None))); c.check(f'{what}: nothing is thrown without a failure', Implies(z3.BoolVal(exc is not None), cond))
def others(c, *allowed):
    bad = [e for e in c.trace if not (isinstance(e, Ev) and e.name in allowed + ('error',))]; c.check('no other effect on files', z3.BoolVal(not bad))
def u_close(ip, u):
    c = ip.c; f, h = opt_file(ip); fp = root(ip, h, 'stream'); n = name_arg(ip); c.trace.clear(); exc = outcome(lambda: ip.run_func(fb('close', 2)(ip), None, [Ptr(fp), n])); e = evs(c, 'fclose'); now = c.read(fp, True)
    if f is None: c.check('closing nothing does nothing', z3.BoolVal(not e and exc is None)); return
    c.check('the stream is closed exactly once', z3.BoolVal(len(e) == 1)); c.check('the stream is given up, also when closing fails', z3.BoolVal(isinstance(now, Ptr) and now.t is None) if not isinstance(now, Handle) else now.t == 0)
    if e: c.check('it is the given stream', e[0].args[0] == f); throws_iff(c, exc, e[0].args[1] != 0, 'close')
    others(c, 'fclose')
def u_flush(ip, u):
    c = ip.c; f, h = opt_file(ip)
    if f is None: return
    n = name_arg(ip); c.trace.clear(); exc = outcome(lambda: ip.run_func(fb('flush', 2)(ip), None, [h, n])); e = evs(c, 'fflush'); c.check('the stream is flushed once', z3.BoolVal(len(e) == 1))
    if e: c.check('it is the given stream', e[0].args[0] == f); throws_iff(c, exc, e[0].args[1] != 0, 'flush')
    others(c, 'fflush')
def u_sync(ip, u):
    c = ip.c; f, h = opt_file(ip)
    if f is None: return
    n = name_arg(ip); c.trace.clear(); exc = outcome(lambda: ip.run_func(fb('sync', 2)(ip), None, [h, n])); e = evs(c, 'fsync'); c.check('the file is synchronised once', z3.BoolVal(len(e) == 1))
    if e: c.check('it is the file of the given stream', e[0].args[0] == FD(f)); throws_iff(c, exc, e[0].args[1] != 0, 'sync')
    others(c, 'fsync', 'fflush')
def u_write(ip, u):
    c = ip.c; f, h = opt_file(ip); n = name_arg(ip); b = root(ip, Str(sym_text('bytes'), 'membuf', c.newgen()), 'buf'); c.assume(z3.And(sym_text('bytes').len() >= 0, sym_text('bytes').len() < 2 ** 40)); c.trace.clear(); exc = outcome(lambda: ip.run_func(fb('write', 3)(ip), None, [h, n, b])); e = evs(c, 'fwrite')
    if f is None: c.check('nothing is written to no stream', z3.BoolVal(not e)); return
    r = Rope()
    for x in e: r = r + x.args[1]; c.check('it writes to the given stream', x.args[0] == f)
    short = Or(*[x.args[2] != x.args[1].len() for x in e]); throws_iff(c, exc, short, 'write')
    if exc is None: c.check_text('exactly the given bytes are written', r, sym_text('bytes'))
    others(c, 'fwrite'); c.check_text('the bytes are not changed', c.read(b).r, sym_text('bytes'))
def u_size(ip, u):
    c = ip.c; f, h = opt_file(ip); n = name_arg(ip); c.trace.clear(); out = []; exc = outcome(lambda: out.append(ip.tonum(ip.val(ip.run_func(fb('size', 2)(ip), None, [h, n]))))); e = evs(c, 'fstat')
    if f is None: c.check('no stream has no size', z3.BoolVal(exc is not None and not e)); return
    c.check('the size is asked for once', z3.BoolVal(len(e) == 1))
    if e: c.check('of the file of the given stream', e[0].args[0] == FD(f)); throws_iff(c, exc, e[0].args[1] != 0, 'size')
    if e and exc is None: c.check('the size is the real one', out[0] == e[0].args[2])
    others(c, 'fstat')
def u_exist(ip, u):
    c = ip.c; n = name_arg(ip); c.trace.clear(); r = ip.tobool(ip.val(ip.run_func(common_find(ip, 'os::dir_exist', 1), None, [n]))); e = evs(c, 'stat'); c.check('the path is looked up once', z3.BoolVal(len(e) == 1))
    if e: c.check_text('it is the given path', e[0].args[0], P()); c.check('a path exists iff the lookup succeeds', r == (e[0].args[1] == 0))
def bits(fl, mask): return And(*[has(fl, 1 << k) for k in range(16) if mask >> k & 1])
def has(fl, bit): return (fl / bit) % 2 == 1
def u_openfile(ip, u):
    c = ip.c; n = name_arg(ip); app = c.choose_nd(2) == 0; md = 'ab' if app else 'wb'; m = root(ip, Str(Rope([md]), 'string', c.newgen()), 'mode'); fp = root(ip, Ptr(None), 'stream'); c.trace.clear()
    r = ip.tobool(ip.val(ip.run_func(common_find(ip, 'os::open_file', 3), None, [Ptr(fp), n, m]))); o, d, cl = evs(c, 'open'), evs(c, 'fdopen'), evs(c, 'close', 'fclose'); now = c.read(fp, True); got = now.t != 0 if isinstance(now, Handle) else FALSE
    c.check('the result tells whether a stream is open', r == got); c.check('the file is opened once', z3.BoolVal(len(o) == 1))
    if len(o) != 1: return
    fl, fd = o[0].args[1], o[0].args[2]; c.check_text('it is the given file', o[0].args[0], P())
    for nm in ('O_CREAT', 'O_CLOEXEC'): c.check(f'opened with {nm}', has(fl, O[nm]))
    c.check('opened for writing', z3.Or(fl % 4 == 1, fl % 4 == 2)); c.check('existing content is kept in append mode and discarded in truncate mode', has(fl, O['O_TRUNC']) == z3.BoolVal(not app)); c.check('writes go to the end in append mode', has(fl, O['O_APPEND']) if app else TRUE)
    ok = c.choose(fd >= 0)
    if not ok: c.check('no stream without a file', z3.Not(r)); c.check('nothing is made of a failed open', z3.BoolVal(not d and not cl)); return
    c.check('a stream is made of the file once', z3.BoolVal(len(d) == 1))
    if len(d) != 1: return
    c.check('of that file', d[0].args[0] == fd); c.check_text('in the given mode', d[0].args[1], Rope([md])); made = c.choose(d[0].args[2] != 0); c.check('the stream is handed out', got == z3.BoolVal(made))
    if made: c.check('it is the stream that was made', now.t == d[0].args[2] if isinstance(now, Handle) else FALSE); c.check('the file stays open', z3.BoolVal(not cl))
    else:
        c.check('the file is closed once when no stream could be made', z3.BoolVal(len(cl) == 1))
        if cl: c.check('it is that file', cl[0].args[0] == fd)
class OpenUnit(OsUnit):
    """file_base::open through the contracts of the functions it calls"""
    def contract(self, cls, name):
        if cls is None and '::' in name:
            b = name.split('::')[-1]
            if b == 'get_dir': return c_getdir
            if b == 'create_dir': return c_create
            if b == 'open_file': return c_openfile
            if b == 'close' and 'file_base' in name: return c_close
        return OsUnit.contract(self, cls, name)
def c_getdir(ip, this, args, n, dst): ip.c.check_text('the directory of the file', text_of(ip, args[0]), P()); return Str(sym_text('dir'), 'string', ip.c.newgen())
def c_create(ip, this, args, n, dst): ev(ip, 'create_dir', text_of(ip, args[0])); return ip.c.fresh_bool('created')
def c_openfile(ip, this, args, n, dst):
    c = ip.c; fp = ip.val(args[0]); md = text_of(ip, args[2]).concrete(); old = c.read(fp.t, True); c.check('an open stream is not overwritten', z3.BoolVal(not (fp.t == c.ghost['fpp'] and isinstance(old, Handle))))
    if md not in ('ab', 'wb'): raise Unsupported(f'mode {md}')
    ok = c.choose_nd(2) == 0; h = c.fresh_int('file') if ok else I(0)
    if ok: c.assume(h > 0); c.write(fp.t, Handle('FILE', h))
    elif not isinstance(old, Ptr) or fp.t != c.ghost['fpp']: c.write(fp.t, Ptr(None))
    ev(ip, 'open_file', text_of(ip, args[1]), md, fp.t == c.ghost['fpp'], h); return TRUE if ok else FALSE
def c_close(ip, this, args, n, dst):
    c = ip.c; fp = ip.val(args[0]); old = c.read(fp.t, True); ev(ip, 'closed', fp.t == c.ghost['fpp'], old.t if isinstance(old, Handle) else I(0)); c.write(fp.t, Ptr(None))
    if isinstance(old, Handle) and c.choose_nd(2): ev(ip, 'close_failed'); raise CppThrow(Exc('std', sym_text('close_failed'), 'learnlog_excpt'))
def opened_(e): return not (is_const(S(e.args[3])) and cval(S(e.args[3])) == 0)
def attempt(c, t, trunc, name):
    """one attempt: directory, then (when truncating) the file emptied and closed, then opened for appending; returns the outcome"""
    cr = [e for e in t if e.name == 'create_dir']; op = [e for e in t if e.name == 'open_file']; cl = [e for e in t if e.name in ('fclose', 'closed')]
    c.check(f'{name}: the directory is created first', z3.BoolVal(bool(cr) and bool(op) and t.index(cr[0]) < t.index(op[0])))
    for e in cr: c.check_text(f'{name}: the directory of the file', e.args[0], sym_text('dir'))
    for e in op: c.check_text(f'{name}: the given file', e.args[0], P()); c.check(f'{name}: only the appending stream is handed out', z3.BoolVal(e.args[2] == (e.args[1] == 'ab')))
    wb = [e for e in op if e.args[1] == 'wb']; ab = [e for e in op if e.args[1] == 'ab']
    c.check(f'{name}: the file is emptied iff asked', z3.BoolVal(bool(wb) == trunc)); won = [e for e in wb if opened_(e)]
    c.check(f'{name}: each temporary stream is closed once', z3.BoolVal(len(cl) == len(won)))
    for a, b in zip(won, cl): c.check(f'{name}: it is that stream', b.args[-2 if b.name == 'fclose' else -1] == a.args[3])
    if trunc and ab: c.check(f'{name}: emptied before it is opened for appending', z3.BoolVal(bool(won) and t.index(won[-1]) < t.index(ab[0])))
    return [e for e in ab if opened_(e)]
def u_open(ip, u):
    c = ip.c; f, h = opt_file(ip); fp = root(ip, h, 'stream'); n = name_arg(ip); trunc = c.choose_nd(2) == 1; tries = z3.Int('tries'); c.assume(z3.And(tries >= 0, tries < 2 ** 31)); c.ghost['fpp'] = fp; c.assume(z3.And(sym_text('dir').len() >= 0))
    c.trace.clear(); exc = outcome(lambda: ip.run_func(fb('open', 5)(ip), None, [Ptr(fp), n, TRUE if trunc else FALSE, tries, I(10)])); now = c.read(fp, True); opened = isinstance(now, Handle)
    t = [e for e in c.trace]; first = [e for e in t if isinstance(e, Ev) and e.name == 'closed' and e.args[0]]
    c.check('the stream held before is closed first', z3.BoolVal(bool(first) and t.index(first[0]) == 0) if f is not None else TRUE)
    if f is not None and first: c.check('it is the stream held before', first[0].args[1] == f)
    if any(isinstance(e, Ev) and e.name == 'close_failed' for e in t): c.check('a failure to close is passed on', z3.BoolVal(exc is not None and not opened)); return
    rest = [e for e in t if not (isinstance(e, Ev) and e.name in ('closed', 'sleep', 'error') and (e.name != 'closed' or e.args[0]))]
    done = I(0); last = []
    for e in rest:
        if isinstance(e, FE):
            done = e.hi - e.lo
            for a, tr in e.alts: c.check('a failed attempt leaves no stream open', z3.BoolVal(not attempt(c, [x for x in tr if x.name != 'sleep'], trunc, 'attempt')))
        else: last.append(e)
    if exc is None:
        c.check('it ends with an open stream', z3.BoolVal(opened)); won = attempt(c, last, trunc, 'last attempt'); c.check('the stream was opened for appending', z3.BoolVal(len(won) == 1))
        if won and opened: c.check('that stream is handed out', now.t == won[0].args[3])
        c.check('no more attempts than given', done + 1 <= tries)
    else: c.check('it gives up only after all attempts', done == tries); c.check('no stream is open after giving up', z3.BoolVal(not opened and not last))
class DirUnit(OsUnit):
    def contract(self, cls, name):
        if cls is None and name.split('::')[-1] == 'dir_exist':
            def f(ip, this, args, n, dst): r = ip.c.fresh_bool('exists'); ev(ip, 'exist', text_of(ip, args[0]), r); return r
            return f
        return OsUnit.contract(self, cls, name)
    def loop_hook(self, ip, node, cond, body, step):
        """invariant: the position is 0 or just behind a separator; every earlier prefix is a directory that exists or was created"""
        from units.c07 import probe, move_to
        c = ip.c
        if cond is None or c.ghost.get('in_dirs'): return None
        chg = probe(ip, cond, body, step); keys = list(chg)
        if len(keys) != 1 or not z3.is_expr(loops.get_path(c.store[keys[0][0]], keys[0][1])): raise Unsupported('loop over the parents')
        k = keys[0]; v0 = loops.get_path(c.store[k[0]], k[1])
        if not c.prove(v0 == 0): raise Unsupported('loop over the parents')
        o = z3.Int('offset'); c.ghost['in_dirs'] = True; c.ghost['before'] = list(c.trace); c.trace.clear(); c.assume(z3.And(o >= 0, o <= LEN + 1, z3.Or(o == 0, o == LEN + 1, ch(o - 1) == 47))); move_to(c, *k, o)
        if not c.choose(cond()): c.check('it ends only when every part of the path was looked at', o >= LEN); c.ghost['all'] = True; return True
        try: body()
        except Continue: pass
        except Break: raise Unsupported('loop over the parents')
        if step: step()
        w = loops.get_path(c.store[k[0]], k[1]); j = z3.Int('first_separator'); q = z3.Int('q1')
        c.assume(z3.And(j >= o, j <= LEN, z3.Or(j == LEN, ch(j) == 47), z3.ForAll([q], Implies(z3.And(q >= o, q < j), ch(q) != 47), patterns=[ch(q)]), z3.Or(j == LEN, ch(j) >= 0)))
        if not c.prove(w == j + 1): raise Unsupported('step of the loop over the parents')
        one_dir(c, j, True); raise PathEnd()
def one_dir(c, j, going):
    """the prefix before position j was found or created"""
    ex, mk = evs(c, 'exist'), evs(c, 'mkdir')
    for e in ex + mk: c.check_text('the directory looked at is the prefix up to the next separator', e.args[0], substr(c, P(), I(0), j))
    if going: c.check('each parent exists or is created', z3.Or(j == 0, Or(*([e.args[1] for e in ex] + [e.args[1] == 0 for e in mk])))); c.check('an existing directory is not created again', z3.Not(z3.And(Or(*[e.args[1] for e in ex]), z3.BoolVal(bool(mk)))))
def u_createdir(ip, u):
    c = ip.c; n = name_arg(ip); c.assume(LEN < 2 ** 31); c.trace.clear(); r = ip.tobool(ip.val(ip.run_func(common_find(ip, 'os::create_dir', 1), None, [n])))
    t = c.ghost.get('before', []) if c.ghost.get('in_dirs') else c.trace; pre = [e for e in t if e.name == 'exist']
    if c.ghost.get('all'): c.check('success is reported when every directory exists', r); return
    if c.ghost.get('in_dirs'): mk = evs(c, 'mkdir'); c.check('it gives up only when a directory cannot be created', z3.And(z3.Not(r), Or(*[e.args[1] != 0 for e in mk]))); return
    for e in pre: c.check_text('the whole path is looked at first', e.args[0], P())
    c.check('success without work only when the path exists', Implies(r, Or(*[e.args[1] for e in pre]))); c.check('failure without work only for an empty path', Implies(z3.Not(r), LEN == 0)); c.check('nothing is created', z3.BoolVal(not evs(c, 'mkdir')))
def u_sinkctor(ip, u):
    c = ip.c; cls = 'basic_file_sink<std::mutex>'; n = name_arg(ip); tr = z3.Bool('truncate'); lv = root(ip, Obj(cls, {}), 'sink'); c.trace.clear(); exc = outcome(lambda: ctor(ip, cls, lv, [n, tr], nparams=2)); op = evs(c, 'file.open')
    c.check('one file is opened', z3.BoolVal(len(op) == 1)); 
    if op: c.check('the mode is as configured', op[0].args[1] == tr); c.check('it is the given file', op[0].args[0] == name_key(ip, P()))
    if exc is None:
        o = c.read(lv, True); c.check('the sink holds the stream', o.f['file_'].t == evs(c, 'file.opened')[0].args[0] if isinstance(o.f['file_'], Handle) and evs(c, 'file.opened') else FALSE); c.check_text('and the name', text_of(ip, o.f['filename_']), P()); c.check_text('and reports the name', text_of(ip, ip.val(call(ip, cls, 'filename', lv))), P())
    else: c.check('only a failure is reported', z3.BoolVal(bool(evs(c, 'error'))))
def units():
    K = lambda n, f, run, b=OsUnit: U(n, f, run, base=b); BF = 'basic_file_sink<std::mutex>'
    return [K('close', ['file_base::close'], u_close), K('flush', ['file_base::flush'], u_flush), K('sync', ['file_base::sync', 'os::fsync'], u_sync), K('write', ['file_base::write'], u_write), K('size', ['file_base::size', 'os::filesize'], u_size),
            K('existence', ['os::dir_exist'], u_exist), K('open a stream', ['os::open_file'], u_openfile), K('open', ['file_base::open'], u_open, OpenUnit), K('create directories', ['os::create_dir', 'os::mkdir_'], u_createdir, DirUnit),
            K('file sink constructor', [BF + '::basic_file_sink'], u_sinkctor, FileContracts), K('file sink destructor', [BF + '::~basic_file_sink'], dtor_of(BF, lambda ip, cls: the_sink(ip, cls)), FileContracts)] + __import__('units.factories', fromlist=['units']).units(('class', 'args'), ['basic_file'])
