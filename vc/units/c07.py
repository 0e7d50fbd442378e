"""C07: pattern strings are read in bounds into exactly the items of the grammar; a line is the concatenation of the items and the terminator.

The parser's loops run over a pattern of any length, so they carry declared invariants: the character loop is checked for one
arbitrary step from an arbitrary state (position, open literal of arbitrary text, arbitrary items before it), the digit loop against
width = min(value of the digits read so far, 64)."""
from units.flags import *
import units.c09 as c09
PF = 'pattern_formatter'; INT = z3.IntSort()
DEND = z3.Function('digits_end', INT, INT); WID = z3.Function('digits_value', INT, INT, INT); HAS = z3.Function('custom_has', INT, z3.BoolSort()); CUSTOM = z3.Function('custom_formatter', INT, INT); CLONE = z3.Function('clone_of', INT, INT)
def digit(x): return z3.And(x >= 48, x <= 57)
def plen(): return sym_text('pattern').len()
def ch(i): return Base('pattern').ch(i)
def at(i, x): return z3.And(i < plen(), ch(i) == ord(x))
def lo64(v): return z3.If(v < 64, v, I(64))
def near(c, p):
    """what the end of a digit run is, at p"""
    c.assume(z3.If(z3.And(p < plen(), digit(ch(p))), z3.And(DEND(p) == DEND(p + 1), DEND(p) > p), DEND(p) == p)); c.assume(z3.And(DEND(p) <= z3.If(p < plen(), plen(), p)))
class Spec:
    """settings that start at j and the position after them"""
    def __init__(self, c, j):
        side = z3.If(at(j, '-'), 1, z3.If(at(j, '='), 2, 0)); j1 = S(z3.If(side == 0, j, j + 1)); near(c, j1)
        self.on = S(z3.And(j1 < plen(), digit(ch(j1)))); e = DEND(j1); self.w = lo64(WID(j1, e)); c.assume(z3.And(WID(j1, e) >= 0))
        self.trunc = S(at(e, '!')); self.side = side; self.end = S(z3.If(self.on, z3.If(self.trunc, e + 1, e), j1))
    def side_value(self, ip):
        l, r, m = [enum_value(ip, s, 'fill_side') for s in SIDES]; return S(z3.If(self.side == 0, l, z3.If(self.side == 1, r, m)))
    def check(self, ip, o, what):
        c = ip.c
        if not (isinstance(o, Obj) and {'enabled_', 'target_len_', 'side_', 'truncate_'} <= set(o.f)): raise Unsupported('representation of spaces_info')
        on = ip.tobool(o.f['enabled_']); c.check(f'{what}: width counts only when digits are present', on == self.on)
        c.check(f'{what}: width is min(value, 64)', Implies(self.on, o.f['target_len_'] == self.w)); c.check(f'{what}: fill side', Implies(self.on, o.f['side_'] == self.side_value(ip))); c.check(f'{what}: truncation iff ! follows the digits', Implies(self.on, ip.tobool(o.f['truncate_']) == self.trunc))
def positions(ip):
    """string iterators into the pattern among the live objects"""
    return {r: v for r, v in ip.c.store.items() if isinstance(v, StrIter) and isinstance(v.p.src, LV) and v.p.src == ip.c.ghost['pattern']}
def probe(ip, cond, body, step):
    """leaves one iteration may change"""
    c = ip.c; pre = dict(c.store); out = {}; cache = ip.e.unit.__dict__.setdefault('probed', {}); key = (tuple(c.oracle.done), c.nroot, c.nfresh)
    if key in cache: out, (c.nfresh, c.nroot, c.ngen) = cache[key]; return dict(out)
    def once():
        if cond is not None and not c.choose(cond()): raise Break()
        try: body()
        except Continue: pass
        if step: step()
    ip.e.mute += 1
    try: outs = c.nested(once)
    finally: ip.e.mute -= 1
    for o in outs:
        for r, v in pre.items():
            if v is None: continue
            w = o['store'].get(r)
            if w is None: raise Unsupported('loop destroys an object')
            loops.diff(v, w, (), r, out, o)
    cache[key] = dict(out), (c.nfresh, c.nroot, c.ngen); return out
def move_to(c, lv_root, path, x): c.store[lv_root] = loops.set_path(c.store[lv_root], path, x)
class ParseUnit(FlagUnit):
    handle_kinds = frozenset(['async_logger', 'promise', 'flag_formatter', 'custom_flag_formatter'])
    main = False; spaces_contract = False
    def contract(self, cls, name):
        if self.spaces_contract and name == 'analyse_spaces_info_': return c_spaces
        return FlagUnit.contract(self, cls, name)
    def make_vector(self, ip, t, k, a, ctype):
        if 'flag_formatter' in t and not a: return Opaque('itemlist')
    def lib_construct(self, ip, t, args, ctype):
        if 'unordered_map<' in t or t.startswith('std::map<') or t.startswith('map<'):
            if not args: return Opaque('flagmap', id='empty', gen=ip.c.newgen())
            v = ip.val(args[0])
            if isinstance(v, Opaque) and v.fam == 'flagmap':
                if '&&' in (ctype or '') and isinstance(args[0], LV): ip.c.write(args[0], Opaque('flagmap', id='moved', gen=0)); return v
        return FlagUnit.lib_construct(self, ip, t, args, ctype)
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        c = ip.c
        if isinstance(v, Opaque) and v.fam == 'itemlist':
            if name == 'clear': c.trace.append(Ev('clear')); return None
            if name in ('push_back', 'emplace_back'):
                x = ip.argv(argnodes)[0]; y = ip.val(x)
                if isinstance(x, LV): c.write(x, Ptr(None, 'unique') if isinstance(y, Ptr) else Handle(y.kind, I(0)))
                c.trace.append(Ev('item', y)); return None
            if name == 'reserve': return None
        if isinstance(v, Opaque) and v.fam == 'flagmap':
            if name in ('find', 'count'):
                k = ip.tonum(ip.val(ip.argv(argnodes)[0]))
                if v.kw['id'] != 'custom': raise Unsupported('lookup')
                return Opaque('flagit', key=k) if name == 'find' else S(z3.If(HAS(k), I(1), I(0)))
            if name in ('end', 'cend'): return Opaque('flagit', key=None)
            if name in ('begin', 'cbegin'):
                if v.kw['id'] != 'custom': raise Unsupported('iteration')
                return Opaque('flagit', key='any')
            if name in ('emplace', 'insert_or_assign') and len(argnodes) == 2: k, x = ip.argv(argnodes); c.trace.append(Ev('put', ip.tonum(ip.val(k)), ip.val(x), **v.kw)); return None
            if name == 'empty' and v.kw['id'] == 'custom': return ip.c.fresh_bool('no_custom')
            if name in ('at', 'operator[]'): return ip.lib.operator(ip, 'operator[]', [None] + list(argnodes), n, dst) if False else self.slot(ip, v, ip.tonum(ip.val(ip.argv(argnodes)[0])))
        return FlagUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt)
    def slot(self, ip, v, k):
        ip.c.assume(CUSTOM(k) > 0)
        if v.kw['id'] == 'custom' and self.main: ip.c.check('a custom flag is used only when there is one', HAS(k), 'safety'); return root(ip, Handle('custom_flag_formatter', CUSTOM(k)), 'slot')
        s = root(ip, Handle('custom_flag_formatter', I(0)), 'slot'); ip.c.ghost['slots'] = dict(ip.c.ghost.get('slots', {}), **{s.root: (v.kw, k)}); return s
    def on_reassign(self, ip, d, old, w):
        s = ip.c.ghost.get('slots', {})
        if isinstance(d, LV) and d.root in s: m, k = s[d.root]; ip.c.trace.append(Ev('put', k, w, **m))
    def lib_operator(self, ip, name, argnodes, n, dst):
        c = ip.c; t = ip.typ(argnodes[0])
        if '_Node_' in t or '_Rb_tree' in t:
            v = ip.rv(argnodes[0])
            if not (isinstance(v, Opaque) and v.fam == 'flagit'): raise Unsupported('map iterator')
            if name == 'operator++': return None
            if name in ('operator==', 'operator!='):
                w = ip.rv(argnodes[1]); k = v.kw['key'] if v.kw['key'] is not None else w.kw['key']; e = w if v.kw['key'] is not None else v
                if isinstance(k, str): return c.fresh_bool('more_flags')
                if e.kw['key'] is not None: raise Unsupported('map iterators')
                return S(HAS(k)) if name == 'operator!=' else S(z3.Not(HAS(k)))
            if name in ('operator->', 'operator*'):
                k = v.kw['key']
                if isinstance(k, str): k = z3.Int('some_flag'); c.assume(HAS(k))
                if k is None: c.violated('the end of the custom flags is not read'); raise PathEnd()
                c.check('a custom flag is used only when there is one', HAS(k), 'safety'); c.assume(CUSTOM(k) > 0); p = root(ip, Obj('std::pair', {'first': k, 'second': Handle('custom_flag_formatter', CUSTOM(k))}), 'pair'); return Ptr(p) if name == 'operator->' else p
        if name == 'operator[]' and 'unordered_map' in t or name == 'operator[]' and t.startswith('std::map<'):
            d = ip.glv(argnodes[0]); return self.slot(ip, c.read(d, True), ip.tonum(ip.val(ip.argv(argnodes[1:])[0])))
        return NotImplemented
    def handle_contract(self, kind, name):
        if kind == 'custom_flag_formatter':
            if name == 'clone': return c_clone
            if name == 'set_spaces_info': return lambda ip, h, args, n, dst: ip.c.trace.append(Ev('settings', h, ip.val(args[0])))
    def loop_hook(self, ip, node, cond, body, step):
        c = ip.c
        if cond is not None and c.ghost.get('cloning'): return map_loop(ip, cond, body, step)
        if cond is None or 'pattern' not in c.ghost: return None
        if self.main and not c.ghost.get('in_main'): return main_loop(ip, cond, body, step)
        return digit_loop(ip, cond, body, step)
    def to_elem(self, ip, y, kind): return y if isinstance(y, Handle) else FlagUnit.to_elem(self, ip, y, kind)
def c_clone(ip, h, args, n, dst): ip.c.assume(CLONE(h.t) > 0); return Handle('custom_flag_formatter', CLONE(h.t))
def digit_loop(ip, cond, body, step):
    """invariant: every character from the start of the run was a digit and the width is the value so far, capped"""
    c = ip.c; ch_ = probe(ip, cond, body, step); its = [k for k, v in ch_.items() if isinstance(loops.get_path(c.store[k[0]], k[1]), StrIter)]; nums = [k for k in ch_ if k not in its]
    if len(its) != 1 or len(nums) != 1 or not z3.is_expr(loops.get_path(c.store[nums[0][0]], nums[0][1])): 
        if not its and not nums: return None
        raise Unsupported('loop of the settings parser')
    itk, nk = its[0], nums[0]; it0 = loops.get_path(c.store[itk[0]], itk[1]); v0 = loops.get_path(c.store[nk[0]], nk[1]); p0 = it0.p.off
    j0 = p0 if is_const(S(v0)) and cval(S(v0)) == 0 else S(p0 - 1)
    unfold = lambda p: c.assume(z3.And(WID(j0, j0) == 0, WID(j0, p + 1) == WID(j0, p) * 10 + (ch(p) - 48)))
    near(c, j0); near(c, p0); unfold(j0); c.check('width so far, before the remaining digits', v0 == lo64(WID(j0, p0))); c.check('the run of digits has one end', DEND(j0) == DEND(p0))
    p, v = c.fresh_int('p'), c.fresh_int('w'); c.assume(z3.And(p >= p0, p <= plen(), v == lo64(WID(j0, p)), WID(j0, p) >= 0, DEND(p) == DEND(j0)))
    move_to(c, *itk, StrIter(CharP(it0.p.src, p, it0.p.gen))); move_to(c, *nk, v); near(c, p); unfold(p)
    try:
        if not c.choose(cond()): return True
        c.check('only digits are taken as width', z3.And(p < plen(), digit(ch(p))))
        try: body()
        except Continue: pass
        if step: step()
    except Break: return True
    q = loops.get_path(c.store[itk[0]], itk[1]).p.off; w = loops.get_path(c.store[nk[0]], nk[1])
    c.check('one digit after the other', q == p + 1); c.check('width so far is min(value, 64)', w == lo64(WID(j0, p + 1))); raise PathEnd()
def c_spaces(ip, this, args, n, dst):
    """contract of analyse_spaces_info_, proved in its own unit"""
    c = ip.c; d = args[0]; it = ip.val(d); end = ip.val(args[1])
    if not (isinstance(d, LV) and isinstance(it, StrIter) and isinstance(end, StrIter)): raise Unsupported('analyse_spaces_info_')
    j = it.p.off; c.check('settings are read within the pattern', z3.And(j >= 0, j <= plen())); c.check('the end given is the end of the pattern', end.p.off == plen())
    s = Spec(c, j); c.write(d, StrIter(CharP(it.p.src, s.end, it.p.gen))); c.assume(s.end <= plen()); c.assume(s.end >= j)
    return Obj('spaces_info', dict(target_len_=c.fresh_int('unused', 0, 64), side_=c.fresh_int('side', 0, 2), truncate_=c.fresh_bool('tr'), enabled_=FALSE)) if not c.choose(s.on) else Obj('spaces_info', dict(target_len_=s.w, side_=s.side_value(ip), truncate_=s.trunc, enabled_=TRUE))
def literal(ip, text):
    """an object that outputs this text as it is"""
    lv = root(ip, Obj('aggregate_formatter', {}), 'lit'); ctor(ip, 'aggregate_formatter', lv, [], nparams=0); o = ip.c.read(lv, True); ks = [k for k, v in o.f.items() if isinstance(v, Str)]
    if len(ks) != 1: raise Unsupported('representation of aggregate_formatter')
    ip.c.write(lv.sub(('f', ks[0])), Str(rope(text), 'string', ip.c.newgen())); return lv
def output_of(ip, lv):
    c = ip.c; keep = list(c.trace); b = dest(ip, 'out'); m, _, _ = fresh_msg(ip, 'any'); tm, _ = tm_of(ip, z3.Int('any_secs')); v = c.read(lv, True)
    if not isinstance(v, Obj): raise Unsupported('item')
    f = ip.find_method(ip.ast.classes[v.cls], 'format', find(ip, v.cls, 'format')); ip.run_func(f, lv, [m, tm, b]); c.trace[:] = keep; return drop(c, c.read(b, True).r, sym_text('out').len())
def main_loop(ip, cond, body, step):
    c = ip.c; pat = c.ghost['pattern']; c.ghost['in_main'] = True
    c.check('earlier items are dropped first', z3.BoolVal([e.name for e in c.trace if e.name in ('clear', 'item')] == ['clear']))
    ch_ = probe(ip, cond, body, step); its, lits = [], []
    for k in ch_:
        v = loops.get_path(c.store[k[0]], k[1])
        if isinstance(v, StrIter): its.append(k)
        elif isinstance(v, Ptr) and v.kind == 'unique' and v.t is None: lits.append(k)
        else: raise Unsupported(f'state of the parser: {k[0]}')
    if len(its) != 1 or len(lits) > 1: raise Unsupported('state of the parser')
    itk = its[0]; it0 = loops.get_path(c.store[itk[0]], itk[1]); c.check('the pattern is read from its start', it0.p.off == 0)
    i = z3.Int('position'); c.assume(z3.And(i >= 0, i <= plen())); L = sym_text('literal'); opened = False
    move_to(c, *itk, StrIter(CharP(pat, i, it0.p.gen))); c.trace.clear()
    if lits and c.choose_nd(2): opened = True; c.assume(L.len() >= 1); c.assume(L.len() < 2 ** 31); move_to(c, *lits[0], Ptr(literal(ip, L), 'unique'))
    c.ghost['finish'] = (i, L if opened else None)
    try:
        if not c.choose(cond()): return True
        pos = c.choose(i < plen())
        if not pos: c.violated('no character is read behind the pattern', '', 'post'); raise PathEnd()
        try: body()
        except Continue: pass
        if step: step()
    except Break: return True
    # one step of the grammar
    q = loops.get_path(c.store[itk[0]], itk[1]).p.off; ev = [e for e in c.trace if e.name in ('item', 'clear', 'settings')]; lit = loops.get_path(c.store[lits[0][0]], lits[0][1]) if lits else Ptr(None)
    if not c.choose(ch(i) == ord('%')):
        c.check('a literal character makes no item', z3.BoolVal(not ev)); c.check('one literal character at a time', q == i + 1)
        c.check('the literal text stays open', z3.BoolVal(lit.t is not None))
        if lit.t is None: raise PathEnd()
        want = literal(ip, (L if opened else Rope()) + Chr(ch(i)))
        if c.read(lit.t, True).cls != 'aggregate_formatter': raise Unsupported('literal object')
        c.check('the literal text gains the character', z3.BoolVal(c09.same_state(ip, c.read(lit.t, True), c.read(want, True)))); raise PathEnd()
    c.check('a flag ends the literal text', z3.BoolVal(lit.t is None)); s = Spec(c, S(i + 1))
    if opened:
        if not ev or ev[0].name != 'item': c.violated('the literal text is output before the flag', '', 'post'); raise PathEnd()
        check_literal(ip, ev.pop(0), L)
    c.check('a step that goes on has a complete item', s.end < plen()); f = ch(s.end); c.check('the next item starts after the flag character', q == s.end + 1)
    check_item(ip, ev, f, s); raise PathEnd()
def check_literal(ip, e, text):
    p = e.args[0]
    if not (isinstance(p, Ptr) and isinstance(p.t, LV)): ip.c.violated('literal text is output as it is', str(e), 'post'); return
    ip.c.check_text('literal text is output as it is', output_of(ip, p.t), text)
KNOWN = {cl for cl, _ in FLAGS.values()} | {'full_formatter', 'color_start_formatter', 'color_end_formatter', 'char_formatter', 'aggregate_formatter'}
def check_item(ip, ev, f, s):
    c = ip.c; items = [e for e in ev if e.name == 'item']; c.check('one item for one flag', z3.BoolVal(len(items) == 1))
    if len(items) != 1: return
    x = items[0].args[0]
    if c.choose(HAS(f)):
        c.check('a custom flag overrides a built-in one', z3.BoolVal(isinstance(x, Handle)))
        if not isinstance(x, Handle): return
        c.check('the item is a clone of the custom formatter', x.t == CLONE(CUSTOM(f))); st = [e for e in ev if e.name == 'settings']; c.check('the custom formatter gets its settings once', z3.BoolVal(len(st) == 1 and st[0].args[0] == x))
        if st: s.check(ip, st[0].args[1], 'custom flag')
        return
    if isinstance(x, Handle) or not isinstance(x.t, LV): c.violated('a custom formatter is used only for its flag', '', 'post'); return
    o = c.read(x.t, True); table = {k: cl for k, (cl, _) in FLAGS.items()}; table.update({k: duration_class(ip, d) for k, d in DURATIONS.items()}); table.update({'+': 'full_formatter', '^': 'color_start_formatter', '$': 'color_end_formatter'})
    if c.choose(f == ord('%')): c.check_text('%% is one percent sign', output_of(ip, x.t), Rope(['%'])); return
    for k, cl in table.items():
        if not c.choose(f == ord(k)): continue
        if o.cls != cl:
            if o.cls not in KNOWN and not o.cls.startswith('duration_formatter'): raise Unsupported(f'item class {o.cls}')
            c.violated(f'%{k} makes its own item', f'{o.cls} instead of {cl}', 'post'); return
        sp = o.f.get('spaces_info_')
        if k not in '+^$': s.check(ip, sp, f'%{k}')
        return
    if o.cls in KNOWN - {'aggregate_formatter', 'char_formatter'}: c.violated('an unknown flag is output literally', o.cls, 'post'); return
    c.check_text('an unknown flag is output literally', output_of(ip, x.t), Rope(['%', Chr(f)]))
def parser(ip):
    c = ip.c; need_fields(ip, PF, ('pattern_', 'eol_', 'formatters_', 'custom_flags_'))
    for t in ('pattern', 'eol'): c.assume(z3.And(sym_text(t).len() >= 0, sym_text(t).len() < 2 ** 31))
    pf = root(ip, Obj(PF, dict(pattern_=Str(sym_text('pattern'), 'string', c.newgen()), eol_=Str(sym_text('eol'), 'string', c.newgen()), formatters_=Opaque('itemlist'), custom_flags_=Opaque('flagmap', id='custom'))), 'pf')
    k = z3.Int('any_char'); c.assume(z3.ForAll([k], z3.And(ch(k) >= -128, ch(k) <= 127)))
    return pf
def u_parse(ip, u):
    c = ip.c; pf = parser(ip); c.ghost['pattern'] = pf.sub(('f', 'pattern_')); call(ip, PF, 'analyse_pattern_', pf, [pf.sub(('f', 'pattern_'))], nparams=1)
    if 'finish' not in c.ghost: raise Unsupported('no loop over the pattern')
    i, L = c.ghost['finish']; ev = [e for e in c.trace if e.name in ('item', 'clear', 'settings')]
    if c.choose(i == plen()): pass
    else:
        c.check('parsing stops before the end only at an incomplete item', ch(i) == ord('%')); s = Spec(c, S(i + 1)); c.check('parsing stops before the end only at an incomplete item', s.end == plen())
    if L is not None:
        c.check('literal text at the end is output', z3.BoolVal(bool(ev) and ev[0].name == 'item'))
        if ev and ev[0].name == 'item': check_literal(ip, ev.pop(0), L)
    c.check('nothing else is output', z3.BoolVal(not ev))
def u_spaces(ip, u):
    c = ip.c; pf = parser(ip); p = pf.sub(('f', 'pattern_')); c.ghost['pattern'] = p; g = c.read(p, True).gen; j = z3.Int('start'); c.assume(z3.And(j >= 0, j <= plen()))
    it = root(ip, StrIter(CharP(p, j, g)), 'it'); end = root(ip, StrIter(CharP(p, plen(), g)), 'end'); r = ip.val(call(ip, PF, 'analyse_spaces_info_', pf, [it, end], nparams=2)); s = Spec(c, j)
    s.check(ip, r, 'settings'); c.check('reading goes on right after the settings', c.read(it, True).p.off == s.end); c.check('the settings are read within the pattern', z3.And(s.end >= j, s.end <= plen()))
# ---------------------------------------------------------------- construction, cloning, output
class FormUnit(ParseUnit):
    def contract(self, cls, name):
        if name == 'analyse_pattern_': return lambda ip, this, args, n, dst: ip.c.trace.append(Ev('analyse', text_of(ip, args[0])))
        return FlagUnit.contract(self, cls, name)
    def static_value(self, ip, d): return None
def u_ctor(ip, u):
    c = ip.c; parser(ip); pf = root(ip, Obj(PF, {}), 'new'); a, b = [root(ip, Str(sym_text(t), 'string', c.newgen()), t) for t in ('pattern', 'eol')]; m = root(ip, Opaque('flagmap', id='custom'), 'map'); ctor(ip, PF, pf, [a, b, m], nparams=3); formed(ip, pf, 'constructed', 'custom')
def formed(ip, pf, what, mid):
    c = ip.c; o = c.read(pf, True); ev = [e for e in c.trace if e.name == 'analyse']; c.check(f'{what}: the pattern is parsed once', z3.BoolVal(len(ev) == 1))
    if ev: c.check_text(f'{what}: the pattern given is parsed', ev[0].args[0], sym_text('pattern'))
    c.check_text(f'{what}: pattern', o.f['pattern_'].r, sym_text('pattern')); c.check_text(f'{what}: line terminator', o.f['eol_'].r, sym_text('eol')); m = o.f['custom_flags_']; c.check(f'{what}: custom flags', z3.BoolVal(isinstance(m, Opaque) and m.kw['id'] == mid)); return m
def u_set(ip, u):
    c = ip.c; pf = parser(ip); o = c.read(pf, True); c.store[pf.root] = Obj(PF, dict(o.f, pattern_=Str(sym_text('old'), 'string', c.newgen()))); a = root(ip, Str(sym_text('pattern'), 'string', c.newgen()), 'a'); call(ip, PF, 'set_pattern', pf, [a], nparams=1); formed(ip, pf, 'set_pattern', 'custom')
def u_default(ip, u):
    c = ip.c; parser(ip); pf = root(ip, Obj(PF, {}), 'new'); ctor(ip, PF, pf, [], nparams=0); o = c.read(pf, True); c.check_text('default pattern', o.f['pattern_'].r, Rope(['%+'])); c.check_text('default terminator', o.f['eol_'].r, Rope(['\n']))
    ev = [e for e in c.trace if e.name in ('item', 'analyse')]
    if len(ev) == 1 and ev[0].name == 'analyse': c.check_text('the default pattern is parsed', ev[0].args[0], Rope(['%+'])); return
    ok = len(ev) == 1 and isinstance(ev[0].args[0], Ptr) and isinstance(c.read(ev[0].args[0].t, True), Obj); c.check('the default pattern is one full item', z3.BoolVal(ok and c.read(ev[0].args[0].t, True).cls == 'full_formatter'))
def map_loop(ip, cond, body, step):
    """a loop over the custom flags: each entry, taken once, is stored in the new table under its own key as a clone"""
    c = ip.c
    if probe(ip, cond, body, step): raise Unsupported('loop over the custom flags')
    if c.choose_nd(2): c.ghost['cloned'] = True; return True
    if not c.choose(cond()): raise PathEnd()
    c.trace.clear(); k = z3.Int('some_flag')
    try: body()
    except Continue: pass
    except Break: c.violated('no custom flag is left out', '', 'post')
    ev = [e for e in c.trace if e.name == 'put']; c.check('each custom flag is stored once', z3.BoolVal(len(ev) == 1))
    if len(ev) == 1: x = ev[0].args[1]; c.check('under its own character', ev[0].args[0] == k); c.check('as a clone', z3.BoolVal(isinstance(x, Handle)) if not isinstance(x, Handle) else x.t == CLONE(CUSTOM(k))); c.check('in the new table', z3.BoolVal(ev[0].kw['id'] == 'empty'))
    raise PathEnd()
def u_clone(ip, u):
    c = ip.c; pf = parser(ip); before = c.read(pf, True); c.ghost['cloning'] = True; r = ip.val(call(ip, PF, 'clone', pf, [], nparams=0))
    c.check('a clone is a new object', z3.BoolVal(isinstance(r, Ptr) and isinstance(r.t, LV) and r.t.root != pf.root))
    if not (isinstance(r, Ptr) and isinstance(r.t, LV)): return
    o = c.read(r.t, True); c.check('a clone is a pattern formatter', z3.BoolVal(o.cls == PF)); formed(ip, r.t, 'clone', 'empty'); c.check('the clone has every custom flag', z3.BoolVal(bool(c.ghost.get('cloned'))))
    c.check('cloning leaves the original alone', z3.BoolVal(all(loops.same(before.f[x], c.read(pf, True).f[x]) for x in before.f)))
class AddUnit(FormUnit):
    def make_object(self, ip, k, a, n):
        if k.endswith('Flag'): return self.made(ip, a)
    def new_object(self, ip, t, init, lv):
        while init is not None and init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr') : init = init['inner'][0]
        if t.endswith('Flag'): return self.made(ip, init['inner'])
    def made(self, ip, a):
            x = ip.argv(a); ip.c.check('the arguments go to the custom formatter', ip.tonum(ip.val(x[0])) == z3.Int('arg')); t = z3.Int('made'); ip.c.assume(t > 0); ip.c.trace.append(Ev('made')); return Handle('custom_flag_formatter', t)
def u_add(ip, u):
    c = ip.c; pf = parser(ip); k = z3.Int('flag'); c.assume(z3.And(k >= -128, k <= 127)); a = root(ip, z3.Int('arg'), 'arg'); c.assume(z3.And(z3.Int('arg') >= -2 ** 31, z3.Int('arg') < 2 ** 31)); call(ip, PF, 'add_custom_flag', pf, [k, a], nparams=2)
    ev = [e for e in c.trace if e.name in ('put', 'made')]; c.check('one custom formatter is made and stored', z3.BoolVal([e.name for e in ev] == ['made', 'put']))
    if len(ev) == 2: p = ev[1]; c.check('it is stored under its character', p.args[0] == k); c.check('the one that was made', p.args[1].t == z3.Int('made')); c.check('in the table of this formatter', z3.BoolVal(p.kw['id'] == 'custom'))
class OutUnit(c09.TextUnit):
    handle_kinds = frozenset(['async_logger', 'promise', 'flag_formatter', 'custom_flag_formatter'])
    def handle_contract(self, kind, name):
        if kind == 'flag_formatter' and name == 'format': return c_item
def c_item(ip, h, args, n, dst):
    c = ip.c; m, tm, b = args; g = c.ghost['message']
    if g is not None:
        c.check('every item gets the message itself', z3.BoolVal(isinstance(m, LV) and m == g.lv)); t = c.read(tm, True)
        for k in t.f: c.check('every item gets the local time of the message', t.f[k] == z3.Function('local_' + k, INT, INT)(g.secs))
    o = c.read(b, True); x = sym_text('item', h.t); c.assume(x.len() >= 0); c.write(b, o.upd(c, o.r + x))
def u_format(ip, u):
    c = ip.c; pf = parser(ip); a = z3.Array('items', INT, INT); n = z3.Int('items_n'); c.assume(z3.And(n >= 0, n < 2 ** 40)); q = z3.Int('q'); c.assume(z3.ForAll([q], Implies(z3.And(0 <= q, q < n), z3.Select(a, q) > 0)))
    o = c.read(pf, True); c.store[pf.root] = Obj(PF, dict(o.f, formatters_=Arr(a, n, 'flag_formatter'))); m = M(ip); c.ghost['message'] = m; b = dest(ip); call(ip, PF, 'format', pf, [m.lv, b], nparams=2); k = z3.Int('kf')
    c.check_text('a line is the items in order and the terminator', c.read(b, True).r, sym_text('before') + Rope([Cat(k, I(0), n, [(TRUE, [Sub(Base('item', z3.Select(a, k)))])])]) + sym_text('eol'))
    p = c.read(pf, True); c.check('formatting leaves the pattern alone', z3.BoolVal(all(loops.same(p.f[x], o.f[x]) for x in ('pattern_', 'eol_', 'custom_flags_'))))
def u_simple(ip, u):
    c = ip.c; parser(ip)
    lv = root(ip, Obj('aggregate_formatter', {}), 'lit'); ctor(ip, 'aggregate_formatter', lv, [], nparams=0); x, y = z3.Ints('x y')
    for t in (x, y): c.assume(z3.And(t >= -128, t <= 127)); call(ip, 'aggregate_formatter', 'add_ch', lv, [t], nparams=1)
    c.check_text('literal characters are kept in order', output_of(ip, lv), Rope([Chr(x), Chr(y)]))
    l2 = root(ip, Obj('char_formatter', {}), 'ch'); ctor(ip, 'char_formatter', l2, [x], nparams=1); c.check_text('one character', output_of(ip, l2), Rope([Chr(x)]))
def u_settings(ip, u):
    """a custom formatter keeps the settings the parser gives it"""
    c = ip.c; cl = ip.ast.classes['spaces_info']; f = {}
    for d in ip.fields_of(cl): f[d['name']] = z3.Int('given_' + d['name'])
    g = root(ip, Obj('spaces_info', f), 'given'); b = {d['name'] for x in ('flag_formatter', 'custom_flag_formatter') for d in ip.fields_of(ip.ast.classes[x])}
    old = Obj('spaces_info', {k: z3.Int('old_' + k) for k in f}); o = root(ip, Obj('custom_flag_formatter', {n: old for n in b}), 'custom')
    if len(b) != 1: raise Unsupported('representation of flag_formatter')
    call(ip, 'custom_flag_formatter', 'set_spaces_info', o, [g]); r = c.read(o.sub(('f', min(b))), True); c.check('it has every setting given', z3.And([r.f[k] == f[k] for k in f]))
def units():
    K = lambda n, f, r, b=FormUnit, **kw: U(n, [PF + '::' + x if '::' not in x else x for x in f], r, base=b, **kw)
    return [K('settings of one item', ['analyse_spaces_info_'], u_spaces, ParseUnit), K('one step of the parser', ['analyse_pattern_', 'append_flag_formatter_'], u_parse, ParseUnit, main=True, spaces_contract=True),
            K('constructor', [PF], u_ctor), K('default constructor', [PF], u_default), K('set_pattern', ['set_pattern'], u_set), K('clone', ['clone'], u_clone), K('add_custom_flag', ['add_custom_flag'], u_add, AddUnit), K('settings of a custom flag', ['custom_flag_formatter::set_spaces_info'], u_settings), K('output of a line', ['format'], u_format, OutUnit), K('literal items', ['aggregate_formatter::add_ch', 'aggregate_formatter::format', 'char_formatter::format'], u_simple)]
