"""Symbolic execution of clang's AST: every path of a function body, with C++ object semantics."""
import re
import z3
from core import *
from front import norm

INTS = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0),
        'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0),
        'size_t': (64, 0), 'std::size_t': (64, 0), '__int64_t': (64, 1), '__uint64_t': (64, 0), 'std::streamsize': (64, 1), 'ptrdiff_t': (64, 1),
        'unsigned': (32, 0), 'time_t': (64, 1), 'std::time_t': (64, 1), '__time_t': (64, 1), 'ssize_t': (64, 1), '__ssize_t': (64, 1), 'off_t': (64, 1), '__off_t': (64, 1), 'int8_t': (8, 1), 'uint8_t': (8, 0), 'int16_t': (16, 1), 'uint16_t': (16, 0), 'int32_t': (32, 1), 'uint32_t': (32, 0), 'int64_t': (64, 1), 'uint64_t': (64, 0), 'uintptr_t': (64, 0), 'intptr_t': (64, 1), '__gthread_t': (64, 0), 'mode_t': (32, 0), '__mode_t': (32, 0)}
SIZES = {'char': 1, 'bool': 1, 'short': 2, 'int': 4, 'long': 8}

def is_iter(v): return getattr(v, 'fam', None) == 'iter'
def strip_cv(t):
    t = t.strip()
    t = re.sub(r'^(const|volatile) ', '', t)
    while True:
        u = re.sub(r'( ?(const|volatile|&&|&))$', '', t).strip()
        if u == t: break
        t = u
    t = re.sub(r'^(const|volatile|struct|class|enum) ', '', t)
    return t

def qt(d):
    t = d.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))

class FuncRef:
    def __init__(self, decl): self.decl = decl

class Frame:
    def __init__(self, func, this): self.func = func; self.this = this; self.env = {}; self.scopes = []; self.dest = None; self.lambda_node = None

def symrem(a, b):
    """a % b for a symbolic divisor: an uninterpreted function, bounded"""
    return z3.Function('rem', z3.IntSort(), z3.IntSort(), z3.IntSort())(S(a), S(b))
class Interp:
    def __init__(self, ctx, engine, lib):
        self.c = ctx; ctx.ip = self; self.e = engine; self.ast = engine.ast; self.lib = lib; self.frames = []; self.depth = 0; self.excs = []; self.statics = {}
        ctx.ip = self
    @property
    def fr(self): return self.frames[-1]
    # ------------------------------------------------------------ types
    def typ(self, n): return norm(strip_cv(qt(n)))
    def int_type(self, t):
        t = strip_cv(t)
        if t in INTS: return INTS[t]
        s = norm(t)
        if s in INTS: return INTS[s]
        a = self.ast.aliases.get(s.split('::')[-1])
        if a is not None and len(a) == 1 and next(iter(a)) in INTS: return INTS[next(iter(a))]
        if s.split('::')[-1] in self.ast.enum_types or 'memory_order' in s or '_Ios_' in s: return (32, 1)
        return None
    def is_ref(self, t): return t.rstrip().endswith('&')
    def is_class(self, t):
        t = t.strip()
        if t.endswith('*') or t.endswith('* const') or t in ('void', 'std::nullptr_t', 'nullptr_t'): return False
        if self.int_type(t) or t in ('double', 'float', 'long double'): return False
        if re.search(r'\(\*\)', t) or re.search(r'::\*\)', t): return False
        return True
    def cls(self, t): return self.ast.classes.get(norm(strip_cv(t)))
    def rng(self, t):
        b, s = t
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    # ------------------------------------------------------------ arithmetic
    def fit(self, v, t, signed_overflow_is_ub=True, what='arithmetic'):
        """bring an exact integer result into type t"""
        c = self.c; v = S(v); lo, hi = self.rng(t)
        if is_const(v):
            x = cval(v)
            if lo <= x <= hi: return v
            if t[1] and signed_overflow_is_ub: c.violated(f'signed overflow in {what}', str(v)); raise PathEnd()
            x &= (1 << t[0]) - 1
            return I(x - (1 << t[0]) if t[1] and x > hi else x)
        if c.prove(z3.And(v >= lo, v <= hi)): return v
        if t[1] and signed_overflow_is_ub:
            c.check(f'no signed overflow in {what}', z3.And(v >= lo, v <= hi), 'safety', str(v)[:200]); return v
        m = 1 << t[0]
        if c.choose(z3.And(v >= lo, v <= hi)): return v
        if c.choose(z3.And(v < lo, v >= lo - m)): return S(v + m)
        if c.choose(z3.And(v > hi, v <= hi + m)): return S(v - m)
        r = v % m
        return S(z3.If(r > hi, r - m, r)) if t[1] else S(r)
    def tobool(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, Ptr): return z3.BoolVal(v.t is not None)
        if isinstance(v, Handle): return v.t != 0
        if isinstance(v, CharP): return z3.BoolVal(v.src is not None) if not isinstance(v.src, Handle) else v.src.t != 0
        if z3.is_expr(v): return v if z3.is_bool(v) else S(v != 0)
        raise Unsupported(f'truth value of {v}')
    def tonum(self, v):
        if isinstance(v, int): return I(v)
        if z3.is_expr(v): return S(z3.If(v, I(1), I(0))) if z3.is_bool(v) else v
        raise Unsupported(f'number expected: {v}')
    def conv(self, v, t):
        """integral conversion to (bits, signed)"""
        if t == (1, 0): return self.tobool(v)
        return self.fit(self.tonum(v), t, False, 'conversion')
    def arith(self, op, a, b, t, what):
        c = self.c
        if op in ('+', '-', '*'):
            if op == '*' and not is_const(S(a)) and not is_const(S(b)): raise Unsupported('nonlinear product')
            r = a + b if op == '+' else a - b if op == '-' else a * b
            return self.fit(r, t, True, what)
        if op in ('/', '%'):
            c.check('divisor is not zero', b != 0, 'safety', lambda: f'{a} {op} {b}')
            a, b = S(a), S(b)
            if is_const(b) and cval(b) > 0:
                if t[1] and not c.prove(a >= 0):
                    if c.choose(a >= 0): return S(a / b if op == '/' else a % b)
                    q = -((-a) / b)
                    return S(q if op == '/' else a - q * b)
                return S(a / b if op == '/' else a % b)
            if not c.prove(z3.And(a >= 0, b > 0)): raise Unsupported('division with negative symbolic operands')
            if getattr(self.e.unit, 'symdiv', False) and op == '%':
                r = symrem(a, b); c.assume(z3.And(r >= 0, r < b, z3.Implies(a < b, r == a))); return r
            q = 0
            while q < 4:
                if c.choose(a < (q + 1) * b): return I(q) if op == '/' else S(a - q * b)
                q += 1
            raise Unsupported('division by a symbolic divisor')
        if op in ('&', '|', '^', '<<', '>>'):
            a, b = S(a), S(b)
            if is_const(a) and is_const(b):
                x, y = cval(a), cval(b)
                return self.fit(I({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op]), t, False)
            raise Unsupported(f'bit operation {op}')
        raise Unsupported(op)
    def compare(self, op, a, b):
        num = lambda x: self.tonum(x)
        if is_iter(a) and is_iter(b):
            if a.cont != b.cont: raise Unsupported('iterators of different containers')
            a, b = a.i, b.i
        if isinstance(a, (Ptr, Handle, CharP)) or isinstance(b, (Ptr, Handle, CharP)) or a is None or b is None:
            eq = self.ptr_eq(a, b)
            if op == '==': return eq
            if op == '!=': return S(z3.Not(eq))
            if isinstance(a, CharP) and isinstance(b, CharP) and a.src == b.src: a, b = a.off, b.off
            else: raise Unsupported(f'pointer comparison {op}')
        if z3.is_expr(a) and z3.is_expr(b) and z3.is_bool(a) and z3.is_bool(b) and op in ('==', '!='):
            return S(a == b) if op == '==' else S(a != b)
        a, b = num(a), num(b)
        return S({'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]())
    def ptr_eq(self, a, b):
        null = lambda x: x is None or (isinstance(x, Ptr) and x.t is None) or (isinstance(x, CharP) and x.src is None)
        if null(a) and null(b): return TRUE
        if null(b): a, b = b, a
        if null(a): return S(z3.Not(self.tobool(b)))
        if isinstance(a, Handle) and isinstance(b, Handle): return S(a.t == b.t)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return z3.BoolVal(a.t == b.t)
        if isinstance(a, CharP) and isinstance(b, CharP) and a.src == b.src: return S(a.off == b.off)
        raise Unsupported(f'pointer comparison of {a} and {b}')
    # ------------------------------------------------------------ values
    def fresh_of(self, t, name='u'):
        it = self.int_type(t)
        if it == (1, 0): return self.c.fresh_bool(name)
        if it: lo, hi = self.rng(it); return self.c.fresh_int(name, lo, hi)
        return None
    def default_value(self, t):
        """default-initialised object of type t"""
        t0 = strip_cv(t)
        v = self.fresh_of(t0)
        if v is not None: return v
        if t0.endswith('*'): return Ptr(None)      # indeterminate; reads of it are not expected
        return self.lib.construct(self, norm(t0), [], None)
    def read(self, d):
        if isinstance(d, LV): return self.c.read(d)
        if isinstance(d, (Handle, FuncRef)): return d
        return d
    def val(self, x): return self.c.read(x) if isinstance(x, LV) else x
    def obj_at(self, d): return self.c.read(d, True) if isinstance(d, LV) else d
    def deref(self, p, what='dereference'):
        """designator of *p"""
        c = self.c
        if isinstance(p, Ptr):
            if p.t is None: c.violated(f'null pointer in {what}'); raise PathEnd()
            return p.t
        if isinstance(p, Handle):
            if not is_const(S(p.t)) or cval(S(p.t)) == 0: c.check(f'pointer is not null in {what}', p.t != 0, 'safety')
            return p
        if isinstance(p, CharP): return p
        if isinstance(p, LV): return p
        if isinstance(p, Val) and hasattr(p, 'deref'): return p.deref(self)
        raise Unsupported(f'dereference of {p}')
    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get('kind')
        if k is None or k == 'NullStmt': return
        m = getattr(self, 's_' + k, None)
        if m: return m(n)
        self.full(lambda: self.discard(n))
    def full(self, fn):
        """full expression: temporaries die at its end"""
        c = self.c; old = c.temps; c.temps = []
        try:
            r = fn()
        except (CppThrow, Return):
            self.kill(c.temps); c.temps = old; raise
        self.kill(c.temps); c.temps = old
        return r
    def kill(self, lst):
        while lst: self.destroy(lst.pop())
    def discard(self, n):
        if n.get('valueCategory') == 'prvalue' and self.is_class(qt(n)):
            lv = self.temp(); self.init_into(n, lv)
        else: self.ev(n)
    def temp(self):
        lv = self.c.new_root(None, 't'); self.c.store[lv.root] = Opaque('uninit')
        if self.c.temps is not None: self.c.temps.append(lv)
        return lv
    def s_CompoundStmt(self, n):
        sc = []; self.fr.scopes.append(sc)
        try:
            for s in n.get('inner', []): self.stmt(s)
        except (Return, Break, Continue, CppThrow): self.unwind(sc); raise
        self.unwind(sc)
    def unwind(self, sc):
        assert self.fr.scopes[-1] is sc; self.fr.scopes.pop()
        self.kill(sc)
    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d.get('kind') == 'VarDecl': self.vardecl(d)
    def vardecl(self, d):
        c = self.c; t = qt(d); init = [x for x in d.get('inner', []) if 'kind' in x and x['kind'] not in ('FullComment',) and not x['kind'].endswith('Attr')]
        fr = self.fr
        if d.get('storageClass') == 'static' or d.get('tls'):
            fr.env[d['id']] = self.static_var(d); return
        if self.is_ref(d['type']['qualType']):
            def f():
                x = self.glv(init[0], extend=fr.scopes[-1]); fr.env[d['id']] = x
            self.full(f); return
        lv = c.new_root(Opaque('uninit'), d.get('name', 'v')); fr.env[d['id']] = lv
        if init: self.full(lambda: self.init_into(init[0], lv))
        else: c.store[lv.root] = self.default_value(t)
        fr.scopes[-1].append(lv)
    def static_var(self, d):
        key = 'static:' + d['id']; nm = d.get('name')
        if key in self.c.ghost: return self.c.ghost[key]
        ov = self.e.unit.static_value(self, d)
        mutable = not qt(d).startswith('const') and not d.get('constexpr') and ' const' not in qt(d)
        if ov is None and (mutable or self.of_this_call(d)):     # an earlier call may have set it
            it = self.int_type(self.typ(d))
            ov = self.fresh_of(qt(d)) if it else self.lib.any_value(self, self.typ(d), bool(d.get('tls')))
        lv = LV(key); self.c.ghost[key] = lv
        if d.get('tls'): self.c.ghost['tls'] = self.c.ghost.get('tls', ()) + (key,)
        if ov is not None: self.c.store[key] = ov
        else:
            self.c.store[key] = Opaque('uninit')
            init = [x for x in d.get('inner', []) if 'kind' in x and not x['kind'].endswith('Attr')]
            was, self.c.ghost['earlier'] = self.c.ghost.get('earlier'), True      # initialised by the first call ever
            try:
                if init: self.full(lambda: self.init_into(init[0], lv))
                else: self.c.store[key] = self.default_value(qt(d))
            finally: self.c.ghost['earlier'] = was
        return lv
    def of_this_call(self, d):
        """does the initialiser of a static local use this object, a parameter or a local variable of the call?"""
        todo = [x for x in d.get('inner', []) if isinstance(x, dict)]
        while todo:
            n = todo.pop()
            if n.get('kind') == 'CXXThisExpr': return True
            if n.get('kind') == 'DeclRefExpr':
                lv = self.fr.env.get(n.get('referencedDecl', {}).get('id'))
                if lv is not None and not str(getattr(lv, 'root', '')).startswith('static:'):
                    try: v = self.c.store.get(lv.root)
                    except Exception: v = None
                    if not (z3.is_expr(v) and is_const(S(v))): return True
            todo += [x for x in n.get('inner', []) if isinstance(x, dict)]
        return False
    def s_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner: raise Return(None)
        e = inner[0]; fr = self.fr; rt = fr.rtype
        if self.is_ref(rt):
            v = self.full(lambda: self.glv(e))
        elif self.is_class(rt) and strip_cv(rt) != 'void':
            dst = fr.dest if fr.dest is not None else self.c.new_root(Opaque('uninit'), 'ret')
            self.full(lambda: self.init_into(e, dst)); v = dst
        else: v = self.full(lambda: self.rv(e))
        raise Return(v)
    def cond(self, n): return self.full(lambda: self.tobool(self.rv(n)))
    def s_IfStmt(self, n):
        inner = list(n['inner'])
        sc = []; self.fr.scopes.append(sc)
        try:
            if n.get('hasInit'): self.stmt(inner.pop(0))
            if n.get('hasVar'): self.stmt(inner.pop(0))
            if self.c.choose(self.cond(inner[0])): self.stmt(inner[1])
            elif len(inner) > 2: self.stmt(inner[2])
        except (Return, Break, Continue, CppThrow): self.unwind(sc); raise
        self.unwind(sc)
    def s_WhileStmt(self, n):
        inner = n['inner']
        self.loop(n, lambda: self.cond(inner[-2]), inner[-1], None)
    def s_DoStmt(self, n):
        body, cd = n['inner']
        def turn():
            try: self.stmt(body)
            except Continue: pass
            if not self.c.choose(self.cond(cd)): raise Break()
        if self.e.unit.loop_hook(self, n, None, turn, None) is not None: return
        try: self.stmt(body)
        except Continue: pass
        except Break: return
        self.loop(n, lambda: self.cond(cd), body, None)
    def s_ForStmt(self, n):
        init, var, cd, inc, body = n['inner']
        sc = []; self.fr.scopes.append(sc)
        try:
            self.stmt(init)
            self.loop(n, (lambda: self.cond(cd)) if 'kind' in cd else None, body, (lambda: self.stmt(inc)) if 'kind' in inc else None)
        except (Return, Break, Continue, CppThrow): self.unwind(sc); raise
        self.unwind(sc)
    def s_CXXForRangeStmt(self, n):
        init, rng, beg, end, cd, inc, var, body = n['inner']
        sc = []; self.fr.scopes.append(sc)
        try:
            self.stmt(init); self.stmt(rng); self.stmt(beg); self.stmt(end)
            def b():
                s2 = []; self.fr.scopes.append(s2)
                try: self.stmt(var); self.stmt(body)
                except (Return, Break, Continue, CppThrow): self.unwind(s2); raise
                self.unwind(s2)
            self.loop(n, lambda: self.cond(cd), b, lambda: self.stmt(inc))
        except (Return, Break, Continue, CppThrow): self.unwind(sc); raise
        self.unwind(sc)
    def s_BreakStmt(self, n): raise Break()
    def s_ContinueStmt(self, n): raise Continue()
    def s_SwitchStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'): self.stmt(inner.pop(0))
        if n.get('hasVar'): self.stmt(inner.pop(0))
        v = self.full(lambda: self.tonum(self.rv(inner[0]))); body = inner[1]
        # flatten: list of (labels, stmt)
        items = []
        def add(s):
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt': labels.append(self.tonum(self.rv(s['inner'][0]))); s = s['inner'][-1]
                else: labels.append(None); s = s['inner'][-1]
            items.append((labels, s))
        for s in (body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]): add(s)
        start = None
        for i, (ls, _) in enumerate(items):
            for l in ls:
                if l is not None and start is None and self.c.choose(v == l): start = i
            if start is not None: break
        if start is None:
            for i, (ls, _) in enumerate(items):
                if None in ls: start = i
        if start is None: return
        sc = []; self.fr.scopes.append(sc)
        try:
            for _, s in items[start:]: self.stmt(s)
        except Break: self.unwind(sc); return
        except (Return, Continue, CppThrow): self.unwind(sc); raise
        self.unwind(sc)
    def s_CXXTryStmt(self, n):
        body, handlers = n['inner'][0], n['inner'][1:]
        try: return self.stmt(body)
        except CppThrow as e: ex = e
        for h in handlers:
            inner = h.get('inner', []); var = inner[0] if len(inner) > 1 and inner[0].get('kind') == 'VarDecl' else None
            if var is not None:
                if not self.lib.exc_matches(self, ex.exc, norm(strip_cv(qt(var)))): continue
                lv = ex.exc.lv if getattr(ex.exc, 'lv', None) is not None else self.c.new_root(ex.exc, 'exc')
                ex.exc.lv = lv; self.fr.env[var['id']] = lv
            self.excs.append(ex)
            try: self.stmt(inner[-1])
            finally: self.excs.pop()
            return
        raise ex
    # ------------------------------------------------------------ loops
    def loop(self, n, cond, body, step):
        runb = body if callable(body) else (lambda: self.stmt(body))
        h = self.e.unit.loop_hook(self, n, cond, runb, step)
        if h is not None:
            return
        import loops
        loops.run(self, n, cond, runb, step)
    # ------------------------------------------------------------ expressions
    def rv(self, n):
        """value of an expression"""
        if n.get('valueCategory') in ('lvalue', 'xvalue'): return self.read(self.ev(n))
        if self.is_class(qt(n)) and n['kind'] not in ('DeclRefExpr',):
            lv = self.temp(); self.init_into(n, lv); return self.c.read(lv, True)
        return self.ev(n)
    def glv(self, n, extend=None):
        """designator of a glvalue (or of a temporary made from a prvalue)"""
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            if n['kind'] in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'MaterializeTemporaryExpr') and extend is not None:
                if n['kind'] == 'MaterializeTemporaryExpr': return self.e_MaterializeTemporaryExpr(n, extend)
                if n['kind'] != 'ImplicitCastExpr' or n['castKind'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'): return self.glv(n['inner'][0], extend)
            return self.ev(n)
        if self.is_class(qt(n)):
            lv = self.temp(); self.init_into(n, lv); return lv
        return self.c.new_root(self.ev(n), 't')
    def ev(self, n):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None: raise Unsupported(f'expression {n["kind"]}')
        return m(n)
    PASS = ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'SubstNonTypeTemplateParmExpr')
    def init_into(self, n, lv):
        """initialise the object at lv with the expression"""
        c = self.c; k = n['kind']
        if n.get('valueCategory') in ('lvalue', 'xvalue') and k != 'MaterializeTemporaryExpr':
            v = self.read(self.ev(n)); c.write(lv, v, True); return
        if k in self.PASS or (k == 'ConstantExpr'): return self.init_into(n['inner'][0], lv)
        if not self.is_class(qt(n)):
            c.write(lv, self.ev(n), True); return
        if k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'MaterializeTemporaryExpr'):
            return self.init_into(n['inner'][0], lv)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            args = n.get('inner', [])
            if n.get('elidable') and args:
                a = args[0]
                while a['kind'] in ('MaterializeTemporaryExpr', 'ImplicitCastExpr') and a.get('castKind', 'NoOp') == 'NoOp': a = a['inner'][0]
                if a.get('valueCategory') == 'prvalue': return self.init_into(a, lv)
            return self.construct(self.typ(n), n.get('ctorType', {}).get('qualType', ''), args, lv, n)
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr'):
            r = self.call_expr(n, lv)
            if isinstance(r, LV):
                if r != lv: c.write(lv, c.read(r, True), True)
            else: c.write(lv, r, True)
            return
        if k == 'LambdaExpr': c.write(lv, self.lam(n), True); return
        if k == 'ConditionalOperator':
            a, x, y = n['inner']
            return self.init_into(x if c.choose(self.tobool(self.rv(a))) else y, lv)
        if k == 'InitListExpr': c.write(lv, self.lib.init_list(self, n), True); return
        if k == 'CXXStdInitializerListExpr':
            a = n['inner'][0]
            while a['kind'] != 'InitListExpr': a = a['inner'][0]
            els = []
            for x in a.get('inner', []):
                t = self.c.new_root(Opaque('uninit'), 'il'); self.init_into(x, t); els.append(t)
            c.write(lv, Opaque('initializer_list', els=tuple(els)), True); return
        if k == 'CXXDefaultInitExpr': return self.init_into(n['inner'][0], lv)
        if k in ('ImplicitValueInitExpr', 'CXXScalarValueInitExpr'): c.write(lv, self.default_value(qt(n)), True); return
        raise Unsupported(f'class prvalue {k}')
    def lam(self, n):
        rec = n['inner'][0]; body = n['inner'][-1]; caps = n['inner'][1:-1]
        fields = [x for x in rec.get('inner', []) if x.get('kind') == 'FieldDecl']
        env = {}; this = None
        for f, e in zip(fields, caps):
            if e['kind'] == 'CXXThisExpr': this = self.fr.this; continue
            byref = self.is_ref(f['type']['qualType'])
            x = e
            while x['kind'] in ('CXXConstructExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') and x.get('inner'): x = x['inner'][0]
            if x['kind'] != 'DeclRefExpr': raise Unsupported('lambda capture')
            did = x['referencedDecl']['id']
            if byref: env[did] = self.glv(e)
            else:
                lv = self.c.new_root(Opaque('uninit'), 'cap'); self.init_into(e, lv); env[did] = lv
        return Closure(n, env, this if this is not None else None)
    def lambda_func(self, n):
        for x in n['inner'][0].get('inner', []):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()': return x
            if x.get('kind') == 'FunctionTemplateDecl': raise Unsupported('generic lambda')
    def invoke(self, f, args):
        """call a callable value"""
        if isinstance(f, Bound):
            a = list(f.args) + list(args); fn = f.fn
            if isinstance(fn, FuncRef) and fn.decl['kind'] == 'CXXMethodDecl': return self.invoke_member(fn.decl, a)
            return self.invoke(fn, a)
        if isinstance(f, Closure):
            m = self.lambda_func(f.node)
            from front import Func
            fn = Func('lambda', m, None)
            return self.run_func(fn, f.this, args, env=f.env)
        if isinstance(f, Ptr) and isinstance(f.t, LV): return self.invoke(self.c.read(f.t, True), args)
        if isinstance(f, (Handle, Opaque)) or (isinstance(f, Val) and hasattr(f, 'call')): return self.lib.call_function_object(self, f, args)
        if isinstance(f, FuncRef): return self.call_decl(f.decl, None, args, None, None)
        raise Unsupported(f'call of {f}')
    # -- atoms
    def e_IntegerLiteral(self, n): return I(int(n['value']))
    def e_CharacterLiteral(self, n): return I(int(n['value']) if int(n['value']) < 128 else int(n['value']) - 256)
    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n['value']))
    def e_CXXNullPtrLiteralExpr(self, n): return Ptr(None)
    def e_GNUNullExpr(self, n): return Ptr(None)
    def e_StringLiteral(self, n):
        import ast as pyast
        s = n['value']
        try: v = pyast.literal_eval(re.sub(r'\\([0-7]{1,3})', lambda m: '\\x%02x' % int(m.group(1), 8), s))
        except Exception: raise Unsupported('string literal')
        return CharP(Lit(v), 0)
    def e_PredefinedExpr(self, n): return self.ev(n['inner'][0])
    def e_SourceLocExpr(self, n): return I(1)
    def e_CXXThisExpr(self, n):
        t = self.fr.this
        if t is None: raise Unsupported('this')
        return t if isinstance(t, Handle) else Ptr(t)
    def e_ConstantExpr(self, n):
        if 'value' in n and self.int_type(self.typ(n)):
            try:
                v = int(n['value']); return z3.BoolVal(v != 0) if self.int_type(self.typ(n)) == (1, 0) else I(v)
            except ValueError: pass
        return self.ev(n['inner'][0])
    def e_ExprWithCleanups(self, n): return self.ev(n['inner'][0])
    e_ParenExpr = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_ExprWithCleanups
    def e_CXXDefaultInitExpr(self, n): return self.ev(n['inner'][0])
    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'): return self.ev(n['inner'][0])
        raise Unsupported('default argument')
    def e_ImplicitValueInitExpr(self, n): return I(0) if self.int_type(self.typ(n)) != (1, 0) else FALSE
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType'); t = (t.get('desugaredQualType', t['qualType']) if t else qt(n['inner'][0]))
            t = strip_cv(t)
            if t in INTS: return I(max(1, INTS[t][0] // 8))
            m = re.match(r'(.*?) ?\[(\d+)\]$', t)
            if m and m.group(1).strip() in INTS: return I(INTS[m.group(1).strip()][0] // 8 * int(m.group(2)))
            if t.endswith('*'): return I(8)
        raise Unsupported('sizeof')
    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']; k = r['kind']
        if k == 'EnumConstantDecl':
            if r['id'] in self.ast.enums: return I(self.ast.enums[r['id']])
            return self.lib.enum_const(self, r)
        if k in ('FunctionDecl', 'CXXMethodDecl'): return FuncRef(r)
        did = r['id']
        for f in (self.fr,):
            if did in f.env: return f.env[did]
        return self.global_var(r)
    def global_var(self, r):
        did = r['id']; key = 'global:' + did
        if key in self.c.ghost: return self.c.ghost[key]
        ov = self.e.unit.global_value(self, r)
        d = self.ast.by_id.get(did)
        if ov is None and d is None:
            ov = self.lib.lib_global(self, r)
        lv = LV(key); 
        if isinstance(ov, LV): self.c.ghost[key] = ov; return ov
        if ov is not None:
            self.c.ghost[key] = lv; self.c.store[key] = ov; return lv
        d = self.ast.vars_init.get(did, d) if hasattr(self.ast, 'vars_init') else d
        if not (('const' in qt(d)) or d.get('constexpr')): raise Unsupported(f'global variable {r.get("name")}')
        self.c.ghost[key] = lv; self.c.store[key] = Opaque('uninit')
        init = [x for x in d.get('inner', []) if 'kind' in x and not x['kind'].endswith('Attr')]
        if not init: raise Unsupported(f'global {r.get("name")} without initialiser')
        sv = self.c.temps; self.c.temps = []
        self.init_into(init[0], lv); self.c.temps = sv
        return lv
    def e_MaterializeTemporaryExpr(self, n, extend=None):
        inner = n['inner'][0]
        lv = self.c.new_root(Opaque('uninit'), 't')
        self.init_into(inner, lv)
        if extend is not None: extend.append(lv)
        elif self.c.temps is not None: self.c.temps.append(lv)
        return lv
    def e_MemberExpr(self, n):
        b = n['inner'][0]
        if n.get('isArrow'): base = self.deref(self.rv(b), f'->{n["name"]}')
        else: base = self.glv(b)
        return self.member(base, n['name'], n.get('referencedMemberDecl'))
    def member(self, base, name, did=None):
        if isinstance(base, Handle): return self.lib.handle_field(self, base, name)
        v = self.c.read(base, True)
        if isinstance(v, Handle): return self.lib.handle_field(self, v, name)
        lv = base.sub(('f', name))
        if isinstance(v, Obj):
            if name not in v.f: raise Unsupported(f'{v.cls} has no field {name}')
            x = v.f[name]
            if isinstance(x, Ptr) and x.kind == 'ref': return x.t
        return lv
    def e_ArraySubscriptExpr(self, n):
        a, i = n['inner']
        p = self.rv(a); i = self.tonum(self.rv(i))
        if isinstance(p, Ptr) and p.t is not None: return self.lib.index(self, p.t, i, 'array index')
        if is_iter(p): return self.lib.index(self, p.cont, S(p.i + i), 'array index')
        if isinstance(p, CharP): return CharP(p.src, S(p.off + i), p.gen)
        raise Unsupported('array subscript')
    def e_ImplicitCastExpr(self, n):
        k = n['castKind']; a = n['inner'][0]
        if k == 'LValueToRValue':
            d = self.ev(a)
            return self.load(d)
        if k in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'Dynamic'):
            if n.get('valueCategory') in ('lvalue', 'xvalue'): return self.glv(a)
            if self.is_class(qt(n)): return self.rv(a)
            return self.rv(a) if a.get('valueCategory') != 'prvalue' or not self.is_class(qt(a)) else self.ev(a)
        if k == 'IntegralCast': return self.conv(self.rv(a), self.need_int(n))
        if k == 'IntegralToBoolean': return self.tobool(self.rv(a))
        if k == 'PointerToBoolean': return self.tobool(self.rv(a))
        if k == 'NullToPointer': return Ptr(None)
        if k == 'ArrayToPointerDecay':
            d = self.ev(a)
            if isinstance(d, CharP): return d
            return Ptr(d)
        if k == 'FunctionToPointerDecay' or k == 'BuiltinFnToFnPtr': return self.ev(a)
        if k == 'BitCast': return self.rv(a)
        if k == 'ToVoid': self.discard(a); return None
        raise Unsupported(f'cast {k}')
    def need_int(self, n):
        t = self.int_type(self.typ(n))
        if t is None: raise Unsupported(f'integer type {qt(n)}')
        return t
    def load(self, d):
        if isinstance(d, LV):
            v = self.c.read(d)
            if isinstance(v, Opaque) and v.fam == 'uninit': raise Unsupported('uninitialised read')
            return v
        if isinstance(d, CharP): return self.lib.load_char(self, d)
        return d
    def e_CXXStaticCastExpr(self, n):
        k = n.get('castKind')
        if k in ('NoOp', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and n.get('valueCategory') in ('lvalue', 'xvalue'): return self.glv(n['inner'][0])
        return self.e_ImplicitCastExpr(n)
    e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXStaticCastExpr
    def e_UnaryOperator(self, n):
        op = n['opcode']; a = n['inner'][0]
        if op in ('++', '--'):
            d = self.glv(a); v = self.load(d); t = self.int_type(self.typ(a))
            if isinstance(v, CharP): nv = CharP(v.src, S(v.off + (1 if op == '++' else -1)), v.gen)
            elif is_iter(v): nv = v.with_terms([S(v.i + (1 if op == '++' else -1))])
            elif t: nv = self.arith('+' if op == '++' else '-', self.tonum(v), I(1), t, op)
            else: raise Unsupported(f'{op} on {qt(a)}')
            self.store(d, nv)
            return v if n.get('isPostfix') else d
        if op == '*': return self.deref(self.rv(a))
        if op == '&':
            if a['kind'] == 'DeclRefExpr' and a['referencedDecl']['kind'] in ('CXXMethodDecl', 'FunctionDecl'): return self.ev(a)
            d = self.glv(a)
            return d if isinstance(d, (Handle, CharP, FuncRef)) else Ptr(d)
        if op == '!': return S(z3.Not(self.tobool(self.rv(a))))
        v = self.tonum(self.rv(a))
        if op == '-': return self.fit(-v, self.need_int(n), True, 'negation')
        if op == '+': return v
        if op == '~': return self.fit(-v - 1, self.need_int(n), False)
        raise Unsupported(f'unary {op}')
    def store(self, d, v):
        if isinstance(d, LV): self.c.write(d, v); return
        raise Unsupported(f'write to {d}')
    def e_BinaryOperator(self, n):
        op = n['opcode']; a, b = n['inner']; c = self.c
        if op == '=':
            d = self.glv(a); v = self.rv(b); self.store(d, v); return d
        if op == ',': self.discard(a); return self.ev(b)
        if op in ('&&', '||'):
            x = self.tobool(self.rv(a))
            if op == '&&':
                return self.tobool(self.rv(b)) if c.choose(x) else FALSE
            return TRUE if c.choose(x) else self.tobool(self.rv(b))
        x = self.rv(a); y = self.rv(b)
        if op in ('==', '!=', '<', '<=', '>', '>='): return self.compare(op, x, y)
        if isinstance(x, CharP) or isinstance(y, CharP):
            if op == '-' and isinstance(y, CharP):
                if x.src != y.src: raise Unsupported('pointer difference')
                return S(x.off - y.off)
            if isinstance(y, CharP): x, y = y, x
            return CharP(x.src, S(x.off + self.tonum(y)) if op == '+' else S(x.off - self.tonum(y)), x.gen)
        if is_iter(x) and is_iter(y):
            if x.cont != y.cont or op != '-': raise Unsupported('iterators of different containers')
            return S(x.i - y.i)
        if is_iter(y): x, y = y, x
        if is_iter(x) and op in '+-': return x.with_terms([S(x.i + self.tonum(y)) if op == '+' else S(x.i - self.tonum(y))])
        return self.arith(op, self.tonum(x), self.tonum(y), self.need_int(n), f"'{op}'")
    def e_CompoundAssignOperator(self, n):
        a, b = n['inner']; d = self.glv(a); y = self.rv(b); x = self.load(d); op = n['opcode'][:-1]
        ct = n.get('computeResultType', {}); t = self.int_type(norm(ct.get('desugaredQualType', ct.get('qualType', '')))) or self.need_int(n)
        if isinstance(x, CharP): v = CharP(x.src, S(x.off + (self.tonum(y) if op == '+' else -self.tonum(y))), x.gen)
        elif is_iter(x): v = x.with_terms([S(x.i + (self.tonum(y) if op == '+' else -self.tonum(y)))])
        else: v = self.conv(self.arith(op, self.conv(x, t), self.conv(y, t) if op not in ('<<', '>>') else y, t, f"'{op}='"), self.need_int(n))
        self.store(d, v); return d
    def e_ConditionalOperator(self, n):
        a, x, y = n['inner']
        w = x if self.c.choose(self.tobool(self.rv(a))) else y
        return self.glv(w) if n.get('valueCategory') in ('lvalue', 'xvalue') else self.rv(w)
    def e_CXXThrowExpr(self, n):
        if not n.get('inner'):
            if not self.excs: raise Unsupported('rethrow outside a handler')
            raise CppThrow(self.excs[-1].exc)
        e = n['inner'][0]; lv = self.c.new_root(Opaque('uninit'), 'thrown')
        self.init_into(e, lv); t = self.typ(e)
        x = Exc(self.lib.exc_kind(self, t), None, t, None); x.lv = lv
        raise CppThrow(x)
    def e_CXXNewExpr(self, n):
        t = self.typ(n)[:-1].strip()
        lv = self.c.new_root(Opaque('uninit'), 'heap')
        init = [x for x in n.get('inner', []) if x.get('kind') in ('CXXConstructExpr', 'ParenExpr', 'InitListExpr', 'ExprWithCleanups', 'ImplicitCastExpr')]
        h = self.lib.new_object(self, t, init[0] if init else None, lv)
        if h is not None: return h
        if init: self.init_into(init[0], lv)
        else: self.c.store[lv.root] = self.default_value(t)
        return Ptr(lv)
    def e_CXXDeleteExpr(self, n):
        p = self.rv(n['inner'][0])
        if isinstance(p, Ptr):
            if p.t is not None: self.destroy(p.t)
        else: self.lib.delete_handle(self, p)
    def e_CXXConstructExpr(self, n):
        lv = self.temp(); self.init_into(n, lv); return self.c.read(lv, True)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def e_InitListExpr(self, n):
        if self.int_type(self.typ(n)):
            return self.rv(n['inner'][0]) if n.get('inner') else I(0)
        return self.lib.init_list(self, n)
    def e_LambdaExpr(self, n): return self.lam(n)
    # ------------------------------------------------------------ calls
    def call_value(self, n):
        r = self.call_expr(n, None)
        return r
    def e_CallExpr(self, n): return self.call_expr(n, None)
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr
    def argv(self, nodes, params=None):
        out = []
        for i, a in enumerate(nodes):
            if a['kind'] == 'CXXDefaultArgExpr':
                p = params[i] if params and i < len(params) else None
                if p is None: out.append(None); continue
                d = [x for x in p.get('inner', []) if 'kind' in x]
                if not d: out.append(None); continue
                a = d[0]
            if params is not None and i < len(params):
                t = params[i]['type']['qualType']
                if self.is_ref(t): out.append(self.glv(a)); continue
            if a.get('valueCategory') in ('lvalue', 'xvalue'): out.append(self.glv(a))
            elif self.is_class(qt(a)):
                if params is not None:      # by-value parameter of a repository function
                    lv = self.c.new_root(Opaque('uninit'), 'arg')
                    self.init_into(a, lv); out.append(lv)
                else:
                    lv = self.temp(); self.init_into(a, lv); out.append(lv)
            else: out.append(self.ev(a))
        return out
    def call_expr(self, n, dst):
        k = n['kind']; inner = n['inner']
        if k == 'CXXMemberCallExpr':
            m = inner[0]
            while m['kind'] in ('ParenExpr',): m = m['inner'][0]
            if m['kind'] != 'MemberExpr': raise Unsupported('member call')
            b = m['inner'][0]
            if m.get('isArrow'): obj = self.deref(self.rv(b), f'->{m["name"]}()')
            else: obj = self.glv(b)
            bt = self.typ(b)
            return self.call_method(obj, m['name'], m.get('referencedMemberDecl'), inner[1:], dst, n, bt)
        callee = inner[0]
        x = callee
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
        if x['kind'] == 'DeclRefExpr':
            r = x['referencedDecl']
            if k == 'CXXOperatorCallExpr':
                name = r['name']; f = self.ast.definition(r['id'])
                if f is not None and f.cls is not None:      # repository member operator
                    obj = self.glv(inner[1]); return self.call_method(obj, name, r['id'], inner[2:], dst, n, self.typ(inner[1]))
                if f is not None and r['kind'] == 'FunctionDecl': return self.call_func(f, None, self.argv(inner[1:], f.params), dst)
                return self.lib.operator(self, name, inner[1:], n, dst)
            if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                f = self.ast.definition(r['id'])
                if f is not None: return self.call_func(f, None, self.argv(inner[1:], f.params), dst)
                return self.lib.function(self, r, inner[1:], n, dst)
        f = self.rv(callee)
        return self.invoke(f, self.argv(inner[1:]))
    def call_decl(self, r, obj, args, n, dst):
        f = self.ast.definition(r['id'])
        if f is None: raise Unsupported(f'call of {r.get("name")} through a pointer')
        return self.call_func(f, obj, args, dst)
    def find_method(self, cls, name, like):
        """most derived overrider of a method"""
        seen = []
        def look(c):
            for f in c.methods:
                if f.name == name and self.sig(f.type) == self.sig(like.type): return self.ast.definition(f.node['id'])
            for b in c.bases:
                bc = self.ast.classes.get(b)
                if bc:
                    r = look(bc)
                    if r: return r
        return look(cls)
    def sig(self, t): return norm(t[t.index('('):].replace(' noexcept', '')) if '(' in t else t
    def call_method(self, obj, name, did, argnodes, dst, n, bt):
        f = self.ast.definition(did) if did else None
        v = self.obj_at(obj)
        if isinstance(v, Obj) and f is not None and f.cls is not None:
            if f.node.get('virtual') or f.body is None:
                dc = self.ast.classes.get(v.cls); m = self.find_method(dc, name, f) if dc else None
                qualified = False
                if m is not None and not self.qualified_call(n): f = m
            ct = self.e.unit.contract(v.cls, name)
            if ct: return ct(self, obj, self.argv(argnodes), n, dst)
            if f.body is None and not f.node.get('explicitlyDefaulted') and not f.node.get('isImplicit'): raise Unsupported(f'{f.qual} has no body')
            if f.body is None and name == 'operator=': 
                a = self.argv(argnodes, f.params); self.memberwise(v.cls, obj, a[0], '&&' in f.type); return obj
            if f.name.startswith('~'):
                self.run_dtor(obj); return None
            return self.call_func(f, obj, self.argv(argnodes, f.params), dst)
        if isinstance(v, Handle): return self.lib.handle_call(self, obj, v, name, f, argnodes, n, dst)
        return self.lib.method(self, obj, v, name, argnodes, n, dst, bt)
    def bound(self, f, args):
        """the callable made of a function and copies of its first arguments"""
        f = self.val(f)
        if isinstance(f, Closure) and not args: return f
        if not isinstance(f, (Closure, FuncRef)): raise Unsupported(f'function of a thread: {f}')
        a = []
        for x in args:
            x = self.val(x)
            if isinstance(x, Opaque) and x.fam == 'reference_wrapper': a.append(x.kw['to'])
            elif isinstance(x, Obj): raise Unsupported('object bound to a function')
            else: a.append(x)
        return Bound(f, a)
    def invoke_member(self, decl, a):
        f = self.ast.definition(decl['id']); p = self.val(a[0]) if not isinstance(a[0], Ptr) else a[0]
        if f is None or f.cls is None: raise Unsupported('pointer to member')
        this = a[0] if isinstance(a[0], LV) and not isinstance(p, Ptr) else p.t if isinstance(p, Ptr) and isinstance(p.t, LV) else None
        if this is None: raise Unsupported('pointer to member: object')
        v = self.obj_at(this)
        if isinstance(v, Obj) and (f.node.get('virtual') or f.body is None):
            dc = self.ast.classes.get(v.cls); m = self.find_method(dc, f.name, f) if dc else None
            if m is not None: f = m
        return self.call_func(f, this, a[1:], None)
    def qualified_call(self, n):
        """Base::f() calls are not virtual: clang marks them by the absence of a virtual lookup; use the explicit cast of this"""
        m = n['inner'][0]
        rng = m.get('range', {})
        b, e = rng.get('begin', {}), rng.get('end', {})
        # the qualifier makes the name start later than the arrow: compare the text
        try:
            fn = self.e.src_of(m)
            return '::' in fn.rsplit('->', 1)[-1].rsplit('.', 1)[-1] if fn else False
        except Exception: return False
    def call_func(self, f, this, args, dst):
        u = self.e.unit
        ct = u.contract(f.cls.name if f.cls else None, f.name if f.cls else f.qual)
        if ct: return ct(self, this, args, None, dst)
        if f.body is None: raise Unsupported(f'{f.qual} has no body')
        return self.run_func(f, this, args, dst=dst)
    def rtype_of(self, f):
        t = f.type
        if '->' in t and t.startswith('auto'): return t.rsplit('->', 1)[1].strip()
        depth = 0
        # return type is what precedes the parameter list's opening parenthesis
        i = t.rfind(')')
        while i >= 0:
            if t[i] == ')': depth += 1
            elif t[i] == '(':
                depth -= 1
                if depth == 0: break
            i -= 1
        r = t[:i].strip()
        return self.desugar_ret(f, r)
    def desugar_ret(self, f, r): return r
    def run_func(self, f, this, args, dst=None, env=None, is_ctor=False):
        self.depth += 1
        if self.depth > 60: raise Unsupported('call depth')
        self.e.note_function(f)
        fr = Frame(f, this); fr.dest = dst; fr.rtype = self.rtype_of(f)
        if env: fr.env.update(env)
        sc = []; fr.scopes.append(sc)
        for p, a in zip(f.params, args):
            t = p['type']['qualType']
            if self.is_ref(t): fr.env[p['id']] = a if isinstance(a, (LV, Handle, CharP, FuncRef)) else self.c.new_root(a, 'p')
            else:
                if isinstance(a, LV) and self.is_class(qt(p)): lv = a; sc.append(lv)
                else: lv = self.c.new_root(self.val(a), 'p')
                fr.env[p['id']] = lv
        self.frames.append(fr); temps = self.c.temps; self.c.temps = []
        res = None
        try:
            try:
                if is_ctor: self.run_inits(f, this)
                if f.body is not None:
                    b = f.body
                    self.stmt(b)
            except Return as r: res = r.v
            self.kill(sc)
        except CppThrow:
            self.kill(sc)
            if 'noexcept' in f.type or (f.name or '').startswith('~'):
                self.c.violated('no exception leaves a noexcept function', f.qual); raise PathEnd()
            raise
        finally:
            self.c.temps = temps; self.frames.pop(); self.depth -= 1
        return res
    # ------------------------------------------------------------ construction / destruction
    def fields_of(self, cls):
        out = []
        for b in cls.bases:
            bc = self.ast.classes.get(b)
            if bc: out += self.fields_of(bc)
        return out + [x for x in cls.fields]
    def construct(self, t, ctype, argnodes, lv, node, args=None):
        c = self.c; cls = self.cls(t)
        ab = self.e.unit.abstract_ctor(self, t)
        if ab:
            args = args if args is not None else self.argv(argnodes)
            c.write(lv, ab(self, args, ctype), True); return
        if cls is None:
            args = args if args is not None else self.argv(argnodes)
            c.write(lv, self.lib.construct(self, t, args, ctype, lv), True); return
        base = node is not None and node.get('constructionKind') in ('non-virtual base', 'virtual base')
        delegating = node is not None and node.get('constructionKind') == 'delegating'
        f = self.find_ctor(cls, ctype)
        args = args if args is not None else self.argv(argnodes, f.params if f else None)
        self.construct_with(cls, f, args, lv, base or delegating)
    def find_ctor(self, cls, ctype):
        want = self.sig(norm(ctype)) if ctype else None
        short = re.sub(r'<.*', '', cls.name.split('::')[-1])
        cands = [m for m in cls.methods if m.kind == 'CXXConstructorDecl']
        for m in cands:
            if self.sig(m.type) == want:
                return self.ast.definition(m.node['id']) or m
        if ctype and cands: raise Unsupported(f'constructor {cls.name} {ctype}')
        return None
    def construct_with(self, cls, f, args, lv, partial):
        c = self.c
        if not partial: c.write(lv, Obj(cls.name, {}), True)
        has_body = f is not None and (f.body is not None)
        if f is None or not has_body:
            # implicit or defaulted without a generated body
            if args and isinstance(args[0], LV):
                self.memberwise(cls.name, lv, args[0], f is not None and '&&' in f.type, True)
            else: self.default_fields(cls, lv)
            return
        for fd in cls.fields:      # fields without initialiser in the list
            if not any(i.get('anyInit', {}).get('name') == fd.get('name') for i in f.inits) and not any('anyInit' not in i and 'baseInit' not in i for i in f.inits):
                o = c.read(lv, True)
                if fd['name'] not in o.f: c.write(lv.sub(('f', fd['name'])), self.default_value(qt(fd)), True)
        self.run_func(f, lv, args, is_ctor=True)
    def default_fields(self, cls, lv):
        for b in cls.bases:
            bc = self.ast.classes.get(b)
            if bc: self.construct_with(bc, next((m for m in bc.methods if m.kind == 'CXXConstructorDecl' and not m.params), None), [], lv, True)
        for fd in cls.fields:
            init = [x for x in fd.get('inner', []) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            l = lv.sub(('f', fd['name']))
            self.c.write(l, Opaque('uninit'), True)
            if init:
                self.frames.append(Frame(None, lv)); self.fr.scopes.append([])
                self.full(lambda: self.init_into(init[0], l)); self.frames.pop()
            else:
                fc = self.cls(qt(fd))
                if fc: self.construct_with(fc, next((m for m in fc.methods if m.kind == 'CXXConstructorDecl' and not m.params), None), [], l, False)
                else: self.c.write(l, self.default_value(qt(fd)), True)
    def run_inits(self, f, this):
        for i in f.inits:
            e = i.get('inner', [None])[0]
            if e is None: continue
            if 'baseInit' in i:
                bt = norm(i['baseInit'].get('desugaredQualType', i['baseInit']['qualType']))
                if self.ast.classes.get(bt) is None: continue       # library base
                self.full(lambda: self.init_sub(e, this))
            elif 'anyInit' in i:
                a = i['anyInit']; nm = a.get('name'); l = this.sub(('f', nm))
                ft = a['type']['qualType']
                if self.is_ref(ft):
                    d = self.full(lambda: self.glv(e)); self.c.write(l, Ptr(d, 'ref') if isinstance(d, LV) else d, True)
                else:
                    o = self.c.read(this, True)
                    self.c.write(l, Opaque('uninit'), True)
                    self.full(lambda: self.init_field(e, l, a))
            else: self.full(lambda: self.init_sub(e, this))
    def init_sub(self, e, lv):
        while e['kind'] in self.PASS or e['kind'] in ('InitListExpr',):
            e = e['inner'][0]
        if e['kind'] == 'CXXInheritedCtorInitExpr': raise Unsupported('inherited constructor')
        n = dict(e); n.setdefault('constructionKind', 'delegating')
        if n['constructionKind'] == 'complete': n['constructionKind'] = 'delegating'
        self.construct(self.typ(e), e.get('ctorType', {}).get('qualType', ''), e.get('inner', []), lv, n)
    def field_init(self, a):
        fd = self.ast.by_id.get(a.get('id')) or {}
        x = [y for y in fd.get('inner', []) if y.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'ExprWithCleanups'))]
        if not x: raise Unsupported(f'default member initialiser of {a.get("name")}')
        return x[0]
    def init_field(self, e, l, a=None):
        if e['kind'] == 'CXXDefaultInitExpr' and not e.get('inner'):
            e = self.field_init(a or {})
            if e['kind'] == 'InitListExpr' and self.is_class(qt(e)) and self.cls(qt(e)) is None: self.c.write(l, self.lib.init_list(self, e), True); return
        if e['kind'] == 'InitListExpr' and not self.is_class(qt(e)):
            self.c.write(l, self.e_InitListExpr(e), True); return
        self.init_into(e, l)
    def memberwise(self, clsname, dst, src, move, construct=False):
        cls = self.ast.classes[clsname]
        o = self.c.read(src, True)
        for fd in self.fields_of(cls):
            nm = fd['name']
            if isinstance(o.f.get(nm), Obj):
                sub = o.f[nm].cls; sc = self.ast.classes[sub]
                l, s = dst.sub(('f', nm)), src.sub(('f', nm))
                if construct:
                    f = next((m for m in sc.methods if m.kind == 'CXXConstructorDecl' and len(m.params) == 1 and re.sub(r'^const ', '', norm(m.params[0]['type']['qualType'])).startswith(re.sub('<.*', '', sub)) and ('&&' in m.type) == move), None)
                    f = self.ast.definition(f.node['id']) if f else None
                    self.construct_with(sc, f, [s], l, False)
                else: raise Unsupported('memberwise assignment')
                continue
            v = self.c.read(src.sub(('f', nm)), True)
            if isinstance(v, Val):
                if move: self.c.write(dst.sub(('f', nm)), v, True); self.c.write(src.sub(('f', nm)), v.moved(self.c), True)
                else: self.c.write(dst.sub(('f', nm)), v.copied(self.c), True)
            else: self.c.write(dst.sub(('f', nm)), v, True)
    def destroy(self, lv):
        if not isinstance(lv, LV): return
        v = self.c.store.get(lv.root)
        if v is None: return
        v = self.c.read(lv, True)
        if isinstance(v, Obj): self.run_dtor(lv, v)
        else: self.lib.destroy(self, lv, v)
        if not lv.path: self.c.store[lv.root] = None
    def run_dtor(self, lv, v=None):
        v = v or self.c.read(lv, True)
        cls = self.ast.classes.get(v.cls)
        def go(cl):
            d = next((m for m in cl.methods if m.kind == 'CXXDestructorDecl'), None)
            d = self.ast.definition(d.node['id']) if d else None
            if d is not None and d.body is not None and d.body.get('inner'):
                ct = self.e.unit.contract(cl.name, d.name)
                if ct: ct(self, lv, [], None, None)
                else: self.run_func(d, lv, [])
            for fd in reversed(cl.fields):
                x = self.c.read(lv, True).f.get(fd['name'])
                if isinstance(x, Obj): self.run_dtor(lv.sub(('f', fd['name'])))
                elif isinstance(x, Val) and not (isinstance(x, Ptr) and x.kind in ('ref', 'raw')): self.lib.destroy(self, lv.sub(('f', fd['name'])), x)
            for b in reversed(cl.bases):
                bc = self.ast.classes.get(b)
                if bc: go(bc)
        if cls: go(cls)
