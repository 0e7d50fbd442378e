"""Values, symbolic texts (ropes), solver access and path exploration."""
import time, itertools
import z3

class Unsupported(Exception):
    """construct outside the reach of the generator: the unit is undecided, never a violation"""
class PathEnd(Exception): pass          # path discarded (infeasible or absorbed by an induction step)
class Return(Exception):
    def __init__(self, v): self.v = v
class Break(Exception): pass
class Continue(Exception): pass
class CppThrow(Exception):
    def __init__(self, exc): self.exc = exc

I = z3.IntVal
def is_const(t): return z3.is_int_value(t)
def cval(t): return t.as_long()
def S(t): return z3.simplify(t)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    return TRUE if not a else (a[0] if len(a) == 1 else z3.And(*a))
def Or(*a): return FALSE if not a else z3.Or(*a)
def Not(a): return z3.Not(a)
def Implies(a, b): return z3.Implies(a, b)
def toint(x): return I(x) if isinstance(x, int) and not isinstance(x, bool) else x

# ---------------------------------------------------------------- values
class Val:
    fam = None
    def get(self, ctx, e): raise Unsupported(f'{type(self).__name__} has no component {e}')
    def set(self, ctx, e, v): raise Unsupported(f'{type(self).__name__} has no component {e}')
    def moved(self, ctx): return self            # value left behind by a move
    def copied(self, ctx): return self
    def leaves(self): return None                # None: atomic

class Obj(Val):
    def __init__(self, cls, fields): self.cls = cls; self.f = fields
    def get(self, ctx, e):
        if e[0] == 'f':
            if e[1] not in self.f: raise Unsupported(f'{self.cls}: no field {e[1]}')
            return self.f[e[1]]
        return Val.get(self, ctx, e)
    def set(self, ctx, e, v):
        d = dict(self.f); d[e[1]] = v
        return Obj(self.cls, d)
    def __repr__(self): return f'{self.cls}{self.f}'

class LV:
    """an lvalue: a root of the store and a path into it"""
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = path
    def sub(self, e): return LV(self.root, self.path + (e,))
    def __eq__(self, o): return isinstance(o, LV) and self.root == o.root and len(self.path) == len(o.path) and all(pe_eq(a, b) for a, b in zip(self.path, o.path))
    def __hash__(self): return hash(self.root)
    def __repr__(self): return f'LV({self.root}{self.path})'
def pe_eq(a, b):
    return a[0] == b[0] and (a[1].eq(b[1]) if z3.is_expr(a[1]) and z3.is_expr(b[1]) else (not z3.is_expr(a[1]) and not z3.is_expr(b[1]) and a[1] == b[1]))

class Ptr(Val):
    """pointer to an lvalue (raw, unique or shared); target None = null"""
    def __init__(self, target, kind='raw', meta=None): self.t = target; self.kind = kind; self.meta = meta
    def moved(self, ctx): return Ptr(None, self.kind) if self.kind != 'raw' else self
    def __eq__(self, o): return isinstance(o, Ptr) and self.kind == o.kind and self.t == o.t
    def __hash__(self): return 1
    def __repr__(self): return f'Ptr({self.t})'

class Handle(Val):
    """opaque object of an abstract class, identified by an integer term"""
    def __init__(self, kind, term): self.kind = kind; self.t = term
    def terms(self): return [self.t]
    def with_terms(self, ts): return Handle(self.kind, ts[0])
    def key(self): return (self.kind,)
    def __eq__(self, o): return isinstance(o, Handle) and self.kind == o.kind and self.t.eq(o.t)
    def __hash__(self): return 2
    def __repr__(self): return f'{self.kind}#{self.t}'

class Opaque(Val):
    """a library object whose state does not matter"""
    def __init__(self, fam, **kw): self.fam = fam; self.kw = kw
    def __eq__(self, o): return isinstance(o, Opaque) and self.fam == o.fam and self.kw == o.kw
    def __hash__(self): return hash(self.fam)
    def __repr__(self): return f'<{self.fam} {self.kw}>'

class Closure(Val):
    def __init__(self, node, env, this): self.node = node; self.env = env; self.this = this

class Bound(Closure):
    """a function with its first arguments: std::bind, or the function and arguments a thread is given"""
    def __init__(self, fn, args): Closure.__init__(self, getattr(fn, 'decl', None) or fn.node, {}, (getattr(fn, 'this', None), *args)); self.fn = fn; self.args = tuple(args)

class Exc(Val):
    """an exception object: kind 'std' (derives from std::exception) or 'other'"""
    def __init__(self, kind, what, cls='std::exception', origin=None): self.kind = kind; self.what = what; self.cls = cls; self.origin = origin

# ---------------------------------------------------------------- texts
class Base:
    """an unknown text determined by a name and integer/boolean arguments"""
    def __init__(self, name, *args): self.name = name; self.args = tuple(args)
    @property
    def len(self):
        if not self.args: return z3.Int('len_' + self.name)
        return z3.Function('len_' + self.name, *([a.sort() for a in self.args] + [z3.IntSort()]))(*self.args)
    def ch(self, i):
        return z3.Function('ch_' + self.name, *([a.sort() for a in self.args] + [z3.IntSort(), z3.IntSort()]))(*(self.args + (toint(i),)))
    def __repr__(self): return self.name + (str(self.args) if self.args else '')
    def same(self, o): return self.name == o.name and len(self.args) == len(o.args) and all(a.eq(b) for a, b in zip(self.args, o.args))

def ndig(t):
    """number of decimal digits of a non-negative integer term below 2^64"""
    t = toint(t)
    if is_const(t): return I(len(str(abs(cval(t)))))
    e = I(20)
    for k in range(19, 0, -1): e = z3.If(t < 10 ** k, I(k), e)
    return e

class Seg: pass
class Lit(Seg):
    def __init__(self, s): self.s = s
    def len(self): return I(len(self.s))
    def __repr__(self): return repr(self.s)
class Chr(Seg):
    def __init__(self, t): self.t = t
    def len(self): return I(1)
    def __repr__(self): return f'Chr({self.t})'
class Sub(Seg):
    def __init__(self, base, off=None, n=None): self.b = base; self.off = I(0) if off is None else toint(off); self.n = base.len if n is None else toint(n)
    def len(self): return self.n
    def __repr__(self): return f'{self.b}[{self.off}:+{self.n}]'
class Rep(Seg):
    def __init__(self, c, n): self.c = toint(c); self.n = toint(n)
    def len(self): return self.n
    def __repr__(self): return f'Rep({self.c},{self.n})'
class Dec(Seg):
    def __init__(self, t): self.t = toint(t)
    def len(self): return z3.If(self.t < 0, 1 + ndig(-self.t), ndig(self.t)) if not is_const(self.t) else I(len(str(cval(self.t))))
    def __repr__(self): return f'Dec({self.t})'
class Cat(Seg):
    """concatenation over k in [lo,hi) of the alternatives' segments (exactly one alternative's condition holds)"""
    def __init__(self, k, lo, hi, alts): self.k = k; self.lo = lo; self.hi = hi; self.alts = alts
    def len(self): return z3.Function('catlen', z3.IntSort(), z3.IntSort(), z3.IntSort())(self.lo, self.hi)
    def __repr__(self): return f'Cat({self.k} in {self.lo}..{self.hi}: {self.alts})'

class Rope:
    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, str): s = Lit(s)
            if isinstance(s, Chr) and is_const(S(s.t)): s = Lit(chr(cval(S(s.t)) % 256))
            if isinstance(s, Lit):
                if not s.s: continue
                if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].s + s.s); continue
            if isinstance(s, Dec) and is_const(S(s.t)): 
                x = str(cval(S(s.t)))
                if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].s + x); continue
                s = Lit(x)
            if isinstance(s, (Rep, Sub)) and is_const(S(s.len())) and cval(S(s.len())) == 0: continue
            out.append(s)
        self.segs = tuple(out)
    def __add__(self, o): return Rope(self.segs + (o.segs if isinstance(o, Rope) else (o,)))
    def len(self):
        t = I(0)
        for s in self.segs: t = t + s.len()
        return S(t)
    def concrete(self):
        if all(isinstance(s, Lit) for s in self.segs): return ''.join(s.s for s in self.segs)
        return None
    def __repr__(self): return '+'.join(map(repr, self.segs)) or "''"
def teq(a, b): return a is b or (a.eq(b) or S(a).eq(S(b)) if z3.is_expr(a) and z3.is_expr(b) else a == b if not z3.is_expr(a) and not z3.is_expr(b) else False)
def seg_same(a, b):
    """structural identity of two segments"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Lit): return a.s == b.s
    if isinstance(a, (Chr, Dec)): return teq(a.t, b.t)
    if isinstance(a, Sub): return a.b.name == b.b.name and len(a.b.args) == len(b.b.args) and all(map(teq, a.b.args, b.b.args)) and teq(a.off, b.off) and teq(a.n, b.n)
    if isinstance(a, Rep): return teq(a.c, b.c) and teq(a.n, b.n)
    if isinstance(a, (Prefix, Suffix)): return teq(a.n, b.n) and seg_same(a.s, b.s)
    return repr(a) == repr(b)
def segs_same(a, b): return len(a) == len(b) and all(map(seg_same, a, b))
def rope(x): return x if isinstance(x, Rope) else Rope([x] if not isinstance(x, (list, tuple)) else x)
def sym_text(name, *args): return Rope([Sub(Base(name, *args))])

class Str(Val):
    """std::string or fmt memory buffer: a text with a generation that changes on every mutation"""
    def __init__(self, r, fam='string', gen=0): self.r = r; self.fam = fam; self.gen = gen
    def upd(self, ctx, r): return Str(r, self.fam, ctx.newgen())
    def moved(self, ctx): return Str(sym_text(ctx.fresh_name('movedfrom')) if self.fam == 'string' else Rope(), self.fam, ctx.newgen())
    def copied(self, ctx): return Str(self.r, self.fam, ctx.newgen())
    def get(self, ctx, e):
        if e[0] == 'i': return char_at(ctx, self.r, e[1])
        return Val.get(self, ctx, e)
    def set(self, ctx, e, v):
        if e[0] == 'i':
            a = take(ctx, self.r, e[1]); b = drop(ctx, self.r, e[1] + 1)
            return Str(a + Chr(v) + b, self.fam, self.gen)
        return Val.set(self, ctx, e, v)
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    def __repr__(self): return f'Str({self.r})'

class CharP(Val):
    """const char*: into an object of the store (lv, generation) or into an immortal text; None = null"""
    def __init__(self, src, off, gen=None): self.src = src; self.off = toint(off); self.gen = gen
    def __repr__(self): return f'CharP({self.src},{self.off})'
class View(Val):
    fam = 'string_view'
    def __init__(self, p, n): self.p = p; self.n = toint(n)
    def __repr__(self): return f'View({self.p},{self.n})'

def char_at(ctx, r, i):
    i = S(toint(i)); pos = I(0)
    for s in r.segs:
        n = s.len()
        if ctx.prove(z3.And(i >= pos, i < pos + n)):
            k = S(i - pos)
            if isinstance(s, Lit):
                if is_const(k): return I(ord(s.s[cval(k)]))
                e = I(ord(s.s[-1]))
                for j in range(len(s.s) - 2, -1, -1): e = z3.If(k == j, I(ord(s.s[j])), e)
                return e
            if isinstance(s, Chr): return s.t
            if isinstance(s, Sub): return s.b.ch(S(s.off + k))
            if isinstance(s, Rep): return s.c
            break
        if not ctx.prove(i >= pos + n): break
        pos = S(pos + n)
    raise Unsupported(f'character {i} of {r}')

def take(ctx, r, n):
    """first n characters (0 <= n <= len known)"""
    n = S(toint(n)); out = []
    for s in r.segs:
        ln = S(s.len())
        if ctx.prove(n == 0): break
        if ctx.prove(n >= ln): out.append(s); n = S(n - ln); continue
        if ctx.prove(z3.And(n >= 0, n < ln)):
            out += seg_take(ctx, s, n); n = I(0); break
        # undecided: split on the path
        if ctx.choose(n >= ln): out.append(s); n = S(n - ln); continue
        out += seg_take(ctx, s, n); n = I(0); break
    return Rope(out)
def seg_take(ctx, s, n):
    if is_const(n) and cval(n) == 0: return []
    if isinstance(s, Lit):
        if is_const(n): return [Lit(s.s[:cval(n)])]
        for k in range(len(s.s)):
            if ctx.choose(n == k): return [Lit(s.s[:k])]
        return [s]
    if isinstance(s, Chr): return []
    if isinstance(s, Sub): return [Sub(s.b, s.off, n)]
    if isinstance(s, Rep): return [Rep(s.c, n)]
    return [Prefix(s, n)]
class Prefix(Seg):
    def __init__(self, s, n): self.s = s; self.n = toint(n)
    def len(self): return self.n
    def __repr__(self): return f'Prefix({self.s},{self.n})'
class Suffix(Seg):
    def __init__(self, s, n): self.s = s; self.n = toint(n)       # without the first n
    def len(self): return S(self.s.len() - self.n)
    def __repr__(self): return f'Suffix({self.s},{self.n})'
def drop(ctx, r, n):
    n = S(toint(n)); segs = list(r.segs); i = 0
    while i < len(segs):
        s = segs[i]; ln = S(s.len())
        if ctx.prove(n == 0): return Rope(segs[i:])
        if ctx.prove(n >= ln) or (not ctx.prove(n < ln) and ctx.choose(n >= ln)): n = S(n - ln); i += 1; continue
        if isinstance(s, Lit):
            if not is_const(n):
                for k in range(len(s.s)):
                    if ctx.choose(n == k): n = I(k); break
                else: raise PathEnd()
            h = [Lit(s.s[cval(n):])]
        elif isinstance(s, Chr): h = [s]
        elif isinstance(s, Sub): h = [Sub(s.b, S(s.off + n), S(s.n - n))]
        elif isinstance(s, Rep): h = [Rep(s.c, S(s.n - n))]
        else: h = [Suffix(s, n)]
        return Rope(h + segs[i + 1:])
    return Rope()
def substr(ctx, r, off, n):
    off, n = S(toint(off)), S(toint(n))
    if len(r.segs) == 1 and isinstance(r.segs[0], Sub): 
        s = r.segs[0]; return Rope([Sub(s.b, S(s.off + off), n)])
    return take(ctx, drop(ctx, r, off), n)

# ---------------------------------------------------------------- text equality
class Cmp:
    """decides equality of two texts under the path condition, splitting cases where needed"""
    def __init__(self, ctx, budget=400): self.ctx = ctx; self.budget = budget; self.why = None
    def P(self, f, ex): return self.ctx.prove(z3.Implies(And(*ex), f) if ex else f)
    def feasible(self, ex): return not self.ctx.prove(z3.Not(And(*ex)))
    def eq(self, a, b, ex=()):
        self.budget -= 1
        if self.budget < 0: self.why = 'budget'; return None
        a, b = list(a), list(b); ex = list(ex)
        def strip(x):
            while x:
                s = x[0]
                if isinstance(s, Lit) and not s.s: x.pop(0); continue
                if not isinstance(s, (Lit, Chr, Dec)):
                    n = S(s.len())
                    if (is_const(n) and cval(n) == 0) or (not is_const(n) and self.P(n == 0, ex)): x.pop(0); continue
                break
        while True:
            strip(a); strip(b)
            if not a and not b: return True
            if not a or not b:
                rest = a or b; n = I(0)
                for s in rest: n = n + s.len()
                if self.P(n == 0, ex): return True
                if self.ctx.sat(z3.And(n > 0, *ex)): self.why = f'one text has {rest} more'; return False
                self.why = 'undecided rest'; return None
            x, y = a[0], b[0]
            # identical heads
            if isinstance(x, Lit) and isinstance(y, Lit):
                k = 0
                while k < len(x.s) and k < len(y.s) and x.s[k] == y.s[k]: k += 1
                if k == 0:
                    self.why = f'{a[:3]} against {b[:3]}'
                    return False if self.feasible(ex) else True
                a[0] = Lit(x.s[k:]); b[0] = Lit(y.s[k:]); continue
            if isinstance(x, Sub) and isinstance(y, Sub) and self.base_eq(x.b, y.b, ex) and self.P(x.off == y.off, ex):
                if self.P(x.n == y.n, ex): a.pop(0); b.pop(0); continue
                if self.P(x.n <= y.n, ex): a.pop(0); b[0] = Sub(y.b, S(y.off + x.n), S(y.n - x.n)); continue
                if self.P(y.n <= x.n, ex): b.pop(0); a[0] = Sub(x.b, S(x.off + y.n), S(x.n - y.n)); continue
                return self.split([x.n <= y.n, x.n > y.n], a, b, ex)
            if isinstance(x, Dec) and isinstance(y, Dec):
                if self.P(x.t == y.t, ex): a.pop(0); b.pop(0); continue
                # different numbers are different texts unless compensated: expand
            if isinstance(x, Rep) and isinstance(y, Rep) and self.P(x.c == y.c, ex):
                if self.P(x.n == y.n, ex): a.pop(0); b.pop(0); continue
                if self.P(x.n <= y.n, ex): a.pop(0); b[0] = Rep(y.c, S(y.n - x.n)); continue
                if self.P(y.n <= x.n, ex): b.pop(0); a[0] = Rep(x.c, S(x.n - y.n)); continue
                return self.split([x.n <= y.n, x.n > y.n], a, b, ex)
            if isinstance(x, Prefix) and isinstance(y, Prefix):
                r = self.eq([x.s], [y.s], ex)
                if r and self.P(x.n == y.n, ex): a.pop(0); b.pop(0); continue
            if isinstance(x, Cat) and isinstance(y, Cat):
                r = self.cat_eq(x, y, ex)
                if r: a.pop(0); b.pop(0); continue
                return r
            # single characters
            ca, cb = self.head(a, ex), self.head(b, ex)
            if ca is None or cb is None: return None
            if ca[0] == 'split': return self.split(ca[1], a, b, ex)
            if cb[0] == 'split': return self.split(cb[1], a, b, ex)
            if ca[0] == 'stuck' or cb[0] == 'stuck':
                # whole-segment comparison impossible: try a length argument for a definite difference
                self.why = f'cannot compare {x} with {y}'
                return None
            t1, ra = ca[1], ca[2]; t2, rb = cb[1], cb[2]
            if self.P(t1 == t2, ex): a, b = ra, rb; continue
            if self.ctx.sat(z3.And(t1 != t2, *ex)):
                self.why = f'character {t1} against {t2} in {a[:3]} / {b[:3]}'; return False
            return None
    def base_eq(self, p, q, ex):
        if p.name != q.name or len(p.args) != len(q.args): return False
        return all(x.eq(y) or self.P(x == y, ex) for x, y in zip(p.args, q.args))
    def head(self, xs, ex):
        """first character of xs and the rest"""
        s = xs[0]; rest = xs[1:]
        if isinstance(s, Lit): return ('c', I(ord(s.s[0])), [Lit(s.s[1:])] + rest)
        if isinstance(s, Chr): return ('c', s.t, rest)
        if isinstance(s, Sub):
            if self.P(s.n >= 1, ex): return ('c', s.b.ch(s.off), [Sub(s.b, S(s.off + 1), S(s.n - 1))] + rest) if not self.unbounded(s.n, ex) else ('stuck',)
            return ('split', [s.n == 0, s.n >= 1])
        if isinstance(s, Rep):
            if self.P(s.n >= 1, ex): return ('c', s.c, [Rep(s.c, S(s.n - 1))] + rest)
            if self.P(s.n <= 0, ex): return ('split', [TRUE])
            return ('split', [s.n <= 0, s.n >= 1])
        if isinstance(s, Dec):
            t = s.t
            if self.P(t < 0, ex): return ('c', I(ord('-')), [Dec(S(-t))] + rest)
            if not self.P(t >= 0, ex): return ('split', [t < 0, t >= 0])
            for k in range(1, 21):
                if self.P(t < 10 ** k, ex):
                    if k > 10: return ('stuck',)
                    if k == 1 or self.P(t >= 10 ** (k - 1), ex):
                        segs = [Chr(S((t / (10 ** j)) % 10 + 48)) if j else Chr(S(t % 10 + 48)) for j in range(k - 1, -1, -1)]
                        return ('c', segs[0].t, segs[1:] + rest)
                    return ('split', [t < 10 ** (k - 1), t >= 10 ** (k - 1)])
            return ('stuck',)
        return ('stuck',)
    def unbounded(self, n, ex): return False if self.P(n <= 70, ex) else True
    def split(self, cases, a, b, ex):
        res = True
        for c in cases:
            e2 = ex + [c]
            if not self.feasible(e2): continue
            r = self.eq(a, b, e2)
            if r is False: return False
            if r is None: res = None
        return res
    def cat_eq(self, x, y, ex):
        if not (self.P(x.lo == y.lo, ex) and self.P(x.hi == y.hi, ex)): self.why = 'different ranges'; return None
        k = z3.Int(self.ctx.fresh_name('kk')); res = True
        dom = ex + [k >= x.lo, k < x.hi]
        for (c1, s1) in x.alts:
            for (c2, s2) in y.alts:
                e2 = dom + [z3.substitute(c1, (x.k, k)), z3.substitute(c2, (y.k, k))]
                if not self.feasible(e2): continue
                r = self.eq([subst_seg(s, x.k, k) for s in s1], [subst_seg(s, y.k, k) for s in s2], e2)
                if r is False: return False
                if r is None: res = None
        return res

def subst_term(t, k, v): return z3.substitute(t, (k, v)) if z3.is_expr(t) else t
def subst_seg(s, k, v):
    f = lambda t: subst_term(t, k, v)
    if isinstance(s, Lit): return s
    if isinstance(s, Chr): return Chr(f(s.t))
    if isinstance(s, Sub): return Sub(Base(s.b.name, *[f(a) for a in s.b.args]), f(s.off), f(s.n))
    if isinstance(s, Rep): return Rep(f(s.c), f(s.n))
    if isinstance(s, Dec): return Dec(f(s.t))
    if isinstance(s, Prefix): return Prefix(subst_seg(s.s, k, v), f(s.n))
    if isinstance(s, Suffix): return Suffix(subst_seg(s.s, k, v), f(s.n))
    if isinstance(s, Cat): return Cat(s.k, f(s.lo), f(s.hi), [(f(c), [subst_seg(x, k, v) for x in g]) for c, g in s.alts])
    raise Unsupported('subst')

# ---------------------------------------------------------------- events
class Ev:
    def __init__(self, name, *args, **kw): self.name = name; self.args = args; self.kw = kw
    def __repr__(self): return f'{self.name}({", ".join(map(str, self.args))})'
class FE:
    """events of a loop: for k in [lo,hi), in order, the events of the alternative whose condition holds"""
    def __init__(self, k, lo, hi, alts, coll=None): self.k = k; self.lo = lo; self.hi = hi; self.alts = alts; self.coll = coll
    def __repr__(self): return f'FE({self.k} in {self.lo}..{self.hi}: {self.alts})'

# ---------------------------------------------------------------- solver / exploration
class Stats:
    def __init__(self): self.queries = 0; self.time = 0.0; self.unknown = 0
STATS = Stats()

class Obligation:
    def __init__(self, unit, name, status, detail, model=None, kind='post'): 
        self.unit = unit; self.name = name; self.status = status; self.detail = detail; self.model = model; self.kind = kind

class Ctx:
    """state of one symbolic execution"""
    def __init__(self, engine):
        self.engine = engine
        self.solver = z3.Solver(); self.solver.set('timeout', engine.timeout_ms)
        self.pc = []; self.store = {}; self.trace = []; self.locks = []; self.ghost = {}
        self.nfresh = 0; self.ngen = 0; self.nroot = 0
        self.oracle = None; self.imprecise = []
        self.cache = engine.cache
        self.temps = None; self.kstack = []; self.decs = {}; self.ip = None
    # fresh things
    def fresh_name(self, p): self.nfresh += 1; return f'{p}!{self.nfresh}'
    def fresh_int(self, p='v', lo=None, hi=None):
        t = z3.Int(self.fresh_name(p)) if not self.kstack else z3.Function(self.fresh_name(p), *([z3.IntSort()] * (len(self.kstack) + 1)))(*self.kstack)
        if lo is not None: self.assume(t >= lo)
        if hi is not None: self.assume(t <= hi)
        return t
    def fresh_bool(self, p='b'):
        if not self.kstack: return z3.Bool(self.fresh_name(p))
        return z3.Function(self.fresh_name(p), *([z3.IntSort()] * len(self.kstack) + [z3.BoolSort()]))(*self.kstack)
    def fresh_text(self, p='text'):
        r = sym_text(self.fresh_name(p), *self.kstack); self.assume(r.len() >= 0); return r
    def newgen(self): self.ngen += 1; return self.ngen
    # logic
    def assume(self, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if z3.is_true(f): return
        self.pc.append(f); self.solver.add(f)
    def _check(self, f):
        key = (tuple(x.get_id() for x in self.pc), f.get_id())
        if key in self.cache: return self.cache[key]
        t = time.time(); self.solver.push(); self.solver.add(f)
        r = self.solver.check(); m = self.solver.model() if r == z3.sat else None
        self.solver.pop(); dt = time.time() - t
        if r == z3.unknown:
            r2 = self.engine.second_opinion(self.pc, f)
            if r2 is not None: r = r2
        STATS.queries += 1; STATS.time += dt
        if dt > 2 and __import__('os').environ.get('VC_SLOW'): __import__('traceback').print_stack(limit=8); print('SLOW', round(dt, 1), r, str(f)[:600], '\nPC', [str(x)[:200] for x in self.pc][-6:])
        if r == z3.unknown: STATS.unknown += 1
        if r == z3.unsat and self.engine.cross is not None: self.engine.cross.append((list(self.pc), f))
        self.engine.keep.append((list(self.pc), f))
        self.cache[key] = (r, m)
        return r, m
    def prove(self, f):
        """is f valid under the path condition?"""
        if isinstance(f, bool): return f
        g = S(f)
        if z3.is_true(g): return True
        if z3.is_false(g): return self._check(TRUE)[0] == z3.unsat
        return self._check(z3.Not(f))[0] == z3.unsat
    def sat(self, f):
        g = S(f)
        if z3.is_false(g): return False
        return self._check(f)[0] == z3.sat
    def feasible(self, f):
        g = S(f)
        if z3.is_false(g): return False
        return self._check(f)[0] != z3.unsat
    # decisions
    def choose(self, cond):
        if isinstance(cond, bool): return cond
        g = S(cond)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        d = self.oracle.next(); new = d is None
        if d is None:
            t, f = self.feasible(cond), self.feasible(z3.Not(cond))
            if not t and not f: raise PathEnd()
            if t and f: self.oracle.fork([True, False]); d = True
            else: self.oracle.record(t); d = t
        w = cond if d else z3.Not(cond)
        if self.kstack and (t and f if new else self.feasible(z3.Not(w))): self.decs[w.get_id()] = w
        self.assume(w)
        return d
    def choose_nd(self, n, label=''):
        if self.kstack:
            x = self.fresh_int('nd', 0, n - 1)
            for i in range(n - 1):
                if self.choose(x == i): return i
            return n - 1
        d = self.oracle.next()
        if d is None:
            self.oracle.fork(list(range(n))); d = 0
        return d
    # store
    def new_root(self, v, name='o'):
        self.nroot += 1; r = f'{name}#{self.nroot}'; self.store[r] = v
        return LV(r)
    def read(self, lv, quiet=False):
        if not isinstance(lv, LV): raise Unsupported(f'read of {lv}')
        if lv.root not in self.store: raise Unsupported(f'{lv} not in store')
        v = self.store[lv.root]
        if v is None: 
            self.violated('use of a destroyed object', f'{lv}'); raise PathEnd()
        for e in lv.path: v = self.comp(v, e)
        if not quiet and self.engine.unit.on_access: self.engine.unit.on_access(self, lv, 'r')
        return v
    def comp(self, v, e):
        if not isinstance(v, Val): raise Unsupported(f'component {e} of {v}')
        return v.get(self, e)
    def write(self, lv, val, quiet=False):
        if not quiet and self.engine.unit.on_access: self.engine.unit.on_access(self, lv, 'w')
        def go(v, p):
            if not p: return val
            return v.set(self, p[0], go(v.get(self, p[0]) if len(p) > 1 else None, p[1:]))
        self.store[lv.root] = go(self.store[lv.root], lv.path)
    # obligations
    def check(self, name, f, kind='post', detail=''):
        if isinstance(f, bool): f = z3.BoolVal(f)
        g = S(f)
        if z3.is_true(g): st, m = 'proved', None
        else:
            r, m = self._check(z3.Not(f))
            st = 'proved' if r == z3.unsat else ('failed' if r == z3.sat else 'unknown')
        if st == 'failed' and self.imprecise: st = 'unknown'; detail = (detail() if callable(detail) else detail) + f' (over-approximated: {self.imprecise[:2]})'
        self.engine.obligation(self, name, st, ((detail() if callable(detail) else detail) + ' ' + str(g)[:400]) if st != 'proved' else '', m, kind)
        self.assume(f) if st == 'proved' else None
        if st != 'proved': self.assume_or_end(f)
        return st == 'proved'
    def assume_or_end(self, f):
        if self.feasible(f): self.assume(f)
        else: raise PathEnd()
    def violated(self, name, detail='', kind='safety'):
        """an obligation that is false on this path whenever the path is feasible"""
        r, m = self._check(TRUE)
        st = 'proved' if r == z3.unsat else ('failed' if r == z3.sat and not self.imprecise else 'unknown')
        self.engine.obligation(self, name, st, detail, m, kind)
    def check_text(self, name, a, b, kind='post'):
        c = Cmp(self); r = c.eq(rope(a).segs, rope(b).segs)
        if r is True: self.engine.obligation(self, name, 'proved', '', None, kind); return True
        st = 'failed' if (r is False and not self.imprecise) else 'unknown'
        m = self._check(TRUE)[1]
        self.engine.obligation(self, name, st, f'{a}  =/=  {b}: {c.why}', m, kind); return False
    # nested exploration
    def save(self): return (dict(self.store), list(self.trace), list(self.locks), dict(self.ghost), list(self.pc), self.oracle, self.temps, list(self.imprecise))
    def restore(self, s):
        self.store, self.trace, self.locks, self.ghost, pc, self.oracle, self.temps, self.imprecise = dict(s[0]), list(s[1]), list(s[2]), dict(s[3]), s[4], s[5], s[6], list(s[7])
        self.pc = list(pc)
    def nested(self, fn, limit=400):
        out = []; work = [[]]; n0 = self.nfresh, self.nroot, self.ngen
        hi = n0
        while work:
            if len(out) > limit: raise Unsupported('too many paths in loop body')
            pre = work.pop(); s = self.save(); self.solver.push()
            self.oracle = Oracle(pre, work)
            self.nfresh, self.nroot, self.ngen = n0
            t0 = len(self.trace); p0 = len(self.pc)
            fr = self.ip.frames[-1] if self.ip and self.ip.frames else None; ns = len(fr.scopes) if fr else 0; tm = self.temps; nt = len(tm) if tm else 0; ne = len(self.ip.excs) if self.ip else 0
            try:
                ex = None
                try: fn(); kind = 'next'
                except Break: kind = 'break'
                except Continue: kind = 'next'
                except Return as e: kind = 'return'; ex = e
                except CppThrow as e: kind = 'throw'; ex = e
                out.append(dict(kind=kind, pc=self.pc[p0:], store=self.store, trace=self.trace[t0:], locks=list(self.locks), ghost=dict(self.ghost), ex=ex, imprecise=self.imprecise))
            except PathEnd:
                if fr: del fr.scopes[ns:]
                self.temps = tm
                if tm: del tm[nt:]
                if self.ip: del self.ip.excs[ne:]
            hi = tuple(max(a, b) for a, b in zip(hi, (self.nfresh, self.nroot, self.ngen)))
            self.solver.pop(); self.restore(s)
        self.nfresh, self.nroot, self.ngen = hi
        return out

class Oracle:
    def __init__(self, prefix, work): self.p = list(prefix); self.i = 0; self.work = work; self.done = []
    def next(self):
        if self.i < len(self.p):
            d = self.p[self.i]; self.i += 1; self.done.append(d); return d
        return None
    def record(self, d): self.done.append(d)
    def fork(self, opts):
        for o in reversed(opts[1:]): self.work.append(self.done + [o])
        self.done.append(opts[0])
