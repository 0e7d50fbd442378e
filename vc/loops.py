"""Loops: concrete unrolling where the condition is literal, otherwise induction with an inferred invariant.

State at the start of iteration k (k >= 0) is the state before the loop with every changed leaf replaced by a
descriptor evaluated at k; the descriptors are checked (base case by construction, step by proof) before they are used."""
import z3
from core import *

MAX_UNROLL = 80

def leaf_paths(v, path=()):
    if isinstance(v, Obj):
        for f, x in v.f.items(): yield from leaf_paths(x, path + (('f', f),))
    else: yield path, v
def get_path(v, p):
    for e in p:
        if not isinstance(v, Obj) or e[1] not in v.f: return None
        v = v.f[e[1]]
    return v
def set_path(v, p, x):
    if not p: return x
    d = dict(v.f); d[p[0][1]] = set_path(v.f[p[0][1]], p[1:], x); return Obj(v.cls, d)

def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b) or S(a).eq(S(b))
    if isinstance(a, Str) and isinstance(b, Str): return a.gen == b.gen and rope_same(a.r, b.r)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, View) and isinstance(b, View): return same(a.p, b.p) and same(a.n, b.n)
    if isinstance(a, CharP) and isinstance(b, CharP): return a.src == b.src and same(a.off, b.off)
    if type(a) is type(b) and hasattr(a, 'terms'):
        return a.key() == b.key() and all(same(x, y) for x, y in zip(a.terms(), b.terms()))
    try: return bool(a == b)
    except Exception: return False
def rope_same(a, b): return a is b or segs_same(a.segs, b.segs)

class Fail(Exception): pass

def run(ip, node, cond, body, step):
    c = ip.c; n = 0
    if cond is None: return induct(ip, node, cond, body, step)
    while True:
        outs = []
        def probe(): outs.append(cond())
        ip.e.mute += 1
        try: r = c.nested(probe)
        finally: ip.e.mute -= 1
        if len(r) == 1 and r[0]['kind'] == 'next' and len(outs) == 1 and (z3.is_true(S(outs[0])) or z3.is_false(S(outs[0]))):
            if not c.choose(cond()): return
            n += 1
            if n > MAX_UNROLL: raise Unsupported('loop with too many concrete iterations')
            try: body()
            except Break: return
            except Continue: pass
            if step: step()
            continue
        return induct(ip, node, cond, body, step)

class Lin:
    def __init__(self, v0, d): self.v0, self.d = v0, d
    def at(self, k): return S(self.v0 + k * self.d)
class Hist:
    """value given by recursion over the iterations; keep: an iteration where this holds starts with the initial value"""
    keep = None; dropped = False
    def __init__(self, c, v0, name):
        self.v0 = v0; self.srt = v0.sort(); self.ks = list(c.kstack[:-1])
        self.fn = z3.Function(name, *([z3.IntSort()] * (len(self.ks) + 1) + [self.srt]))
    def at(self, k): return self.fn(*(self.ks + [k]))
class Append:
    """text growing by the alternatives' segments"""
    def __init__(self, v0, alts, k): self.v0, self.alts, self.k = v0, alts, k
class Havoc:
    def __init__(self, v0, name): self.v0, self.name = v0, name

def mentions(t, k):
    if not z3.is_expr(t): return False
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

def induct(ip, node, cond, body, step):
    c = ip.c; e = ip.e
    k = c.fresh_int('k', 0)
    base_store = dict(c.store); base_locks = list(c.locks)
    D = {}          # (root, path, comp) -> descriptor
    c.kstack.append(k)
    def iteration():
        if cond is not None:
            if not c.choose(cond()): raise LoopExit()
        try: body()
        except Continue: pass
        if step: step()
    def install():
        st = dict(base_store)
        for (root, path), d in D.items():
            st[root] = set_path(st[root], path, value_at(ip, d, k))
        c.store = st
    try:
        rounds = 0
        while True:
            rounds += 1
            if rounds > 14: raise Unsupported('no loop invariant found')
            e.mute += 1
            try:
                install()
                pre = dict(c.store)
                facts0 = hist_facts(c, D, k, None)
                outs = c.nested(lambda: (assume_all(c, facts0), wrap_iter(c, iteration)))
            finally: e.mute -= 1
            nexts = [o for o in outs if o['kind'] == 'next']
            ch = False
            changed = {}
            for o in nexts:
                if o['locks'] != base_locks: raise Unsupported('loop body changes the locks held')
                for root, v in pre.items():
                    w = o['store'].get(root)
                    if w is v: continue
                    if w is None or v is None:
                        if v is not w: raise Unsupported(f'loop body destroys {root}')
                        continue
                    diff(v, w, (), root, changed, o)
            for key, lst in changed.items():
                if key not in D:
                    D[key] = guess(ip, key, get_path(base_store[key[0]], key[1]), get_path(pre[key[0]], key[1]), lst, nexts, k); ch = True
            if not ch:
                for key, d in list(D.items()):
                    nd = verify(ip, key, d, pre, nexts, k)
                    if nd is not d: D[key] = nd; ch = True
            if not ch: break
        # final exploration, obligations recorded
        install()
        pre = dict(c.store)
        facts = hist_facts(c, D, k, nexts)
        for f in facts: c.assume(f)
        for f in bounds(c, outs, nexts, k): c.assume(f)
        outs = c.nested(lambda: wrap_iter(c, iteration))
    finally:
        c.kstack.pop()
    nexts = [o for o in outs if o['kind'] == 'next']; exits = [o for o in outs if o['kind'] != 'next']
    if not exits: raise PathEnd()
    # what is known about the iterations before k: each took one of the 'next' alternatives
    bodyf = Or(*[And(*o['pc']) for o in nexts]) if nexts else FALSE
    j = z3.Int(c.fresh_name('j'))
    c.assume(Implies(k >= 1, z3.substitute(bodyf, (k, k - 1))))
    if not z3.is_true(S(bodyf)):
        c.assume(z3.ForAll([j], Implies(z3.And(0 <= j, j < k), z3.substitute(bodyf, (k, j)))))
    i = c.choose_nd(len(exits)) if len(exits) > 1 else 0
    o = exits[i]
    for f in o['pc']: c.assume(f)
    if not c.feasible(TRUE): raise PathEnd()
    c.store = dict(o['store']); c.locks = list(o['locks']); c.imprecise = o['imprecise']
    alts = [(And(*x['pc']), x['trace']) for x in nexts]
    if any(t for _, t in alts):
        kk = z3.Int(c.fresh_name('ke'))
        c.trace.append(FE(kk, I(0), k, [(z3.substitute(a, (k, kk)), [subst_ev(x, k, kk) for x in t]) for a, t in alts]))
    c.trace += o['trace']
    if o['kind'] == 'break': return
    raise o['ex']

def atoms(f, out, seen):
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and x.num_args() == 2 and z3.is_int(x.arg(0)): out.append((x.arg(0), x.arg(1)))
        st.extend(x.children())
def bounds(c, outs, nexts, k):
    """inductive order facts between the terms the loop compares (Houdini)"""
    at = []; seen = set()
    for o in outs:
        for f in o['pc']: atoms(f, at, seen)
    cand = []; keys = set()
    for x, y in at:
        if not (mentions(x, k) or mentions(y, k)): continue
        for f in (x <= y, x >= y):
            g = S(f)
            if z3.is_true(g) or z3.is_false(g) or g.get_id() in keys: continue
            keys.add(g.get_id()); cand.append(g)
    if not cand or not nexts: return []
    cand = [f for f in cand[:24] if c.prove(z3.substitute(f, (k, I(0))))]
    while cand:
        hyp = And(*cand)
        bad = [f for f in cand if not all(c.prove(Implies(And(hyp, *o['pc']), z3.substitute(f, (k, k + 1)))) for o in nexts)]
        if not bad: return cand
        ids = {f.get_id() for f in bad}; cand = [f for f in cand if f.get_id() not in ids]
    return []
class LoopExit(Exception): pass
def wrap_iter(c, f):
    try: f()
    except LoopExit: raise Break()
def assume_all(c, fs):
    for f in fs: c.assume(f)

def value_at(ip, d, k):
    c = ip.c
    if isinstance(d, (Lin, Hist)): return rebuild(d, d.at(k))
    if isinstance(d, Append):
        v = d.v0
        kk = z3.Int('kc')
        alts = [(z3.substitute(a, (d.k, kk)), [subst_seg(s, d.k, kk) for s in segs]) for a, segs in d.alts]
        if all(len(s) == 1 and seg_same(s[0], alts[0][1][0]) and isinstance(s[0], (Lit, Chr)) and len(getattr(s[0], 's', 'x')) == 1 and not (isinstance(s[0], Chr) and mentions(s[0].t, kk)) for _, s in alts):
            s0 = alts[0][1][0]; seg = Rep(I(ord(s0.s)) if isinstance(s0, Lit) else s0.t, k)
        elif not any(s for _, s in alts): return v
        else: seg = Cat(kk, I(0), k, alts)
        return Str(v.r + Rope([seg]), v.fam, c.newgen())
    if isinstance(d, Havoc):
        c.imprecise.append(f'loop value {d.name}')
        v = d.v0
        if isinstance(v, Str): return Str(sym_text(d.name, *c.kstack), v.fam, c.newgen())
        if z3.is_expr(v): return z3.Function(d.name, *([x.sort() for x in c.kstack] + [v.sort()]))(*c.kstack)
        raise Unsupported(f'loop changes {d.name}')
    if isinstance(d, Multi): return d.value(ip, k)
    raise Unsupported('descriptor')
class Multi:
    """composite value whose integer/array components have their own descriptors"""
    def __init__(self, v0, comps): self.v0 = v0; self.comps = comps
    def value(self, ip, k): return self.v0.with_terms([d.at(k) if hasattr(d, 'at') else d for d in self.comps])
def rebuild(d, t): return t

def terms_of(v):
    if isinstance(v, CharP): return [v.off]
    return v.terms()

def diff(a, b, path, root, out, o):
    if same(a, b): return
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.f.keys() == b.f.keys():
        for f in a.f: diff(a.f[f], b.f[f], path + (('f', f),), root, out, o)
        return
    out.setdefault((root, path), []).append((o, b))

def arr_step(ip, a, b):
    """b = Store(a, i, e): (i, e)"""
    if z3.is_store(b) and b.arg(0).eq(a): return b.arg(1), b.arg(2)
    return None
class ArrAppend:
    """array filled at consecutive positions start + k with the element of iteration k"""
    def __init__(self, a0, start, elem, k): self.a0, self.start, self.elem, self.k = a0, start, elem, k
    def at(self, k):
        i = z3.Int('ia')
        return z3.Lambda([i], z3.If(z3.And(i >= self.start, i < self.start + k), z3.substitute(self.elem, (self.k, i - self.start)), z3.Select(self.a0, i)))

def guess_term(ip, v0, cur, news, k, name):
    c = ip.c
    if z3.is_int(v0):
        ds = [S(n - cur) for n in news]
        if all(x.eq(ds[0]) for x in ds) and not mentions(ds[0], k): return Lin(v0, ds[0])
        return Hist(c, v0, name)
    if isinstance(v0.sort(), z3.ArraySortRef):
        st = [arr_step(ip, cur, n) for n in news]
        if len(st) == 1 and st[0]:
            start = S(z3.substitute(st[0][0], (k, I(0))))
            return ArrAppend(v0, start, st[0][1], k)
    return Hist(c, v0, name)

def guess(ip, key, v0, cur, lst, nexts, k):
    c = ip.c; name = c.fresh_name('loop_' + '_'.join(x[1] for x in key[1]) if key[1] else 'loop_' + key[0].split('#')[0])
    news = [get_path(o['store'][key[0]], key[1]) for o in nexts]
    if z3.is_expr(v0):
        if not all(z3.is_expr(n) and n.sort() == v0.sort() for n in news): raise Unsupported(f'loop changes the kind of {key}')
        return guess_term(ip, v0, cur, news, k, name)
    if isinstance(v0, Str):
        al = []
        for o, n in zip(nexts, news):
            segs = n.r.segs; base = cur.r.segs
            if rope_same(n.r, cur.r): al.append((And(*o['pc']), [])); continue
            ext = split_prefix(base, segs)
            if ext is None: return Havoc(v0, name)
            al.append((And(*o['pc']), ext))
        return Append(v0, al, k)
    if hasattr(v0, 'terms') and all(type(n) is type(v0) and n.key() == v0.key() for n in news):
        comps = []
        for i, t0 in enumerate(v0.terms()):
            ct = cur.terms()[i]; nt = [n.terms()[i] for n in news]
            comps.append(t0 if all(x.eq(ct) for x in nt) else guess_term(ip, t0, ct, nt, k, f'{name}_{i}'))
        return Multi(v0, comps)
    raise Unsupported(f'loop changes {key[0]}{key[1]}: {v0} -> {news[:1]}')

def split_prefix(base, segs):
    """segs = base ++ ext (last literal of base may have been merged)"""
    n = len(base)
    if n == 0: return list(segs)
    if len(segs) < n: return None
    for i in range(n - 1):
        if not seg_same(base[i], segs[i]): return None
    if seg_same(base[-1], segs[n - 1]): return list(segs[n:])
    if isinstance(base[-1], Lit) and isinstance(segs[n - 1], Lit) and segs[n - 1].s.startswith(base[-1].s):
        return [Lit(segs[n - 1].s[len(base[-1].s):])] + list(segs[n:])
    return None

def verify_term(ip, d, t0, cur, nexts, news, k, name):
    c = ip.c
    if isinstance(d, Lin):
        for o, n in zip(nexts, news):
            if not valid(c, o['pc'], n == d.at(k + 1)): return Hist(c, t0, name)
    elif isinstance(d, ArrAppend):
        st = [arr_step(ip, cur, n) for n in news]
        if len(st) != 1 or not st[0] or not valid(c, nexts[0]['pc'], st[0][0] == d.start + k) or not S(st[0][1]).eq(S(d.elem)):
            if len(st) == 1 and st[0] and valid(c, nexts[0]['pc'], st[0][0] == d.start + k): return ArrAppend(d.a0, d.start, st[0][1], k)
            return Hist(c, t0, name)
    elif not hasattr(d, 'at'):
        if any(not n.eq(cur) for n in news): return guess_term(ip, t0, cur, news, k, name)
    elif isinstance(d, Hist):
        d.steps = [(And(*o['pc']), n) for o, n in zip(nexts, news)]
        g = keeps(c, d, nexts, news, k)
        if (g is None) != (d.keep is None) or g is not None and not g.eq(d.keep):
            e = Hist.__new__(Hist); e.__dict__.update(d.__dict__); e.keep = g; e.k = k; e.dropped = d.dropped or g is None; return e
    return d
def keeps(c, d, nexts, news, k):
    """the condition under which an iteration that goes on still finds the initial value: what every continuing path tests before the value matters"""
    if d.dropped: return None
    pcs = [[f for f in o['pc'] if not uses(f, d.fn)] for o in nexts]
    if not pcs: return None
    common = [f for f in pcs[0] if all(any(f.eq(x) for x in p) for p in pcs[1:])]
    if not common: return None
    g = And(*common); g1 = z3.substitute(g, (k, k + 1))
    for o, n in zip(nexts, news):
        if not valid(c, list(o['pc']) + [d.at(k) == d.v0, g1], n == d.v0): return None
    return g
def uses(t, fn):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x) and x.decl().eq(fn): return True
        st.extend(x.children())
    return False

def verify(ip, key, d, pre, nexts, k):
    c = ip.c; name = c.fresh_name('loopv')
    cur = get_path(pre[key[0]], key[1]); news = [get_path(o['store'][key[0]], key[1]) for o in nexts]
    if isinstance(d, Append):
        al = []
        for o, n in zip(nexts, news):
            ext = [] if rope_same(n.r, cur.r) else split_prefix(cur.r.segs, n.r.segs)
            if ext is None: return Havoc(d.v0, name)
            al.append((And(*o['pc']), ext))
        if repr(al) != repr(d.alts): return Append(d.v0, al, k)
        return d
    if isinstance(d, Multi):
        comps = []
        for i, x in enumerate(d.comps):
            comps.append(verify_term(ip, x, d.v0.terms()[i], cur.terms()[i], nexts, [n.terms()[i] for n in news], k, f'{name}_{i}'))
        if all(a is b for a, b in zip(comps, d.comps)): return d
        return Multi(d.v0, comps)
    if isinstance(d, Havoc): return d
    return verify_term(ip, d, d.v0 if hasattr(d, 'v0') else d.a0, cur, nexts, news, k, name)

def valid(c, pc, f):
    return c.prove(Implies(And(*pc), f))

def all_hist(D):
    for d in D.values():
        if isinstance(d, Hist): yield d
        if isinstance(d, Multi):
            for x in d.comps:
                if isinstance(x, Hist): yield x

def hist_facts(c, D, k, nexts):
    out = []
    for d in all_hist(D):
        out.append(d.at(I(0)) == d.v0)
        if d.keep is not None: out.append(Implies(z3.substitute(d.keep, (d.k, k)), d.at(k) == d.v0))
        if d.keep is not None and nexts is not None:
            j = z3.Int(c.fresh_name('jk')); out.append(z3.ForAll([j], Implies(z3.And(0 <= j, j < k, z3.substitute(d.keep, (d.k, j))), d.at(j) == d.v0), patterns=[d.at(j)]))
        if nexts is not None and getattr(d, 'steps', None):
            j = z3.Int(c.fresh_name('jh'))
            st = And(*[Implies(a, d.at(k + 1) == v) for a, v in d.steps])
            out.append(z3.ForAll([j], Implies(z3.And(0 <= j, j < k), z3.substitute(st, (k, j))), patterns=[z3.substitute(d.at(k), (k, j))] if False else []))
            out.append(Implies(k >= 1, z3.substitute(st, (k, k - 1))))
    return out

def subst_ev(ev, k, kk):
    if isinstance(ev, FE):
        return FE(ev.k, subst_term(ev.lo, k, kk), subst_term(ev.hi, k, kk), [(subst_term(a, k, kk), [subst_ev(x, k, kk) for x in t]) for a, t in ev.alts])
    return Ev(ev.name, *[subst_val(a, k, kk) for a in ev.args], **{n: subst_val(v, k, kk) for n, v in ev.kw.items()})
def subst_val(v, k, kk):
    if z3.is_expr(v): return z3.substitute(v, (k, kk))
    if isinstance(v, Rope): return Rope([subst_seg(s, k, kk) for s in v.segs])
    if isinstance(v, Handle): return Handle(v.kind, z3.substitute(v.t, (k, kk)))
    if isinstance(v, Obj): return Obj(v.cls, {n: subst_val(x, k, kk) for n, x in v.f.items()})
    if isinstance(v, (tuple, list)): return type(v)(subst_val(x, k, kk) for x in v)
    if isinstance(v, dict): return {n: subst_val(x, k, kk) for n, x in v.items()}
    if isinstance(v, Str): return Str(subst_val(v.r, k, kk), v.fam, v.gen)
    if isinstance(v, View): return View(subst_val(v.p, k, kk), subst_term(v.n, k, kk))
    if isinstance(v, CharP): return CharP(subst_val(v.src, k, kk) if isinstance(v.src, LV) else v.src, subst_term(v.off, k, kk), v.gen)
    if isinstance(v, LV): return LV(v.root, tuple((a[0], subst_term(a[1], k, kk)) for a in v.path))
    if isinstance(v, Ptr): return Ptr(subst_val(v.t, k, kk), v.kind, v.meta)
    if hasattr(v, 'terms') and hasattr(v, 'with_terms'): return v.with_terms([subst_term(t, k, kk) for t in v.terms()])
    return v
