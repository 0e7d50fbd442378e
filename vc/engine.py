"""Runs units: every path of the function under contract, obligations collected and classified."""
import re, os, subprocess, tempfile, time, traceback
import z3
import front, core, interp, lib as L
from core import *

class Unit:
    """one function (or group of paths) under contract; subclasses define run(ip)"""
    name = ''; funcs = ()
    handle_kinds = frozenset(); value_kinds = frozenset(); atomic_events = False; tables = False
    on_access = None; on_lock = None; on_unlock = None; on_destroy = None; on_reassign = None
    max_paths = 3000
    def contract(self, cls, name): return None
    def abstract_ctor(self, ip, t): return None
    def static_value(self, ip, d): return None
    def global_value(self, ip, r): return None
    def loop_hook(self, ip, node, cond, body, step): return None
    def handle_contract(self, kind, name): return None
    def handle_field(self, ip, h, name): return None
    def lib_function(self, ip, name, decl, argnodes, n, dst): return NotImplemented
    def call_object(self, ip, f, args): return NotImplemented
    def to_elem(self, ip, y, kind):
        if isinstance(y, Handle): return y
        raise Unsupported('element')
    def run(self, ip): raise NotImplementedError

class Engine:
    def __init__(self, tier='quick'):
        self.timeout_ms = 4000 if tier == 'quick' else 15000
        self.cache = {}; self.keep = []; self.mute = 0
        self.ast = front.load(); self.obls = []; self.funcs = set(); self.unit = None
        self.undecided = []; self.covered = {}; self.paths = 0; self.src = {}; self.backend = {'z3': 0, 'z3-new': 0, 'cvc5': 0}
        self.tier = tier; self.cross = [] if tier == 'thorough' else None; self.crossed = {}
    def cross_run(self):
        """thorough tier: every answer 'unsat' of the unit asked again from cvc5, and from another release of z3 where cvc5 does not know"""
        if self.cross is None: return {}
        qs, self.cross = self.cross, []; res = dict(asked=len(qs), cvc5=0, z3_release=0, not_confirmed=0, contradicted=0)
        def text(q):
            s = z3.Solver(); s.add(*q[0]); s.add(q[1]); return '\n'.join(l for l in s.to_smt2().split('\n') if not l.startswith((';', '(set-info', '(set-logic', '(check-sat')))
        def ask(cmd, head, txts):
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh: fh.write(head + ''.join(f'(push 1)\n{t}\n(check-sat)\n(echo "done")\n(pop 1)\n' for t in txts))
            try: out = subprocess.run(cmd + [fh.name], capture_output=True, text=True, timeout=60 + 2 * len(txts)).stdout
            except subprocess.TimeoutExpired as e: out = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
            os.unlink(fh.name); parts = [x.strip().split('\n')[-1].strip() for x in re.split(r'^"?done"?$', out, flags=re.M)][:-1]
            return (parts + ['error'] * len(txts))[:len(txts)]
        for k in range(0, len(qs), 50):
            txts = [text(q) for q in qs[k:k + 50]]
            a = ask(['cvc5', '--incremental', '--tlimit-per=1500'], '(set-logic ALL)\n', txts)
            left = [i for i, x in enumerate(a) if x != 'unsat']; res['cvc5'] += len(txts) - len(left); res['contradicted'] += a.count('sat')
            if not left: continue
            b = ask(['z3'], '(set-option :timeout 3000)\n', [txts[i] for i in left])
            for i, x in zip(left, b):
                if x == 'unsat': res['z3_release'] += 1
                else:
                    res['not_confirmed'] += 1; res['contradicted'] += x == 'sat' and a[i] != 'sat'
                    if x == 'sat' or a[i] == 'sat': self.undecided.append((self.unit.name, 'solvers disagree'))
        return res
    def cross_check(self): return self.crossed or None
    def note_function(self, f):
        if f.qual != 'lambda': self.funcs.add(f.qual)
    def src_of(self, m):
        r = m.get('range', {}); b, e = r.get('begin', {}), r.get('end', {})
        b = b.get('spellingLoc', b); e = e.get('spellingLoc', e)
        f = m.get('_file') or b.get('file') or e.get('file')
        if not f or 'offset' not in b: return ''
        if f not in self.src: self.src[f] = front.TEXT[f].encode() if f in front.TEXT else open(f, 'rb').read()
        return self.src[f][b['offset']:e['offset'] + e.get('tokLen', 0)].decode('utf8', 'replace')
    def obligation(self, ctx, name, status, detail, model, kind):
        if self.mute: return
        self.obls.append(Obligation(self.unit.name, name, status, detail, model, kind))
        if status != 'proved': ctx_note = None
    def second_opinion(self, pc, f):
        if self.mute: return None
        # another solver on the same query
        s = z3.Solver(); s.add(*pc); s.add(f)
        txt = s.to_smt2()
        for cmd, nm in ((['z3-new', '-T:5'], 'z3-new'), (['cvc5', '--tlimit=5000'], 'cvc5')):
            try:
                with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh: fh.write(('(set-logic ALL)\n' if nm == 'cvc5' else '') + txt)
                r = subprocess.run(cmd + [fh.name], capture_output=True, text=True, timeout=8).stdout.strip().split('\n')[0]
                os.unlink(fh.name)
            except Exception: continue
            if r == 'unsat': self.backend[nm] += 1; return z3.unsat
        return None
    def run_unit(self, unit):
        self.unit = unit; t0 = time.time()
        n0 = len(self.obls)
        work = [[]]; n = 0; finished = 0
        budget = getattr(unit, 'budget_s', 120 if self.tier == 'quick' else 400)
        try:
            while work:
                pre = work.pop(); n += 1
                if n > unit.max_paths: raise Unsupported('too many paths')
                if time.time() - t0 > budget: raise Unsupported('time budget of the unit')
                ctx = Ctx(self); ctx.oracle = Oracle(pre, work)
                ip = interp.Interp(ctx, self, L.Lib())
                try:
                    unit.run(ip); finished += 1
                    r = ctx._check(TRUE)[0]
                    if r == z3.unsat: finished -= 1
                except PathEnd: pass
                except CppThrow as e:
                    self.obligation(ctx, 'no unexpected exception leaves the function', 'failed' if ctx.sat(TRUE) and not ctx.imprecise else 'unknown', f'{e.exc.cls}', ctx._check(TRUE)[1], 'post')
            if finished == 0: self.undecided.append((unit.name, 'no execution reaches the end (vacuous)'))
            if len(self.obls) == n0: self.undecided.append((unit.name, 'no obligation was generated (vacuous)'))
        except Unsupported as e:
            self.undecided.append((unit.name, str(e)[:300]))
            if os.environ.get('VC_TBU'): print('\n'.join(traceback.format_exc().splitlines()[-int(os.environ['VC_TBU']):]))
        except RecursionError: self.undecided.append((unit.name, 'recursion'))
        except (PathEnd, Break, Continue, Return): self.undecided.append((unit.name, 'internal'))
        except Exception as e:
            self.undecided.append((unit.name, f'internal: {type(e).__name__}: {e}'[:300]))
            if os.environ.get('VC_DEBUG'): print("\n".join(traceback.format_exc().splitlines()[-int(os.environ.get("VC_TB", "7")):]))
        self.paths += n
        return time.time() - t0
    def run_units(self, units, jobs=None):
        """every unit in its own process (forked, so that the AST is shared); results are merged in order"""
        import multiprocessing as mp
        jobs = jobs or int(os.environ.get('VC_JOBS', '8'))
        global _ENG, _UNITS
        _ENG, _UNITS = self, units
        # units marked `first` fix facts that the others use ; they run before the processes are forked
        early = {i: _one(i) for i, u in enumerate(units) if getattr(u, 'first', False)}
        if jobs <= 1 or len(units) < 2: res = [early.get(i) or _one(i) for i in range(len(units))]
        else:
            with mp.get_context('fork').Pool(min(jobs, len(units)), maxtasksperchild=4) as p:
                rest = [i for i in range(len(units)) if i not in early]; got = dict(zip(rest, p.map(_one, rest, 1))); got.update(early); res = [got[i] for i in range(len(units))]
        self.times = {}
        for r in res:
            self.obls += r['obls']; self.undecided += r['undecided']; self.funcs |= r['funcs']; self.paths += r['paths']; self.times[r['unit']] = r['time']
            STATS.queries += r['q'][0]; STATS.time += r['q'][1]; STATS.unknown += r['q'][2]
            for k, v in r['cross'].items(): self.crossed[k] = self.crossed.get(k, 0) + v
            for k, v in r['backend'].items(): self.backend[k] = self.backend.get(k, 0) + v
        return res
def _one(i):
    e = _ENG; u = _UNITS[i]; n, d, p = len(e.obls), len(e.undecided), e.paths; b0 = dict(e.backend); q0 = (STATS.queries, STATS.time, STATS.unknown); f0 = e.funcs; e.funcs = set(); e.cache = {}; e.keep = []
    t = e.run_unit(u); cr = e.cross_run()
    obls = e.obls[n:]; e.obls = e.obls[:n]; und = e.undecided[d:]; e.undecided = e.undecided[:d]; pt = e.paths - p; e.paths = p
    for o in obls: o.model = str(o.model)[:1500] if o.model is not None else None
    fs = e.funcs; e.funcs = f0; q = (STATS.queries - q0[0], STATS.time - q0[1], STATS.unknown - q0[2]); STATS.queries, STATS.time, STATS.unknown = q0
    bk = {k: v - b0.get(k, 0) for k, v in e.backend.items()}; e.backend = b0
    return dict(unit=u.name, obls=obls, undecided=und, funcs=fs, paths=pt, time=t, q=q, backend=bk, cross=cr)
