"""std::thread under contract: starting a thread is an event carrying the function it runs; shared by C19, C21, C22."""
from units.registry import *
class ThreadUnit(RegUnit):
    atomic_events = True
    shared = ()               # designators another thread may change whenever the lock is free
    def lib_construct(self, ip, t, args, ctype):
        c = ip.c
        if t == 'std::thread':
            if not args: return Opaque('thread', run=None)
            v = ip.val(args[0])
            if isinstance(v, Opaque) and v.fam == 'thread':
                if isinstance(args[0], LV): c.write(args[0], Opaque('thread', run=None))
                return v
            return start(ip, self, ip.bound(args[0], args[1:]))
        return RegUnit.lib_construct(self, ip, t, args, ctype)
    def lib_method(self, ip, obj, v, name, argnodes, n, dst, bt):
        c = ip.c
        if isinstance(v, Opaque) and v.fam == 'thread':
            if name == 'joinable': return z3.BoolVal(v.kw['run'] is not None)
            if name == 'join':
                if v.kw['run'] is None: raise CppThrow(Exc('std', rope('join')))
                c.trace.append(Ev('join', v.kw['run'], tuple(c.locks))); c.write(obj, Opaque('thread', run=None)); self.joined(ip, v.kw['run']); return None
            if name == 'detach': c.trace.append(Ev('detach', v.kw['run'])); c.write(obj, Opaque('thread', run=None)); return None
            if name == 'operator=':
                x = ip.argv(argnodes)[0]; self.assign(ip, obj, v, x); return obj
            if name == 'swap': x = ip.argv(argnodes)[0]; w = c.read(x); c.write(x, v); c.write(obj, w); return None
            raise Unsupported(f'thread::{name}')
        return RegUnit.lib_method(self, ip, obj, v, name, argnodes, n, dst, bt)
    def assign(self, ip, d, v, x):
        w = ip.val(x)
        if v.kw['run'] is not None: ip.c.violated('a running thread is not overwritten (std::terminate)'); raise PathEnd()
        if isinstance(x, LV): ip.c.write(x, Opaque('thread', run=None))
        ip.c.write(d, w)
    def lib_operator(self, ip, name, argnodes, n, dst):
        if name == 'operator=' and ip.typ(argnodes[0]) == 'std::thread':
            d = ip.glv(argnodes[0]); self.assign(ip, d, ip.c.read(d), ip.argv(argnodes[1:])[0]); return d
        return RegUnit.lib_operator(self, ip, name, argnodes, n, dst)
    def on_destroy(self, ip, lv, v):
        if isinstance(v, Opaque) and v.fam == 'thread' and v.kw['run'] is not None: ip.c.violated('a thread is joined before it is destroyed (std::terminate)')
        RegUnit.on_destroy(self, ip, lv, v)
    def joined(self, ip, run): pass
def start(ip, u, f):
    c = ip.c
    if not isinstance(f, Closure): raise Unsupported(f'function of a thread: {f}')
    k = c.ghost.get('threads', 0) + 1; c.ghost['threads'] = k; c.trace.append(Ev('start', k, f, dict(c.store))); return Opaque('thread', run=k)
