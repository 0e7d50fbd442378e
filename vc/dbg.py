import sys, importlib, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import engine
from core import STATS
def main():
    mod = importlib.import_module('units.' + sys.argv[1].lower()); pat = sys.argv[2] if len(sys.argv) > 2 else ''
    e = engine.Engine()
    for r in e.run_units([u for u in mod.units() if pat in u.name]):
        o = r['obls']; bad = [x for x in o if x.status != 'proved']
        print(f'{r["unit"]:45s} obl {len(o):4d} bad {len(bad):3d} paths {r["paths"]} {r["time"]:.1f}s', *(['UNDECIDED', r['undecided']] if r['undecided'] else []))
        seen = set()
        for x in bad:
            if x.name in seen: continue
            seen.add(x.name); print('    ', x.status, x.name, '|', x.detail[:300])
            if x.model is not None and os.environ.get('VC_MODEL'): print('        ', str(x.model)[:600].replace('\n', ' '))
    print(STATS.__dict__, len(e.funcs), e.backend)
main()
