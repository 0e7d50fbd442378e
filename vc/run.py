"""Check of one property: discharge its contracts on /repo's current source, then replay/explore the real code."""
import sys, os, json, time, subprocess, importlib, glob, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
REPO = os.environ.get('VC_REPO', '/repo')
import threading
import front
from trusted import TRUSTED, ASSUME

def build_driver(prop, san=True):
    src = f'{VERIF}/drivers/{prop.lower()}.cpp'
    if not os.path.exists(src): return None, 'no driver'
    out = f'{VERIF}/build/{prop}'; os.makedirs(out, exist_ok=True)
    head = open(src).read(4000)
    flags = ['-std=c++11', '-O0', '-g1', '-DNDEBUG', '-DLEARNLOG_USE_TLS', '-DLEARNLOG_USE_BUNDLED_FMT', f'-I{REPO}', f'-I{REPO}/include', f'-I{VERIF}/drivers', '-w'] + front.generated()
    m = re.search(r'// *FLAGS: *(.*)', head)
    if m: flags += m.group(1).split()
    elif san: flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    srcs = [src]
    for p in ('src/*.cpp', 'base/*.cpp', 'sinks/*.cpp', 'sinks/formatters/*.cpp', 'include/*.cpp', 'base/fmt/*.cc'): srcs += sorted(glob.glob(f'{REPO}/{p}'))
    procs = []
    for s in srcs:
        o = f'{out}/{re.sub("[^a-zA-Z0-9]", "_", s)}.o'
        procs.append((o, subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = ''
    for o, p in procs:
        t = p.communicate()[0]
        if p.returncode: bad += t[-1500:]
    if bad: return None, bad
    exe = f'{out}/driver'
    ld = re.search(r'// *LDFLAGS: *(.*)', head)
    r = subprocess.run(['g++'] + flags + [o for o, _ in procs] + ['-o', exe, '-pthread'] + (ld.group(1).split() if ld else []), capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-1500:]
    return exe, ''

def run_driver(exe, prop, tier, seed):
    t = 300 if tier == 'quick' else 700
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0', TZ=os.environ.get('TZ', 'UTC'))
    try: r = subprocess.run([exe], capture_output=True, timeout=t, env=env, cwd='/tmp')
    except subprocess.TimeoutExpired as e: return 'FAIL driver did not finish in %d s\n' % t + (e.stdout or b'').decode('utf8', 'replace')[-2000:], 1
    return r.stdout.decode('utf8', 'replace') + r.stderr.decode('utf8', 'replace')[-3000:], r.returncode

def main():
    prop = sys.argv[1].upper(); tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    built = {}
    th = threading.Thread(target=lambda: built.update(r=build_driver(prop))); th.start()
    import engine, core
    eng = None; front_err = None
    try:
        eng = engine.Engine(tier)
        if tier == 'thorough': eng.record_all = True
        mod = importlib.import_module('units.' + prop.lower())
        units = mod.units()
        eng.run_units(units)
    except Exception as e: front_err = f'{type(e).__name__}: {e}'[:2000]
    th.join(); exe, berr = built.get('r', (None, 'driver build crashed'))
    dout, drc, cases = '', None, 0
    if exe: dout, drc = run_driver(exe, prop, tier, seed)
    m = re.search(r'CASES (\d+)', dout); cases = int(m.group(1)) if m else 0
    obls = eng.obls if eng else []
    failed = [o for o in obls if o.status == 'failed']; unknown = [o for o in obls if o.status == 'unknown']
    undec = list(eng.undecided) if eng else []
    if front_err: undec.append(('front end', front_err))
    und_units = {u for u, _ in undec} | {o.unit for o in unknown}
    failed = [o for o in failed]
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    replay = f'{VERIF}/evidence/{prop}.replay.txt'
    dfail = exe is not None and drc != 0
    violation = bool(failed) or dfail
    cross = eng.cross_check() if eng and tier == 'thorough' and hasattr(eng, 'cross_check') else None
    discharged = sum(o.status == 'proved' for o in obls)
    complete = bool(obls) and discharged == len(obls) and not undec
    cov = dict(obligations=len(obls), discharged=discharged, checker_cmd=f'python3-vt vc/run.py {prop}',
               trusted_base=TRUSTED['*'] + TRUSTED.get(prop, []),
               units=len(units) if eng and not front_err else 0, units_proved=len({o.unit for o in obls} - und_units - {o.unit for o in failed}),
               functions_under_contract=sorted({f for u in units for f in u.funcs}) if eng and not front_err else [],
               functions_executed_by_the_verifier=sorted(eng.funcs) if eng else [],
               paths=eng.paths if eng else 0, solver_queries=core.STATS.queries, solver_seconds=round(core.STATS.time, 2), back_ends={'z3 ' + __import__('z3').get_version_string(): core.STATS.queries, **(eng.backend if eng else {})},
               undecided=[f'{u}: {w}' for u, w in undec] + sorted({f'{o.unit}: {o.name}' for o in unknown})[:40],
               proof_complete=complete, bounded_replay_cases=cases,
               bounded_replay='the driver runs the real compiled code on %d enumerated/seeded cases; bounded, not counted as proof' % cases)
    if cross is not None: cov['cross_check'] = cross
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ASSUME['*'] + ASSUME.get(prop, []), wall_s=round(time.time() - t0, 2), violations=int(violation))
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop}: {len(obls)} obligations, {discharged} discharged, {len(failed)} failed, {len(unknown)} unknown, {len(undec)} undecided units; driver: {"not built" if not exe else ("%d cases, rc %d" % (cases, drc))}; {time.time() - t0:.1f}s')
    for u, w in undec[:10]: print('  undecided:', u, '|', w[:300])
    for o in unknown[:5]: print('  not decided:', o.unit, '|', o.name, '|', o.detail[:200])
    if not exe: print('  driver:', berr[-800:])
    if violation:
        with open(replay, 'w') as f:
            f.write(f'property {prop}\nre-run: python3-vt vc/run.py {prop}  (in /verif)\n')
            for o in failed[:20]:
                f.write(f'\nfailed obligation: unit "{o.unit}", "{o.name}" ({o.kind})\n  {o.detail[:1500]}\n  model: {str(o.model)[:1500]}\n')
            if dfail: f.write(f'\nfailing input on the real code (build/{prop}/driver, exit {drc}):\n{dout[-4000:]}\n')
            else: f.write('\nno failing input was found on the real code by the bounded driver\n' + (dout[-800:] if exe else berr[-800:]))
        for o in failed[:5]: print(f'  failed: {o.unit} | {o.name} | {o.detail[:300]}')
        if dfail: print('  driver: ' + '\n  '.join(l for l in dout.splitlines() if 'FAIL' in l or 'ERROR' in l)[:1500])
        print(f'VIOLATION property={prop} replay={replay}' + ('' if dfail else ' no-failing-input-found'))
        sys.exit(1)
    if not complete and not exe:
        print('neither the verifier nor the driver could decide'); sys.exit(2)
    sys.exit(0)
main()
