"""Behaviour-preserving edits: refac.py EDITS.py WORKERS [name-filter]; EDITS.py defines R = {name: (checks or None, [(file, old, new), ...])}. No check may raise an alarm."""
import sys, os, json, subprocess, re, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); src, nw = sys.argv[1], int(sys.argv[2]); filt = sys.argv[3] if len(sys.argv) > 3 else ''
args = sys.argv; sys.argv = ['x', '/dev/null', '1']; import campaign as C; sys.argv = args
g = {}; exec(open(src).read(), g); R = g['R']
ROOT = os.environ.get('RF', '/tmp/rf')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def setup(w):
    d = f'{ROOT}/{w}'; sh(f'mkdir -p {d}/verif; rm -rf {d}/repo; cp -a /repo {d}/repo; rm -rf {d}/repo/_build {d}/repo/.git; rsync -a /verif/vc /verif/drivers /verif/tools {d}/verif/ || cp -a /verif/vc /verif/drivers /verif/tools {d}/verif/'); return d
def one(n):
    checks, edits = R[n]; d = setup(mp.current_process()._identity[0]); fs = []
    for f, a, b in edits:
        s = open(f'{d}/repo/{f}', newline='').read()
        crlf = '\r\n' in s
        if crlf: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        if s.count(a) < 1: return n, f'NO MATCH in {f}: {a[:60]!r}', {}
        open(f'{d}/repo/{f}', 'w', newline='').write(s.replace(a, b)); fs.append(f)
    cs = checks.split() if checks else sorted({c for f in fs for c in C.MAP[f].split()})
    out = {}
    for c in cs:
        r = sh(f'ulimit -f 2000000; cd {d}/verif && VC_JOBS=3 VC_REPO={d}/repo VERIF_SEED=1 timeout 800 python3-vt vc/run.py {c}'); o = r.stdout
        m = re.search(r'(\d+) failed, (\d+) unknown, (\d+) undecided', o); st = 'ok' if r.returncode == 0 and m and m.groups() == ('0', '0', '0') else f'rc{r.returncode} ' + (m.group(0) if m else o[-200:] + r.stderr[-200:])
        if st != 'ok': st += ' || ' + ' | '.join(l.strip()[:230] for l in o.split('\n') if re.match(r'  (failed|undecided|not decided|driver)', l))[-900:]
        out[c] = st
    bad = [c for c, s in out.items() if not s.startswith(('ok', 'rc0'))]
    return n, 'ALARM ' + ' '.join(bad) if bad else ('undecided' if any(s != 'ok' for s in out.values()) else 'quiet'), out
if __name__ == '__main__':
    with mp.Pool(nw) as p:
        for n, res, out in p.imap_unordered(one, [n for n in R if filt in n]):
            print(n, '->', res, flush=True)
            for c, s in out.items():
                if s != 'ok': print('    ', c, s, flush=True)
