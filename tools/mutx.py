"""tools/mutx.py CNN FILE: as mut.py, but the whole check (proof and driver) judges each change"""
import sys, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/seedw'
prop, f = sys.argv[1:3]
subprocess.run(f'git -C {W} checkout -q -- . ; git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD', shell=True)
for l in sys.stdin.read().split('\n---\n'):
    if ' => ' not in l: continue
    a, b = l.rstrip('\n').split(' => ', 1); a = a.replace('\\n', '\n').lstrip('\n').replace('@@', '\\n'); b = b.replace('\\n', '\n').replace('@@', '\\n')
    s = open(f'{W}/{f}', newline='').read()
    if a not in s: print('NOMATCH', a); continue
    open(f'{W}/{f}', 'w', newline='').write(s.replace(a, b, 1))
    r = subprocess.run(['python3-vt', 'vc/run.py', prop], capture_output=True, text=True, cwd=V, env=dict(os.environ, VC_REPO=W, VC_EVIDENCE='/tmp/trial-evidence', VC_REPLAYS='/tmp/trial-replays'))
    o = (r.stdout + r.stderr).strip().split('\n')
    v = [x for x in o if 'VIOLATION' in x]
    print('MUT', a[:60].replace('\n', '|'), '=>', b[:60].replace('\n', '|'), ':: rc', r.returncode, v[0][-40:] if v else '', o[-1][-130:], flush=True)
    open(f'{W}/{f}', 'w', newline='').write(s)
