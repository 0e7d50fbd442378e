"""tools/mut.py cNN FILE: lines 'old => new' on stdin; each is tried in the scratch copy and the obligations it fails are shown"""
import sys, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/seedw'
prop, f = sys.argv[1:3]; filt = sys.argv[3:]
subprocess.run(f'git -C {W} checkout -q -- . ; git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD', shell=True)
for l in sys.stdin.read().split('\n---\n'):
    if ' => ' not in l: continue
    a, b = l.rstrip('\n').split(' => ', 1); a = a.replace('\\n', '\n').lstrip('\n'); b = b.replace('\\n', '\n')
    s = open(f'{W}/{f}', newline='').read()
    if a not in s: print('NOMATCH', a); continue
    open(f'{W}/{f}', 'w', newline='').write(s.replace(a, b, 1))
    r = subprocess.run(['python3-vt', 'vc/dbg.py', prop] + filt, capture_output=True, text=True, cwd=V, env=dict(os.environ, VC_REPO=W, VC_DEBUG='1'))
    o = r.stdout + r.stderr; bad = [x.strip()[:110] for x in o.split('\n') if 'failed ' in x or 'UNDEC' in x or 'unknown ' in x]
    if 'obl ' not in o: bad = ['BUILD/CRASH ' + o[-200:]]
    print('MUT', a[:60].replace('\n', '|'), '=>', b[:60].replace('\n', '|'), '::', bad[:3] or 'PASSES')
    open(f'{W}/{f}', 'w', newline='').write(s)
