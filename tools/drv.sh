#!/bin/bash
# builds and runs one driver alone: tools/drv.sh C24
cd "$(dirname "$0")/.." && python3-vt - "$1" <<'P'
import sys; sys.path.insert(0, 'vc'); a = sys.argv; sys.argv = [a[0], 'X']
src = open('vc/run.py').read().replace('\nmain()', '\n')
ns = {'__name__': 'run', '__file__': 'vc/run.py'}; exec(compile(src, 'vc/run.py', 'exec'), ns)
exe, err = ns['build_driver'](a[1].upper()); print(exe, (err or '')[-2500:])
if exe: o, rc = ns['run_driver'](exe, a[1].upper(), 'quick', '1'); print('rc', rc, o[-2500:])
P
