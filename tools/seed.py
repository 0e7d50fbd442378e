"""Plants a bug in a scratch copy, checks that it counts (builds, tests pass, demo passes without and fails with it), keeps it in /verif/seeded/<id>."""
import os, subprocess, json, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/seedw'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
src="$here/demo.cpp"
g++ -std=gnu++14 -O1 -g -DNDEBUG -DLEARNLOG_USE_BUNDLED_FMT -DLEARNLOG_USE_TLS FLAGS -w -I. -Iinclude "$src" -o "$out/demo" \\
  -Wl,--start-group _build/liblearnlog.a _build/sinks/liblearnlog_sinks.a _build/base/liblearnlog_base.a -Wl,--end-group -pthread
cd "$out"
set +e
timeout 100 ./demo
rc=$?
exit $rc
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def prepare():
    if not os.path.exists(W): sh(f'cp -a /repo {W} && rm -rf {W}/_build')
    sh(f'git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD')
    r = build()
    assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]
def build():
    return sh(f'cd {W} && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DLEARNLOG_BUILD_TEST=ON -DLEARNLOG_BUILD_EXAMPLE=OFF -DLEARNLOG_BUILD_BENCH=OFF >/dev/null && ninja -C _build -j8')
def tests():
    sh(f'rm -rf {W}/_build/tr; mkdir -p {W}/_build/tr'); t = f'{W}/_build/tests'
    r = sh(f'cd /tmp && python3 /opt/vp/run_tests.py {W}/_build/tr {t}/learnlog-utests-base {t}/learnlog-utests-sinks {t}/learnlog-utests-interface')
    ok = {l[5:].split('/')[-1].strip() for l in r.stdout.splitlines() if l.startswith('PASS')}
    return ok, r.stdout.count('FAIL ')
def make(id, prop, edits, demo, needs, breaks, flags=''):
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    open(f'{d}/demo.cpp', 'w').write(demo); open(f'{d}/demo.sh', 'w').write(DEMO.replace('FLAGS', flags)); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    def fail(m): print(id, 'REJECTED:', m[-1500:]); shutil.rmtree(d); sh(f'git -C {W} checkout -q -- .'); return False
    sh(f'git -C {W} checkout -q -- .')
    b = build()
    if b.returncode: return fail('base build')
    r = sh(f'cd {W} && bash {d}/demo.sh')
    if r.returncode: return fail('demo fails on the unchanged tree: ' + r.stdout + r.stderr)
    for f, old, new in edits:
        p = f'{W}/{f}'; s = open(p, newline='').read()
        if s.count(old) != 1: return fail(f'{f}: {s.count(old)} matches of {old!r}')
        open(p, 'w', newline='').write(s.replace(old, new))
    open(f'{d}/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True).stdout.decode())
    b = build()
    if b.returncode: return fail('build: ' + b.stdout[-1500:])
    ok, nf = tests()
    base = json.load(open('/opt/vp/BASELINE.json')); want = base.get('passed', base) if isinstance(base, dict) else base
    if nf:
        ok, nf = tests()
        if nf: return fail(f'{nf} tests fail')
    r = sh(f'cd {W} && bash {d}/demo.sh')
    if r.returncode == 0: return fail('demo passes with the bug')
    ck = sh(f'cd {W} && git checkout -q -- . && git apply --check {d}/patch.diff')
    if ck.returncode: return fail('patch does not apply: ' + ck.stderr)
    print(id, 'kept; demo rc', r.returncode, len(ok), 'tests pass'); return True
