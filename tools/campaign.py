"""Mutation campaign: small changes to the original sources, kept if they build and pass the tests; which of them does no check notice?
usage: campaign.py OUT.jsonl WORKERS [seed [limit [file-filter]]]   (scratch copies under /tmp/mc, removed by hand)"""
import sys, os, re, json, random, subprocess, multiprocessing as mp
OUT, NW = sys.argv[1], int(sys.argv[2]); SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1; LIMIT = int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9; FILT = sys.argv[5] if len(sys.argv) > 5 else ''
MAP = {'base/circular_queue.h': 'C01', 'base/block_queue.h': 'C02', 'base/log_msg_buf.h': 'C03', 'base/async_msg.h': 'C03 C19', 'base/log_msg.h': 'C06 C03', 'base/backtracer.h': 'C04',
       'include/logger.h': 'C05 C06 C24 C04 C11', 'src/logger.cpp': 'C05 C04 C11 C24', 'sinks/formatters/pattern_formatter.cpp': 'C07 C11 C09', 'sinks/formatters/pattern_formatter.h': 'C07 C11', 'sinks/formatters/filler.h': 'C08',
       'sinks/formatters/flag_formatter.h': 'C09 C08', 'base/fmt_base.h': 'C10 C09', 'sinks/rolling_file_sink.h': 'C12 C14 C16', 'base/file_base.h': 'C13 C14', 'base/os.h': 'C13 C14 C15 C09 C06', 'sinks/sink.h': 'C05',
       'sinks/basic_sink.h': 'C16 C15', 'sinks/basic_file_sink.h': 'C13 C15 C16', 'sinks/null_sink.h': 'C15', 'sinks/ostream_sink.h': 'C15 C16', 'sinks/std_sinks.h': 'C15 C16', 'sinks/ansicolor_sink.h': 'C15 C16', 'sinks/std_color_sinks.h': 'C15',
       'base/static_mutex.h': 'C16', 'base/registry.cpp': 'C17 C18 C23 C24 C22', 'base/registry.h': 'C17 C22', 'base/lock_thread_pool.h': 'C19 C21', 'base/lockfree_thread_pool.h': 'C19 C21', 'base/lockfree_concurrent_thread_pool.h': 'C19 C21',
       'base/lockfree_concurrent_thread_pool.cpp': 'C19', 'base/lockfree_thread_pool.cpp': 'C19', 'base/thread_pool.cpp': 'C19 C21 C20', 'base/thread_pool.h': 'C21', 'include/async_logger.h': 'C20 C11 C24', 'base/periodic_function.h': 'C22', 'base/exception.h': 'C24',
       'include/async_factory.h': 'C23 C24', 'include/sync_factory.h': 'C24 C23', 'src/learnlog.cpp': 'C24 C18 C23', 'include/learnlog.h': 'C24 C06 C23', 'include/definitions.h': 'C24 C09'}
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def mutants():
    out = []
    for f in MAP:
        skip = 0
        for ln, l in enumerate(open(f'/repo/{f}', newline='').read().split('\n')):
            s = l.strip()
            if re.match(r'#\s*if.*_WIN32', s): skip = 1
            elif skip and re.match(r'#\s*(else|endif|elif)', s): skip = 0
            if skip or not s or s.startswith(('//', '#', '*', '/*', 'template', 'using', 'namespace', 'class ', 'struct ', 'friend', 'enum')): continue
            code = l.split('//')[0]
            def add(a, b, new, what): out.append((f, ln, code[:a] + new + code[b:] + l[len(code):], what))
            instr = lambda p: code[:p].count('"') % 2 == 1
            for rx, reps in ((r'(?<![<>\-=!])<=', ['<']), (r'(?<![<>\-=!])>=', ['>']), (r' < ', [' <= ']), (r' > ', [' >= ']), (r'==', ['!=']), (r'!=', ['==']), (r'&&(?=[ (])', ['||']), (r'\|\|', ['&&']), (r' \+ 1\b', ['']), (r' - 1\b', ['']), (r' \+ (?!1\b)', [' - ']), (r' - (?!1\b)', [' + ']),
                             (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.x])\d+(?![\w.x])', None), (r'\+\+', ['--']), (r'\bnotify_one\b', ['notify_all']), (r'\bbreak;', ['continue;', ';']), (r'!(?=[\w(])', ['']), (r'\+=', ['=']), (r' / ', [' % ']), (r' % ', [' / ']), (r'\bmin\b', ['max'])):
                for m in re.finditer(rx, code):
                    if instr(m.start()): continue
                    for r in (reps if reps else [str(int(m.group()) + 1)]): add(m.start(), m.end(), r, f'{m.group().strip()} -> {r.strip()}')
            m = re.match(r'\s*(if|while) \((.*)\)( \{| .*;)?\s*$', code)
            if m and ';' not in m.group(2) and m.group(1) == 'if': a, b = m.span(2); add(a, b, '!(' + m.group(2) + ')', 'negated')
            if re.match(r'[\w:>.\-\[\]*()]+(\(.*\)| [+\-]?= .*|\+\+);$', s) and not s.startswith(('return', 'throw', 'break')) and not re.match(r'(const |auto |int |size_t |std::\S+ \w)', s): add(len(code) - len(code.lstrip()), len(code.rstrip()), ';', 'deleted')
            m = re.match(r'return (?!;)(.*);$', s)
            if m and m.group(1) in ('true', 'false'): pass
    random.Random(SEED).shuffle(out)
    return [m for m in out if FILT in m[0]][:LIMIT]
def setup(w):
    d = f'/tmp/mc/{w}'
    if not os.path.exists(d):
        os.makedirs(d); sh(f'cp -a /repo {d}/repo && rm -rf {d}/repo/_build {d}/repo/.git; mkdir {d}/verif; cp -a /verif/vc /verif/drivers /verif/tools {d}/verif/; cd {d}/repo && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DLEARNLOG_BUILD_TEST=ON -DLEARNLOG_BUILD_EXAMPLE=OFF -DLEARNLOG_BUILD_BENCH=OFF >/dev/null && ninja -C _build -j8')
    return d
def one(m):
    f, ln, new, what = m; w = mp.current_process()._identity[0]; d = setup(w); p = f'{d}/repo/{f}'; old = open(f'/repo/{f}', newline='').read(); ls = old.split('\n'); was = ls[ln]; ls[ln] = new
    open(p, 'w', newline='').write('\n'.join(ls)); res = dict(file=f, line=ln + 1, what=what, was=was.strip(), now=new.strip())
    try:
        r = sh(f'ninja -C {d}/repo/_build -j3', timeout=300)
        if r.returncode: res['result'] = 'no build'; return res
        t = f'{d}/repo/_build/tests'; sh(f'rm -rf {d}/tr; mkdir -p {d}/tr')
        for k in range(2):
            r = sh(f'ulimit -f 2000000; cd {d}/tr && timeout 100 python3 /opt/vp/run_tests.py {d}/tr {t}/learnlog-utests-base {t}/learnlog-utests-sinks {t}/learnlog-utests-interface')
            good = r.stdout.count('PASS ') >= 53 and 'FAIL ' not in r.stdout
            if good: break
        if not good: res['result'] = 'tests fail'; return res
        res['checks'] = {}
        for c in MAP[f].split():
            r = sh(f'ulimit -f 2000000; cd {d}/verif && VC_JOBS=3 VC_REPO={d}/repo VERIF_SEED=1 timeout 600 python3-vt vc/run.py {c}'); o = r.stdout
            v = 'ok' if r.returncode == 0 else 'rc%d' % r.returncode
            if r.returncode == 1: v = 'proof' if 'no-failing-input' in o else ('both' if not re.search(r' 0 failed', o) else 'driver')
            elif not re.search(r' 0 unknown, 0 undecided', o): v += ' undecided'
            res['checks'][c] = v
            if v in ('both', 'driver'): break
        vs = list(res['checks'].values()); res['result'] = 'caught' if any(v in ('both', 'driver') for v in vs) else 'proof only' if 'proof' in vs else 'SURVIVED'
    except subprocess.TimeoutExpired: res['result'] = 'timeout'
    finally: open(p, 'w', newline='').write(old)
    return res
if __name__ == '__main__':
    ms = mutants(); print(len(ms), 'mutants'); done = set()
    if os.path.exists(OUT): done = {(r['file'], r['line'], r['now']) for r in map(json.loads, open(OUT))}
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done]
    with mp.Pool(NW) as pool, open(OUT, 'a') as fh:
        for r in pool.imap_unordered(one, ms): fh.write(json.dumps(r) + '\n'); fh.flush()
