"""tools/seedlines.py: which seeds remove or sit next to lines that /repo's own commits added"""
import os, subprocess, re
for i in sorted(os.listdir('/verif/seeded')):
    f = None
    for l in open(f'/verif/seeded/{i}/patch.diff', newline=''):
        if l.startswith('--- a/'): f = l[6:].strip(); old = subprocess.run(['git', '-C', '/repo', 'show', '65e81a3:' + f], capture_output=True, text=True).stdout.replace('\r', '').split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].rstrip('\r\n') not in old: print(i, f, l.strip()[:80])
