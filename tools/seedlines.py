"""Which planted changes remove lines that commits of ours added (those do not count)."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def git(*a): return subprocess.run(['git', '-C', '/repo'] + list(a), stdout=subprocess.PIPE).stdout.decode('utf-8', 'replace')
log = git('log', '--format=%H %s').split('\n')
ours = set(l.split()[0] for l in log if ' fix:' in l or ' hook' in l)
for sid in sorted(os.listdir(HERE + '/seeded')):
    f = None
    for l in open(HERE + '/seeded/%s/patch.diff' % sid, newline='').read().split('\n'):
        m = re.match(r'--- a/(.*)', l)
        if m:
            f = m.group(1)
            blame = [x.split()[0].lstrip('^') for x in git('blame', '-l', f).split('\n') if x]
            continue
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)); continue
        if f is None or l.startswith('+'): continue
        if l.startswith('-'):
            if any(o.startswith(blame[n - 1]) for o in ours):
                print(sid, f, n, l)
            n += 1
        elif l.startswith(' ') or l == '':
            n += 1
