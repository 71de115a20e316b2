"""Create and confirm a planted change:  mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)])
For each: apply in a scratch copy of /repo, run the stable tests, run the demo on both trees; keep it under seeded/ only if confirmed."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/pypy3'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# run with the working directory at the root of the repository
here="$(cd "$(dirname "$0")" && pwd)"
s="$(mktemp -d)"
export HOME="$s" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 DEMO_SCRATCH="$s"
timeout 250 /opt/venv-pypy/bin/pypy3 "$here/demo.py"
rc=$?
case "$s" in /tmp/*) rm -rf "$s";; esac
exit $rc
'''

def run_demo(d, cwd):
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def tests(cwd, w):
    env = dict(os.environ, HOME=os.path.join(w, 'home'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=cwd)
    os.makedirs(env['HOME'], exist_ok=True)
    rep = os.path.join(w, 'report.xml')
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--doctest-modules',
                    '--continue-on-collection-errors', '--tb=short', '--show-capture=no', '-o', 'junit_family=xunit2', '--junitxml=' + rep],
                   cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = os.path.join(w, 'out.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + rep], stdout=subprocess.DEVNULL)
    return STABLE - set(json.load(open(out))['passed'])

def one(s, skip_tests):
    w = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
    try:
        c = os.path.join(w, 'repo')
        shutil.copytree('/repo', c, symlinks=True)
        for f, old, new in s['edits']:
            p = os.path.join(c, f)
            t = open(p, newline='').read()
            assert t.count(old) == 1, '%s: %d occurrences of %r' % (f, t.count(old), old)
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=c, stdout=subprocess.PIPE).stdout
        d = os.path.join(w, s['id'])
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip())
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = run_demo(d, '/repo')
        b = run_demo(d, c)
        ok = a.returncode == 0 and b.returncode != 0
        if not ok or '-v' in sys.argv:
            print(s['id'], 'demo: unchanged', a.returncode, a.stdout.decode()[-500:], '| changed', b.returncode, b.stdout.decode()[-500:])
        if ok and not skip_tests:
            miss = tests(c, w)
            if miss:
                print(s['id'], 'tests fail:', sorted(miss)[:5])
                ok = False
        if ok:
            dst = os.path.join(HERE, 'seeded', s['id'])
            if os.path.exists(dst):
                shutil.rmtree(dst)
            shutil.copytree(d, dst)
        print(s['id'], 'KEPT' if ok else 'REJECTED', b.stdout.decode().strip().split('\n')[-1][:160])
    finally:
        assert w.startswith('/tmp/mkseed.')
        shutil.rmtree(w)

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = [a for a in sys.argv[2:] if not a.startswith('-')]
todo = [s for s in ns['SEEDS'] if not only or s['id'] in only]
from concurrent.futures import ThreadPoolExecutor
def safe(s):
    try: one(s, '--notests' in sys.argv)
    except Exception as e: print(s['id'], 'ERROR', repr(e))
with ThreadPoolExecutor(6) as ex:
    list(ex.map(safe, todo))
