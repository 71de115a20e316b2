"""run the checks of the planted changes' properties on scratch copies:  runseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(HERE + '/seeded'))
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    m = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='runseed.', dir='/tmp')
    try:
        c = w + '/repo'
        shutil.copytree('/repo', c, symlinks=True)
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=c)
        v = w + '/verif'
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        t = time.time()
        props = [a[2:] for a in sys.argv if a.startswith('-p')] or [m['property']]
        for p in props:
            r = subprocess.run([v + '/check', p, tier], env=dict(os.environ, SX_REPO=c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode('utf-8', 'replace')
            line = [l for l in out.split('\n') if l.startswith('counterexample') or 'INCONCL' in l or l.startswith('REPLAY')]
            print('%-34s %s %s rc=%d %.0fs %s' % (i, p, 'CAUGHT' if 'VIOLATION property=%s' % p in out and r.returncode == 1 else 'missed', r.returncode, time.time() - t, (line or [''])[0][:200]))
            if '-v' in sys.argv:
                print(out[-3000:])
            sys.stdout.flush()
    finally:
        assert w.startswith('/tmp/runseed.')
        shutil.rmtree(w)
