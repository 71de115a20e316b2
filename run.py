"""Entry point (PyPy):  run.py check Cxx quick|thorough   |  run.py replay FILE  |  run.py batch FILE"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('SX_REPO', '/repo')
sys.setrecursionlimit(6000)

from sx import api, state  # noqa


def load_harness(prop, mode):
    api.MODE = mode
    if mode == 'sym':
        from sx import instrument, runtime  # noqa
        instrument.install({'codeprep': os.path.join(REPO, 'codeprep'), 'harness': os.path.join(HERE, 'harness')})
        from sx import native
        native.mark()
    else:
        sys.path.insert(0, REPO)
    import_all()
    return importlib.import_module('harness.' + prop.lower())


def import_all():
    """load every module of the package now, so that its state is known before the first path"""
    base = os.path.join(REPO, 'codeprep')
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('data', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and f != '__main__.py':
                rel = os.path.relpath(os.path.join(root, f), REPO)[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel.pop()
                try:
                    importlib.import_module('.'.join(rel))
                except Exception as e:      # a harness that needs it reports it
                    if os.environ.get('SX_VERBOSE'):
                        print('cannot import', '.'.join(rel), repr(e))


def named(h, tier):
    """the jobs of a harness, with unique names"""
    seen = {}
    out = []
    for j in h.jobs(tier):
        n = seen[j[0]] = seen.get(j[0], 0) + 1
        out.append((j[0] if n == 1 else '%s~%d' % (j[0], n),) + tuple(j[1:]))
    return out


def jobs_of(h, tier):
    from sx.explore import Job
    out = []
    for j in named(h, tier):
        name, fn, params = j[0], j[1], j[2]
        kw = j[3] if len(j) > 3 else {}
        out.append(Job(name, fn, params, **kw))
    return out


def conc_run(fn, params, model):
    """-> (outcome, detail, observed)"""
    import traceback
    from sx.explore import _js
    api.start(model)
    try:
        fn(**params)
        return 'ok', None, _js(list(api.OBS))
    except api.AssumeFailed:
        return 'assume', None, None
    except api.NoBinding as e:
        return 'nobinding', str(e), None
    except api.CheckFailed as e:
        return 'violation', 'assertion: %s' % (e,), _js(list(api.OBS))
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        return 'violation', 'uncaught %s: %s at %s:%d' % (type(e).__name__, str(e)[:300], tb[-1].filename, tb[-1].lineno), \
            _js(list(api.OBS))


def find_job(h, name, tier):
    for j in named(h, tier):
        if j[0] == name:
            return j
    raise SystemExit('no job ' + name)


def cmd_batch(fn):
    with open(fn) as f:
        req = json.load(f)
    h = load_harness(req['property'], 'conc')
    funcs = set()
    out = []
    snap = None
    jobs = {j[0]: j for j in named(h, req['tier'])}
    pre = os.path.join(REPO, 'codeprep')

    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(pre):
                funcs.add('%s:%s' % (os.path.relpath(c.co_filename, REPO), c.co_name))
    snap = state.Snapshot(['codeprep', 'harness'])
    for it in req['items']:
        snap.restore()
        j = jobs[it['job']]
        sys.setprofile(prof)
        try:
            r = conc_run(j[1], j[2], it['model'])
        finally:
            sys.setprofile(None)
        out.append(r)
    with open(fn + '.out', 'w') as f:
        json.dump({'results': out, 'functions': sorted(funcs)}, f)


def cmd_replay(fn):
    with open(fn) as f:
        req = json.load(f)
    h = load_harness(req['property'], 'conc')
    j = find_job(h, req['job'], req['tier'])
    r = conc_run(j[1], j[2], req['model'])
    print('REPLAY %s job=%s outcome=%s detail=%s' % (req['property'], req['job'], r[0], r[1]))
    print('observed: %s' % json.dumps(r[2])[:2000])
    sys.stdout.flush()
    os._exit(1 if r[0] == 'violation' else 0)


def sub(cmd, fn, timeout=120):
    return subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), cmd, fn], stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout)


def main():
    cmd = sys.argv[1]
    if cmd == 'batch':
        return cmd_batch(sys.argv[2])
    if cmd == 'replay':
        return cmd_replay(sys.argv[2])
    from sx import driver
    return driver.main(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else 'quick')


if __name__ == '__main__':
    main()
