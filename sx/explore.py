"""Driver: explores all paths of the jobs of one property with forked workers, replays counterexamples."""
import collections
import gc
import importlib
import json
import os
import random
import select
import struct
import pickle
import subprocess
import sys
import time
import traceback

from . import engine, api, certify
from .engine import Path, Stats, PathKilled, Unsupported, Truncated, Violation, EngineSignal

NW = int(os.environ.get('SX_WORKERS', '8'))
SLICE = 0.6


class Job(object):
    def __init__(self, name, fn, params=None, bounds='', max_decisions=4000, weight=1.0):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.bounds = bounds
        self.max_decisions = max_decisions
        self.weight = weight


def run_path(job, prefix, model, stats, snap):
    """-> (outcome, path, detail)"""
    p = Path(prefix, model, stats, job.max_decisions)
    engine.set_cur(p)
    api.start()
    snap.restore()
    out, det = 'ok', None
    try:
        job.fn(**job.params)
        if p.pos < len(prefix):
            raise Truncated('a path that is followed again ends early')
    except PathKilled:
        out = 'killed'
    except Truncated as e:
        out, det = 'truncated', str(e)
    except Unsupported as e:
        out, det = 'unsupported', str(e) + _where()
    except Violation as e:
        out, det = 'violation', (e.msg, e.model)
    except api.NoBinding as e:
        out, det = 'nobinding', str(e)
    except RecursionError:
        out, det = 'truncated', 'recursion'
    except EngineSignal:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        out = 'violation'
        det = ('uncaught %s: %s%s' % (type(e).__name__, _short(e), _where()), {v.a: x for v, x in p.env.items()})
    return out, p, det


def _short(e):
    try:
        return repr(e.args)[:200]
    except BaseException:
        return '?'


def _where():
    tb = sys.exc_info()[2]
    fs = traceback.extract_tb(tb)
    own = [f for f in fs if '/sx/' not in f.filename]
    f = (own or fs)[-1]
    return ' at %s:%d (%s)' % (os.path.basename(f.filename), f.lineno, f.name)


def _send(fd, o):
    b = pickle.dumps(o, 4)
    b = struct.pack('<Q', len(b)) + b
    i = 0
    while i < len(b):
        i += os.write(fd, b[i:i + 1 << 16] if False else b[i:i + 65536])


def _readn(fd, n):
    out = []
    while n:
        d = os.read(fd, min(n, 1 << 20))
        if not d:
            raise EOFError
        out.append(d)
        n -= len(d)
    return b''.join(out)


def _recv(fd):
    n, = struct.unpack('<Q', _readn(fd, 8))
    return pickle.loads(_readn(fd, n))


def worker(jobs, snap, rfd, wfd, frac):
    engine.SOLVER = engine.SOLVER.__class__()
    rnd = random.Random(12345)
    cz = certify.Certifier()
    ran, certified = {}, {}
    while True:
        try:
            msg = _recv(rfd)
        except EOFError:
            break
        if msg is None:
            break
        ji, items, slc, nsample = msg
        job = jobs[ji]
        stack = list(items)
        st = Stats()
        S = engine.SOLVER
        q0 = (S.queries, S.time, S.sat, S.unsat, S.unknown, S.hits, S.by_domain)
        res = {'ji': ji, 'out': collections.Counter(), 'asserts': 0, 'asserts_solver': 0, 'viol': [], 'det': {},
               'samples': [], 'notes': set(), 'depth': 0, 'incon': 0, 'witness': 0, 'cert': collections.Counter()}
        c0 = (cz.time, cz.goals)
        t0 = time.time()
        n = 0
        while stack:
            prefix, model = stack.pop()
            out, p, det = run_path(job, prefix, model, st, snap)
            n += 1
            res['out'][out] += 1
            res['asserts'] += p.asserts
            res['asserts_solver'] += p.asserts_solver
            res['depth'] = max(res['depth'], len(p.decisions))
            res['incon'] += p.inconclusive
            res['notes'] |= p.notes
            if out == 'ok' and p.asserts:
                res['witness'] += 1
            if out in ('truncated', 'unsupported', 'nobinding'):
                res['det'].setdefault(out + ': ' + (det or ''), {v.a: x for v, x in p.env.items()})
            if out == 'violation':
                if len(res['viol']) < 3:
                    res['viol'].append(det)
            stack.extend(p.pending)
            if frac and out in ('ok', 'killed'):
                # as much as the share of time allows
                ct, k = certified.get(ji, (0.0, 0))
                if not k or ct * (k + 1) / k <= frac * (ran.get(ji, 0.0) + time.time() - t0 - (cz.time - c0[0])):
                    t1 = cz.time
                    r = cz.path(p.declared, p.cert)
                    res['cert'][r] += 1
                    if r != 'none':
                        certified[ji] = (ct + cz.time - t1, k + 1)
                else:
                    res['cert']['left'] += 1
            if out == 'ok' and nsample > len(res['samples']) and (n <= 2 or rnd.random() < 0.1):
                try:
                    from .values import evalv
                    res['samples'].append(({v.a: x for v, x in p.env.items()},
                                           _js(evalv(list(api.OBS), p.env))))
                except EngineSignal:
                    pass
            engine.set_cur(None)
            if time.time() - t0 > slc or res['viol']:
                break
        res['left'] = stack
        res['q'] = [a - b for a, b in zip((S.queries, S.time, S.sat, S.unsat, S.unknown, S.hits, S.by_domain), q0)]
        res['st'] = dict(st.__dict__)
        res['time'] = time.time() - t0
        res['certtime'] = cz.time - c0[0]
        res['certgoals'] = cz.goals - c0[1]
        res['certfailed'] = cz.failed
        cz.failed = []
        ran[ji] = ran.get(ji, 0.0) + res['time'] - res['certtime']
        _send(wfd, res)
    if engine.SOLVER.p is not None:
        engine.SOLVER.p.kill()
    cz.close()
    os._exit(0)


def _js(x):
    """JSON-able canonical form of observed values"""
    if isinstance(x, (list, tuple)):
        return [_js(y) for y in x]
    if isinstance(x, dict):
        return [[_js(k), _js(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted((_js(y) for y in x), key=repr)
    if isinstance(x, bytes):
        return ['bytes'] + list(x)
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return x
    return '<%s>' % type(x).__name__


class JobResult(object):
    def __init__(self, job):
        self.job = job
        self.out = collections.Counter()
        self.asserts = self.asserts_solver = self.depth = self.incon = self.witness = 0
        self.viol = []
        self.det = {}
        self.samples = []
        self.notes = set()
        self.time = 0.0
        self.left = 0
        self.exhausted = False
        self.q = [0, 0.0, 0, 0, 0, 0, 0]
        self.st = collections.Counter()
        self.cert = collections.Counter()
        self.certtime = 0.0
        self.certgoals = 0
        self.certfailed = []


def explore(jobs, snap, budget, max_viol=3, nsample=6, on_violation=None, log=None, frac=0.1):
    """-> list of JobResult.  on_violation(job, msg, model) -> 'stop' | None"""
    results = [JobResult(j) for j in jobs]
    t0 = time.time()
    nw = min(NW, 32)
    workers = []
    gc.collect()
    for i in range(nw):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for (_, a, b) in workers:
                    os.close(a)
                    os.close(b)
                os.close(w1)
                os.close(r2)
                worker(jobs, snap, r1, w2, frac)
            except BaseException:
                traceback.print_exc()
            os._exit(1)
        os.close(r1)
        os.close(w2)
        workers.append((pid, w1, r2))
    queues = [[((), {})] for _ in jobs]
    busy = {}
    inflight = [0] * len(jobs)
    spent = [0.0] * len(jobs)
    dropped = set()
    stop = False
    idle = list(range(nw))

    def pick_job():
        best = None
        for i, q in enumerate(queues):
            if q and i not in dropped:
                k = spent[i] / jobs[i].weight + inflight[i] * SLICE
                if best is None or k < best[0]:
                    best = (k, i)
        return None if best is None else best[1]

    errors = []
    while True:
        over = time.time() - t0 > budget or stop
        while idle and not over:
            ji = pick_job()
            if ji is None:
                break
            w = idle.pop()
            q = queues[ji]
            # few items -> hand out one each; many -> a batch
            k = max(1, min(len(q) // (2 * nw), 64))
            # take from the bottom (large subtrees) when parallelism is short, else from the top
            if len(q) < 2 * nw:
                items = [q.pop(0)]
            else:
                items = q[-k:]
                del q[-k:]
            ns = max(0, nsample - len(results[ji].samples))
            slc = SLICE if len(q) >= nw else 0.15
            _send(workers[w][1], (ji, items, slc, min(ns, 2)))
            busy[w] = (ji, time.time())
            inflight[ji] += 1
        if not busy:
            break
        fds = {workers[w][2]: w for w in busy}
        ready, _, _ = select.select(list(fds), [], [], 5.0)
        for fd in ready:
            w = fds[fd]
            ji, _ = busy.pop(w)
            inflight[ji] -= 1
            try:
                res = _recv(fd)
            except EOFError:
                errors.append('worker died on job %s' % jobs[ji].name)
                results[ji].det['worker died'] = {}
                results[ji].out['truncated'] += 1
                continue
            idle.append(w)
            R = results[ji]
            R.out.update(res['out'])
            R.cert.update(res['cert'])
            R.certfailed.extend(res['certfailed'])
            for a in ('asserts', 'asserts_solver', 'incon', 'witness', 'time', 'certtime', 'certgoals'):
                setattr(R, a, getattr(R, a) + res[a])
            R.depth = max(R.depth, res['depth'])
            for k, v in res['det'].items():
                if len(R.det) < 12:
                    R.det.setdefault(k, v)
            R.notes |= res['notes']
            R.samples.extend(res['samples'])
            R.q = [a + b for a, b in zip(R.q, res['q'])]
            R.st.update(res['st'])
            spent[ji] += res['time']
            queues[ji].extend(res['left'])
            for v in res['viol']:
                R.viol.append(v)
                if on_violation is not None and not stop:
                    r = on_violation(jobs[ji], v[0], v[1])
                    if r == 'stop':
                        stop = True
                    elif r == 'drop':
                        dropped.add(ji)
            if res['out'].get('nobinding'):
                dropped.add(ji)
        if over:
            now = time.time()
            for w in list(busy):
                if now - busy[w][1] > 30:
                    ji, _ = busy.pop(w)
                    results[ji].det['slice did not end'] = {}
                    results[ji].out['truncated'] += 1
        elif len(workers) == 0:
            break
    for i, R in enumerate(results):
        R.left = len(queues[i])
        R.exhausted = (not queues[i] and i not in dropped and not stop and R.left == 0
                       and not R.out['truncated'] and not R.out['unsupported'] and not R.incon)
    for pid, w, r in workers:
        try:
            _send(w, None)
        except OSError:
            pass
        os.close(w)
    for pid, w, r in workers:
        for _ in range(40):
            p, s = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.02)
        else:
            try:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            except OSError:
                pass
    return results, errors, time.time() - t0
