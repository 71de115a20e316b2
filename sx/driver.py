"""One check run: explore, replay, validate, report."""
import json
import os
import random
import shutil
import subprocess
import sys
import time

from . import api, state, engine, explore, certify

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
BUDGET = {'quick': 600.0, 'thorough': 780.0}


def known_findings(prop):
    fn = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(fn):
        for l in open(fn, encoding='utf-8'):
            l = l.strip()
            if l and l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') != 'fixed':
                    out.append(d)
    return out


def main(prop, tier):
    t0 = time.time()
    import run
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(rdir, f))
    note = None
    try:
        h = run.load_harness(prop, 'sym')
    except (ImportError, AttributeError, api.NoBinding) as e:
        print('INCONCLUSIVE property=%s the observed interface is not there: %s' % (prop, e))
        _evidence(prop, tier, seed, None, [], 0, t0, [], 0, [], set(), [repr(e)], [], 0)
        return 0
    jobs = run.jobs_of(h, tier)
    only = os.environ.get('SX_JOB')
    if only:
        jobs = [j for j in jobs if j.name.startswith(only)]
    snap = state.Snapshot(['codeprep', 'harness'])
    budget = float(os.environ.get('SX_BUDGET', getattr(h, 'BUDGET', BUDGET).get(tier, BUDGET[tier])))
    known = known_findings(prop)
    reported = []
    incon = []
    seen_known = {}
    nrep = [0]
    cnt = {}

    def on_violation(job, msg, model):
        k = cnt.get(job.name, 0)
        if k >= 6:
            return 'drop'
        cnt[job.name] = k + 1
        nrep[0] += 1
        fn = os.path.join(rdir, '%s-%d.json' % (prop, nrep[0]))
        with open(fn, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'job': job.name, 'model': model, 'message': msg}, f, indent=1)
        try:
            r = run.sub('replay', fn, timeout=200)
            out = r.stdout.decode('utf-8', 'replace')
            rc = r.returncode
        except subprocess.TimeoutExpired:
            out, rc = 'replay timeout', 2
        if rc == 1 and 'outcome=violation' in out:
            for kf in known:
                if kf['job'] == job.name and (kf.get('match') or '') in out:
                    seen_known[kf['id']] = kf
                    cnt[job.name] = k
                    return None
            reported.append((job.name, msg, fn, out))
            print('counterexample in job %s: %s\n  inputs: %s\n  %s' % (job.name, msg, _pretty(model), out.strip()[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, fn))
            sys.stdout.flush()
            return 'stop'
        incon.append('%s: %s | replay: %s' % (job.name, msg, out.strip()[:300]))
        print('INCONCLUSIVE property=%s counterexample of the encoding does not reproduce: job %s: %s\n  inputs %s\n  %s'
              % (prop, job.name, msg, _pretty(model), out.strip()[:600]))
        return None

    frac = float(os.environ.get('SX_CERTIFY', {'quick': 0.1, 'thorough': 0.6}[tier]))
    results, errors, wall = explore.explore(jobs, snap, budget, on_violation=on_violation, frac=frac)
    for R in results:
        for q in R.certfailed[:2]:
            incon.append('certificate: job %s: %s' % (R.job.name, q))
            print('INCONCLUSIVE property=%s the second solver disagrees with the exploration: job %s: %s' % (prop, R.job.name, q[:1500]))
            R.exhausted = False
    # validation of the encoding: replay sampled paths on the untouched code
    valid, bad, funcs = 0, [], []
    if not reported or os.environ.get('SX_VALIDATE'):
        valid, bad, funcs = validate(prop, results, rdir, seed, tier)
    for b in bad[:8]:
        print('INCONCLUSIVE property=%s encoding and native run disagree: %s' % (prop, b[:1500]))
    for kf in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    for R in results:
        st = 'exhausted' if R.exhausted else 'NOT exhausted (%d pending)' % R.left
        print('job %-34s paths %s asserts %d (%d by solver) queries %d (%.1fs) certified %s (%.1fs) cpu %.1fs depth %d: %s' % (
            R.job.name, dict(R.out), R.asserts, R.asserts_solver, R.q[0], R.q[1], dict(R.cert), R.certtime, R.time, R.depth, st))
        for k, v in list(R.det.items())[:6]:
            print('      %s  e.g. %s' % (k[:300], _pretty(v)[:300]))
        if R.out['ok'] and not R.witness:
            print('      VACUOUS: no completed path reaches an assertion')
        if R.notes and os.environ.get('SX_VERBOSE'):
            print('      notes: %s' % sorted(R.notes))
    _evidence(prop, tier, seed, h, results, wall, t0, reported, valid, bad, funcs, incon + errors, list(seen_known), nrep[0])
    print('property %s tier %s: %s in %.1fs; %d native replays agree, %d disagree' % (
        prop, tier, 'VIOLATED' if reported else 'held on everything explored', time.time() - t0, valid, len(bad)))
    sys.stdout.flush()
    os._exit(1 if reported else 0)


def _pretty(model):
    groups = {}
    for k, v in sorted(model.items()):
        b, _, r = k.partition('[')
        if r:
            groups.setdefault(b, {})[int(r.split(']')[0])] = v
        else:
            groups[k] = v
    out = []
    for k, v in groups.items():
        if isinstance(v, dict):
            v = ascii(''.join(chr(v[i]) for i in sorted(v)))
        out.append('%s=%s' % (k, v))
    return ', '.join(out)


def validate(prop, results, rdir, seed, tier):
    import run
    items = []
    obs = []
    for R in results:
        for m, o in R.samples[:8]:
            items.append({'job': R.job.name, 'model': m})
            obs.append(o)
    if not items:
        return 0, [], []
    fn = os.path.join(rdir, prop + '-validate.json')
    with open(fn, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'items': items}, f)
    try:
        r = run.sub('batch', fn, timeout=300)
        with open(fn + '.out') as f:
            d = json.load(f)
    except Exception as e:
        return 0, ['batch failed: %r' % (e,)], []
    bad = []
    ok = 0
    for it, o, (out, det, got) in zip(items, obs, d['results']):
        o = json.loads(json.dumps(o))
        if out == 'ok' and got == o:
            ok += 1
        else:
            bad.append('job %s inputs %s: native %s %s observed %s, symbolic observed %s' % (
                it['job'], _pretty(it['model']), out, det, ascii(json.dumps(got))[:700], ascii(json.dumps(o))[:700]))
    try:
        os.remove(fn)
        os.remove(fn + '.out')
    except OSError:
        pass
    return ok, bad, d['functions']


def _evidence(prop, tier, seed, h, results, wall, t0, reported, valid, bad, funcs, incon, known, nrep):
    samples = []
    for R in results:
        for m, o in R.samples[:2]:
            samples.append({'job': R.job.name, 'inputs': _pretty(m), 'observed': ascii(json.dumps(o))[:400]})
    tot = lambda f: sum(f(R) for R in results)  # noqa
    cov = {
        'states': tot(lambda R: R.out['ok'] + R.out['violation']),
        'transitions': tot(lambda R: R.st.get('decisions', 0)),
        'traces_validated_against_impl': valid,
        'samples': samples[:12] or ['none'],
        'meaning': 'states = completed symbolic execution paths of the real code (each stands for all inputs of its path '
                   'condition); transitions = branch decisions taken; traces_validated = sampled paths whose solver model was '
                   'run on the uninstrumented code with identical observed values',
        'exhaustive': bool(results) and all(R.exhausted for R in results),
        'jobs': [{'job': R.job.name, 'bounds': R.job.bounds, 'paths': dict(R.out), 'assertions': R.asserts,
                  'assertions_decided_by_solver_or_domain': R.asserts_solver, 'exhausted_within_bounds': R.exhausted,
                  'pending': R.left, 'not_covered': sorted(R.det)[:8], 'solver_queries': R.q[0],
                  'solver_time_s': round(R.q[1], 2), 'sat': R.q[2], 'unsat': R.q[3], 'unknown': R.q[4],
                  'query_cache_hits': R.q[5], 'decided_by_interval_domains': R.st.get('dom_unsat', 0) + R.st.get('dom_sat', 0) + R.q[6],
                  'certificates': {'paths_unsat': R.cert['ok'], 'paths_nothing_to_certify': R.cert['none'],
                                   'paths_not_attempted': R.cert['left'] + R.cert['skipped'], 'paths_unknown': R.cert['unknown'],
                                   'paths_contradicted': R.cert['failed'], 'goals': R.certgoals, 'solver_time_s': round(R.certtime, 2)},
                  'vacuous': bool(R.out['ok'] and not R.witness), 'cpu_s': round(R.time, 1),
                  'engine_notes': sorted(R.notes)[:12]} for R in results],
        'functions_encoded': list(funcs),
        'solver': 'z3 %s' % engine.Z3,
        'solver_queries': tot(lambda R: R.q[0]), 'solver_time_s': round(tot(lambda R: R.q[1]), 2),
        'certificate_queries': tot(lambda R: R.cert['ok'] + R.cert['unknown'] + R.cert['failed']),
        'certificate_goals': tot(lambda R: R.certgoals), 'certificate_time_s': round(tot(lambda R: R.certtime), 2),
        'certificates': 'per path one query to a second solver (%s) that is satisfiable exactly if some input follows the path up to a '
                        'branch side, assumption or assertion that the exploration ruled out and then contradicts it; unsat on all paths '
                        'means that the paths cover all inputs within the bounds and all assertions hold on them' % certify.BIN,
        'replays_of_counterexamples': nrep,
        'encoding_disagreements': [b[:500] for b in bad], 'inconclusive': [i[:500] for i in incon],
        'known_findings_seen': known,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(h, 'ASSUMPTIONS', [])) if h else [], 'wall_s': round(time.time() - t0, 2),
          'violations': len(reported)}
    fn = os.path.join(EVID, prop + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + '.tmp', fn)
