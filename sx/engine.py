"""Path exploration: replay-prefix DFS over real (instrumented) code; decisions by z3."""
import os
import subprocess
import time

from . import terms as tm
from .terms import T, ISet, iset, ev, tstr, FULL, EMPTY, TRUE, FALSE, not_, solset

Z3 = os.environ.get('SX_SOLVER', '/usr/bin/z3')
SLOW = float(os.environ.get('SX_SLOW', '0'))


class EngineSignal(BaseException):
    pass


class PathKilled(EngineSignal):
    """assumption not satisfiable / path cut deliberately"""


class Unsupported(EngineSignal):
    """operation outside the encoding: the path is abandoned and reported"""


class Truncated(EngineSignal):
    """a bound of the engine (number of concretisations, decisions) was reached"""


class Diverged(Truncated):
    """a path that is followed again asks other questions than before: the encoding is not deterministic"""


class Violation(EngineSignal):
    def __init__(self, msg, model):
        self.msg = msg
        self.model = model


class Solver(object):
    def __init__(self):
        self.p = None
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.sets = {}
        self.funs = {}
        self.cache = {}
        self.hits = 0
        self.by_domain = 0

    def start(self):
        self.p = subprocess.Popen([Z3, '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.sets = {}
        self.funs = {}
        self.defs = []
        self._send('(set-option :print-success false)(set-option :timeout 20000)')

    def _send(self, s):
        self.p.stdin.write(s.encode() + b'\n')

    def _ask(self, s):
        self._send(s + '(echo "!E")')
        out = b''
        fd = self.p.stdout
        while not out.endswith(b'!E\n'):
            d = fd.read(65536)
            if not d:
                raise RuntimeError('solver died: %r on %s' % (out[-300:], s[-300:]))
            out += d
        return out[:-3].decode()

    # set/function names
    def __call__(self, s):
        n = self.sets.get(s.id)
        if n is None:
            n = self.sets[s.id] = 'S%d' % s.id
            d = '(define-fun %s ((x Int)) Bool %s)' % (n, tm.set_tree(s))
            self.defs.append(d)
            self._pending.append(d)
        return n

    def fun(self, name):
        n = self.funs.get(name)
        if n is None:
            n = self.funs[name] = 'f%d' % len(self.funs)
            f, dom = tm.FUNS[name]
            d = '(define-fun %s ((x Int)) Int %s)' % (n, tm.fun_tree(f, dom))
            self.defs.append(d)
            self._pending.append(d)
        return n

    def check(self, doms, ts):
        """doms: list of (var, ISet); ts: terms over exactly these vars.  -> dict var->int, None (unsat) or 'unknown'"""
        red = tm.reduce_query(ts, dict(doms))
        if red is None:
            self.by_domain += 1
            return None
        ts, dd, alldom = red
        rest = {v: pick(alldom[v]) for v, _ in doms if v not in dd}
        if not ts:
            self.by_domain += 1
            return rest
        order = {}

        def vn(v):
            i = order.get(v)
            if i is None:
                i = order[v] = len(order)
            return 'x%d' % i
        key = []
        # canonical form: terms in given order, variables numbered by first occurrence
        for t in ts:
            key.append(tstr(t, vn, _keyname))
        vs = sorted(order, key=order.get)
        key = ('|'.join(key), tuple(dd[v].id for v in vs))
        r = self.cache.get(key, 0)
        if r != 0:
            self.hits += 1
            if r is None or r == 'unknown':
                return r
            rest.update((v, r[i]) for i, v in enumerate(vs))
            return rest
        if self.p is None:
            self.start()
        res = None
        # 1. satisfiable with small sub-domains?
        small = [_small(dd[v]) for v in vs]
        if any(a is not dd[v] for a, v in zip(small, vs)):
            res = self._query(ts, vs, small, vn)
            if res == 'unknown':
                res = None
        if res is None:
            res = self._query(ts, vs, [dd[v] for v in vs], vn)
        self.cache[key] = res
        if res is None or res == 'unknown':
            return res
        rest.update((v, res[i]) for i, v in enumerate(vs))
        return rest

    def _query(self, ts, vs, ds, vn):
        t0 = time.time()
        self._pending = []
        body = ['(push)']
        for i in range(len(vs)):
            body.append('(declare-const x%d Int)' % i)
        for i, d in enumerate(ds):
            if d is not FULL:
                body.append('(assert %s)' % tm.set_smt(d, 'x%d' % i, self))
        for t in ts:
            body.append('(assert %s)' % tstr(t, vn, self))
        q = ''.join(body)
        pre = ''.join(self._pending)
        out = self._ask(pre + q + '(check-sat)')
        st = out.strip().split('\n')[-1] if out.strip() else ''
        if '(error' in out:
            raise RuntimeError('solver error: %s on %s' % (out[:500], q[:1500]))
        res = 'unknown'
        if st == 'sat':
            self.sat += 1
            if vs:
                o = self._ask('(get-value (%s))(pop)' % ' '.join('x%d' % i for i in range(len(vs))))
                res = _parse_values(o)
            else:
                self._ask('(pop)')
                res = []
        else:
            self._ask('(pop)')
            if st == 'unsat':
                self.unsat += 1
                res = None
            else:
                self.unknown += 1
        self.queries += 1
        self.time += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            with open('/tmp/slow.log', 'a') as f:
                f.write('%.1f %s\n%s\n' % (time.time() - t0, st, q))
                for t in ts:
                    f.write('   T %s\n' % tm.tstr(t)[:600])
        return res


class _KeyName(object):
    def __call__(self, s):
        return 'S%d' % s.id

    def fun(self, n):
        return n


_keyname = _KeyName()

_NICE = [97, 98, 65, 66, 48, 95, 99, 64, 32, 46, 228, 10, 9]
_smallmemo = {}


def _small(d):
    if len(d.r) <= 6:
        return d
    r = _smallmemo.get(d.id)
    if r is None:
        out = [x for x in _NICE if x in d]
        out += list(d.values(8))
        out += [a for a, b in d.r[-4:]]
        step = max(1, len(d.r) // 8)
        out += [a for a, b in d.r[::step]]
        r = _smallmemo[d.id] = tm.iset_from_values(set(out))
    return r


_pickmemo = {}


def pick(d):
    r = _pickmemo.get(d.id)
    if r is None:
        r = None
        for x in _NICE:
            if x in d:
                r = x
                break
        if r is None or (d.r[0][0] == -tm.INF) or d.r[0][0] < 0:
            if 0 in d:
                r = 0
            elif 1 in d:
                r = 1
        if r is None:
            a, b = d.r[0]
            r = a if a != -tm.INF else b
        _pickmemo[d.id] = r
    return r


def _parse_values(o):
    res = []
    o = o.replace('(', ' ( ').replace(')', ' ) ').split()
    i = 0
    # ( ( x0 5 ) ( x1 ( - 3 ) ) )
    while i < len(o):
        if o[i].startswith('x') and o[i - 1] == '(':
            if o[i + 1] == '(':
                res.append(-int(o[i + 3]))
                i += 4
            else:
                res.append(int(o[i + 1]))
                i += 1
        i += 1
    return res


SOLVER = Solver()


class Stats(object):
    def __init__(self):
        self.decisions = 0
        self.dom_unsat = 0
        self.dom_sat = 0
        self.local_sat = 0
        self.model_true = 0
        self.slices = 0


class Path(object):
    def __init__(self, prefix, model, stats, max_decisions):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.model = model           # var name -> int   (complete for the vars seen so far)
        self.env = {}                # var term -> int
        self.dom = {}
        self.pc = []
        self.rel = []
        self.occ = {}
        self.known = {}
        self.pending = []
        self.vars = {}               # name -> var term
        self.observed = []
        self.asserts = 0
        self.asserts_solver = 0
        self.asserts_const = 0
        self.stats = stats
        self.max_decisions = max_decisions
        self.inconclusive = 0
        self.notes = set()
        self.digmemo = {}
        self.undo = {}
        self.solo = False            # follow the given model only (self-test)
        self.cert = []               # see certify.py
        self.declared = []

    # ---- variables
    def newvar(self, name, dom):
        if name in self.vars:
            raise RuntimeError('duplicate variable ' + name)
        v = tm.var(name)
        tm.VARDOM[v] = dom
        self.vars[name] = v
        self.dom[v] = dom
        self.declared.append((v, dom))
        self.occ[v] = []
        if name in self.model:
            self.env[v] = self.model[name]
        else:
            self.env[v] = pick(dom)
        return v

    def digits(self, x, base, n):
        """x written in the given base: n fresh digit variables, most significant first, tied to x by an equation"""
        k = (x, base, n)
        r = self.digmemo.get(k)
        if r is None:
            val = ev(x, self.env)
            top = base - 1
            if x.op == 'v' and self.dom[x].r:
                top = max(self.dom[x].r[-1][1], 0) // base ** (n - 1)
            r = []
            s = tm.const(0)
            for i in range(n):
                p = base ** (n - 1 - i)
                name = '~%d.%d' % (len(self.digmemo), i)
                v = self.newvar(name, iset([(0, min(top, base - 1) if i == 0 else base - 1)]))
                if name not in self.model:
                    self.env[v] = val // p % base
                r.append(v)
                s = tm.addl(s, tm.mul(v, tm.const(p)))
            self.digmemo[k] = r
            self.cert.append(('a', tm.eq(s, x)))
            self._add(tm.eq(s, x))
        return r

    # ---- constraints
    def _add(self, t):
        """add a constraint already known to hold in self.env"""
        if t.op == 'and':
            for x in t.a:
                self._add(x)
            return
        self.pc.append(t)
        if len(t.vars) == 1:
            s = solset(t)
            if s is not None:
                v, = t.vars
                self.dom[v] = self.dom[v] & s
                return
        i = len(self.rel)
        self.rel.append(t)
        for v in t.vars:
            self.occ[v].append(i)

    def _feasible(self, t):
        """is PC & t satisfiable? -> None | new env"""
        st = self.stats
        if t is FALSE:
            return None
        if len(t.vars) == 1:
            s = solset(t)
            if s is not None:
                v, = t.vars
                d = self.dom[v] & s
                if d is EMPTY:
                    st.dom_unsat += 1
                    return None
                if not self.occ[v]:
                    st.dom_sat += 1
                    e = dict(self.env)
                    e[v] = pick(d)
                    return e
                # local search on v
                rel = self.rel
                e = dict(self.env)
                n = 0
                for x in _small(d).values(6):
                    e[v] = x
                    for i in self.occ[v]:
                        if not ev(rel[i], e):
                            break
                    else:
                        st.local_sat += 1
                        return e
                return self._slice(t, {v: d})
        return self._slice(t, {})

    def _slice(self, t, override):
        st = self.stats
        st.slices += 1
        seen = set(t.vars)
        work = list(seen)
        rels = {}
        while work:
            v = work.pop()
            for i in self.occ[v]:
                if i not in rels:
                    rels[i] = 1
                    for w in self.rel[i].vars:
                        if w not in seen:
                            seen.add(w)
                            work.append(w)
        ts = [self.rel[i] for i in sorted(rels)]
        if not override:
            ts.append(t)
        doms = {v: self.dom[v] for v in seen}
        doms.update(override)
        # equalities between plain variables: propagate domains (implied facts)
        changed = True
        while changed:
            changed = False
            for r in ts:
                if r.op == '=' and r.a[0].op == 'v' and r.a[1].op == 'v':
                    x, y = r.a
                    d = doms[x] & doms[y]
                    if d is not doms[x] or d is not doms[y]:
                        doms[x] = doms[y] = d
                        changed = True
                        if d is EMPTY:
                            st.dom_unsat += 1
                            return None
        r = SOLVER.check(list(doms.items()), ts)
        if r is None:
            return None
        if r == 'unknown':
            self.inconclusive += 1
            self.notes.add('solver unknown')
            return None
        e = dict(self.env)
        e.update(r)
        return e

    # ---- branching
    def branch(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        k = self.known.get(t)
        if k is not None:
            return k
        n = not_(t)
        pos = self.pos
        if pos < len(self.prefix):
            if len(self.prefix[pos]) != 2 or self.prefix[pos][0] != t.h:
                raise Diverged('another question when a path is followed again: %s' % tstr(t)[:200])
            h, d = self.prefix[pos]
            self.pos = pos + 1
            self.decisions.append((h, d))
            self.cert.append(('a', t if d else n))
            self._add(t if d else n)
            self.known[t] = d
            self.known[n] = not d
            return d
        self.stats.decisions += 1
        if len(self.decisions) >= self.max_decisions:
            raise Truncated('decision limit')
        val = ev(t, self.env)
        e = None if self.solo else self._feasible(n if val else t)
        if e is not None:
            self.pending.append((tuple(self.decisions) + ((t.h, not val),), {v.a: x for v, x in e.items()}))
        else:
            self.stats.model_true += 1
        self.pos = pos + 1
        self.decisions.append((t.h, val))
        self.cert.append(('f' if e is None else 'a', t if val else n))
        self._add(t if val else n)
        self.known[t] = val
        self.known[n] = not val
        return val

    def assume(self, t):
        """restrict to t; like a branch whose false side is not explored"""
        if t is TRUE:
            return
        if t is FALSE:
            raise PathKilled('assume')
        k = self.known.get(t)
        if k is True:
            return
        if k is False:
            raise PathKilled('assume')
        if ev(t, self.env):
            self._add(t)
        else:
            e = self._feasible(t)
            if e is None:
                self.cert.append(('x', t))
                raise PathKilled('assume')
            self.env = e
            self._add(t)
        self.cert.append(('a', t))
        self.known[t] = True
        self.known[not_(t)] = False

    def choose(self, t, limit):
        """concretise integer term t by forking over its values"""
        if t.op == 'c':
            return t.a
        for _ in range(limit):
            kind = 'a'
            if self.pos < len(self.prefix):
                if len(self.prefix[self.pos]) != 3 or self.prefix[self.pos][0] != t.h:
                    raise Diverged('another question when a path is followed again: value of %s' % tstr(t)[:200])
                h, v, d = self.prefix[self.pos]
                b = tm.eq(t, tm.const(v))
            else:
                if len(self.decisions) >= self.max_decisions:
                    raise Truncated('decision limit')
                v, d = ev(t, self.env), True
                b = tm.eq(t, tm.const(v))
                if b is not TRUE and b not in self.known:
                    self.stats.decisions += 1
                    e = None if self.solo else self._feasible(not_(b))
                    if e is not None:
                        self.pending.append((tuple(self.decisions) + ((t.h, v, False),), {x.a: y for x, y in e.items()}))
                    else:
                        kind = 'f'
            self.pos += 1
            self.decisions.append((t.h, v, d))
            if b is not TRUE and b not in self.known:
                n = not_(b)
                self.cert.append((kind, b if d else n))
                self._add(b if d else n)
                self.known[b] = d
                self.known[n] = not d
            if d:
                return v
        raise Truncated('too many values for %s' % tstr(t)[:80])

    def check(self, t, msg):
        self.asserts += 1
        if t is TRUE:
            self.asserts_const += 1
            return
        if t is FALSE:
            raise Violation(msg, {v.a: x for v, x in self.env.items()})
        self.asserts_solver += 1
        if not ev(t, self.env):
            raise Violation(msg, {v.a: x for v, x in self.env.items()})
        e = self._feasible(not_(t))
        if e is not None:
            raise Violation(msg, {v.a: x for v, x in e.items()})
        self.cert.append(('c', t))


CUR = None      # current Path


def cur():
    return CUR


def set_cur(p):
    global CUR
    CUR = p
