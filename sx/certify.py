"""Solver certificates: what the exploration decided for one path, decided again as a whole by another solver.

A path is a list of entries (kind, term) in the order they were met:
  'a'  the term holds on the path: an assumption, or a branch whose other side is (or was) explored as another path
  'f'  the term holds because its negation was found to be impossible after the entries before it
  'c'  an assertion, found to hold for all inputs of the path so far
  'x'  an assumption found to be impossible (the path ends here)
The query asks for an input that goes along the path up to some 'f', 'c' or 'x' entry and then contradicts it.  unsat for every path
means that the explored paths together cover all inputs within the bounds and that every assertion holds on all of them."""
import os
import select
import subprocess
import time

from . import terms as tm
from .terms import FULL, EMPTY, tstr

BIN = os.environ.get('SX_CERT_SOLVER', '/usr/local/bin/z3-new')
LIMIT = 400000


class Certifier(object):
    def __init__(self):
        self.p = None
        self.n = self.skipped = self.unknown = self.goals = 0
        self.time = 0.0
        self.failed = []

    def start(self):
        self.p = subprocess.Popen([BIN, '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.sets = {}
        self.funs = {}
        self._send('(set-option :print-success false)(set-option :timeout 4000)')

    def _send(self, s):
        b = s.encode() + b'\n'
        while b:
            n = self.p.stdin.write(b)
            b = b[n:]

    def _ask(self, s):
        self._send(s + '(echo "!E")')
        out = b''
        fd = self.p.stdout
        while not out.endswith(b'!E\n'):
            r, _, _ = select.select([fd], [], [], 20.0)
            d = fd.read(65536) if r else b''
            if not d:
                self.close()
                return 'unknown'
            out += d
        return out[:-3].decode()

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def __call__(self, s):
        n = self.sets.get(s.id)
        if n is None:
            n = self.sets[s.id] = 'S%d' % s.id
            self._defs.append('(define-fun %s ((x Int)) Bool %s)' % (n, tm.set_tree(s)))
        return n

    def fun(self, name):
        n = self.funs.get(name)
        if n is None:
            n = self.funs[name] = 'f%d' % len(self.funs)
            f, dom = tm.FUNS[name]
            self._defs.append('(define-fun %s ((x Int)) Int %s)' % (n, tm.fun_tree(f, dom)))
        return n

    def path(self, vars_, entries):
        """vars_: list of (variable, domain as declared) -> 'none' (nothing to certify), 'ok', 'skipped', 'unknown' or 'failed'"""
        last = 0
        for i, (k, t) in enumerate(entries):
            if k != 'a':
                last = i + 1
        if not last:
            return 'none'
        t0 = time.time()
        try:
            return self._path(vars_, entries[:last])
        finally:
            self.time += time.time() - t0

    def _path(self, vars_, entries):
        if self.p is None:
            self.start()
        self._defs = []
        names = {}
        doms = dict(vars_)
        used = []
        memo = {}
        body = []
        self._body = body

        def pr(t):
            # shared parts are printed once; sets are cut down to what the variable can be at all
            r = memo.get(t)
            if r is not None:
                return r
            op = t.op
            if op == 'c' or op == 'b':
                return tstr(t)
            if op == 'v':
                used.append(t)
                r = names[t] = 'x%d' % len(names)
            elif op == 'in':
                x = t.a[0]
                p = pr(x)
                s = t.a[1]
                if x.op == 'v':
                    d = doms.get(x, FULL)
                    i = s & d
                    if i is EMPTY:
                        r = 'false'
                    elif i is d:
                        r = 'true'
                    else:
                        c = s.neg() & d
                        if len(c.r) < len(i.r):
                            r = '(not %s)' % tm.set_smt(c, p, self)
                        else:
                            r = tm.set_smt(i, p, self)
                else:
                    r = tm.set_smt(s, p, self)
            elif op == 'fn':
                r = '(%s %s)' % (self.fun(t.a[0]), pr(t.a[1]))
            else:
                r = '(%s %s)' % (op, ' '.join([pr(x) for x in t.a]))
            if len(r) > 40:
                n = 'd%d' % len(memo)
                body.append('(define-fun %s () %s %s)' % (n, 'Bool' if t.isbool else 'Int', r))
                r = n
            memo[t] = r
            return r
        goals = []
        size = 0
        g = None
        k = 0
        first = True
        for kind, t in entries:
            if kind != 'a' and first:
                first = False
            n0 = len(body)
            s = pr(t)
            size += len(s) + sum(map(len, body[n0:]))
            if size > LIMIT:
                self.skipped += 1
                if self._defs:
                    self._send(''.join(self._defs))
                return 'skipped'
            if first:
                body.append('(assert %s)' % s)
                continue
            if kind in 'fc':
                goals.append('(not %s)' % s if g is None else '(and %s (not %s))' % (g, s))
                if kind == 'c':
                    continue
            elif kind == 'x':
                goals.append(s if g is None else '(and %s %s)' % (g, s))
                continue
            k += 1
            body.append('(define-fun g%d () Bool %s)' % (k, s if g is None else '(and %s %s)' % (g, s)))
            g = 'g%d' % k
        decl = []
        for v in used:
            decl.append('(declare-const %s Int)' % names[v])
            d = doms.get(v, FULL)
            if d is not FULL:
                decl.append('(assert %s)' % tm.set_smt(d, names[v], self))
        q = '(push)%s%s(assert (or false %s))(check-sat)(pop)' % (''.join(decl), ''.join(body), ' '.join(goals))
        out = self._ask(''.join(self._defs) + q)
        if '(error' in out:
            raise RuntimeError('solver error: %s on %s' % (out[:500], q[:1500]))
        st = out.strip().split('\n')[-1] if out.strip() else ''
        self.goals += len(goals)
        if st == 'unsat':
            self.n += 1
            return 'ok'
        if st == 'sat':
            if len(self.failed) < 3:
                self.failed.append(q[:4000])
            return 'failed'
        self.unknown += 1
        return 'unknown'
