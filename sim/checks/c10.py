"""C10: solver non-convergence."""
import hashlib
import random

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs


class Plan:
    """Which least-squares problems need how many iterations.

    A problem is identified by its matrix and data, so the decision does not
    depend on who solves it when; problems are also numbered in the order they
    first appear, to aim at a particular one."""

    def __init__(self, c, seed, p, pbad, nth=None, nth_bad=False):
        self.c, self.seed, self.p, self.pbad = c, seed, p, pbad
        self.nth, self.nth_bad = nth, nth_bad
        self.seen = {}
        self.calls = 0
        self.per = {}
        self.retried = 0
        self.bad = 0

    def need(self, A, b):
        k = hashlib.sha256(np.ascontiguousarray(A).tobytes() + np.ascontiguousarray(b).tobytes()
                           + str(self.seed).encode()).hexdigest()
        if k not in self.seen:
            i = len(self.seen)
            r = random.Random(k)
            n = A.shape[1]
            if self.nth is not None:
                hit, bad = i == self.nth, self.nth_bad
            else:
                u = r.random()
                hit, bad = u < self.p + self.pbad, u < self.pbad
            if not hit:
                self.seen[k] = 0
            elif bad:
                self.seen[k] = None
            else:
                self.seen[k] = int(3 * n + 1 + r.random() * 40 * n)
        return k, self.seen[k]

    def __call__(self, i, A, b, maxiter):
        self.calls += 1
        k, need = self.need(A, b)
        self.per[k] = self.per.get(k, 0) + 1
        limit = 3 * A.shape[1] if maxiter in (None, -1) else maxiter
        if need is None or need > limit:
            self.c.stats['fault:solver_not_converged'] += 1
            self.c.sim.note('nnls', len(self.seen), limit)
            if need is None:
                self.bad += 1
            else:
                self.retried += 1
            return RuntimeError('Maximum number of iterations reached.')
        return None


class C10(Check):
    id = 'C10'
    rule = ('A case is a sequence of 1-4 fits (batches, one-element, scalar; plain, Monte Carlo, asinh) on '
            'one K-correction object, in which chosen least-squares problems need more iterations than the '
            'solver\'s default limit, or more than any limit, inline or from two interleaved client threads. '
            'Compared with an untroubled run under the same random seed. Non-trivial when a solver call was '
            'made to fail. Distinct = distinct event logs.')
    probes = ('retry_succeeded', 'retry_failed', 'monte_carlo', 'batch', 'scalar', 'asinh', 'one_element',
              'repeated_after_failure', 'queries_after_failure', 'threads', 'other_thread_unharmed',
              'all_problems_hit')
    assumptions = ('the solver reports non-convergence with RuntimeError, as scipy.optimize.nnls does; its '
                   'default limit is three times the number of columns',)

    def gen(self, rng, i, tier):
        th = objs.gen_thing(rng, [('kc', 1)], small=True)['spec']
        if th['cls'] == 'KcorrectGST':
            th['nz'] = 2
        ops = []
        for _ in range(rng.randint(1, 4)):
            n = None if rng.random() < 0.25 else (1 if rng.random() < 0.25 else rng.randint(2, 9))
            mc = rng.randint(1, 4) if rng.random() < 0.45 else 0
            q = dict(n=n, mc=mc, seed=rng.randrange(10**6), asinh=rng.random() < 0.3 and mc == 0)
            u = rng.random()
            if u < 0.45:
                tot = (n or 1) * (1 + mc)
                q.update(nth=rng.randrange(tot), bad=rng.random() < 0.4)
            elif u < 0.6:
                q.update(p=1., pbad=0.)
            elif u < 0.9:
                q.update(p=pick(rng, [0.15, 0.5]), pbad=pick(rng, [0., 0.03, 0.3]))
            ops.append(q)
        scn = dict(spec=th, ops=ops)
        if rng.random() < 0.25:
            scn['threads'] = True
            scn['sched'] = dict(seed=rng.randrange(10**9), p=pick(rng, [0.03, 0.1, 0.3]))
        return scn

    def valid(self, scn):
        return bool(scn['ops'])

    def args(self, M, q):
        rs = np.random.RandomState(q['seed'])
        nn = 1 if q['n'] is None else q['n']
        z, m, iv = M.photometry(rs, nn, bad=0.3, outside=0.08)
        mag = np.float32(rs.uniform(17., 22., size=(nn, 5)))
        err = np.float32(rs.uniform(0.01, 0.2, size=(nn, 5)))
        return z, m, iv, mag, err

    def fit(self, k, M, q):
        z, m, iv, mag, err = self.args(M, q)
        if q['n'] is None:
            z, m, iv, mag, err = z[0], m[0], iv[0], mag[0], err[0]
        if q['asinh'] and M.cls == 'KcorrectSDSS':
            return k.fit_coeffs_asinh(redshift=z, mag=mag, mag_err=err)
        return k.fit_coeffs(redshift=z, maggies=m, ivar=iv, mc=q['mc'])

    def plan(self, c, q):
        if 'nth' in q:
            return Plan(c, q['seed'], 0., 0., q['nth'], q['bad'])
        if 'p' in q:
            return Plan(c, q['seed'], q['p'], q['pbad'])
        return None

    def same(self, a, b):
        a = a if isinstance(a, tuple) else (a,)
        b = b if isinstance(b, tuple) else (b,)
        if len(a) != len(b):
            return 'returned %d results, untroubled %d' % (len(a), len(b))
        for x, y in zip(a, b):
            x, y = np.asarray(x, 'f8'), np.asarray(y, 'f8')
            if x.shape != y.shape:
                return 'shape %r, untroubled %r' % (x.shape, y.shape)
            sc = np.abs(y).max() if y.size else 0.
            if not np.all(np.abs(x - y) <= 1e-6 * sc):
                return 'result differs from the untroubled one'
        return None

    def run(self, c, scn):
        node = c.boot()
        M = model.kmodel(scn['spec'])
        k = c.must(lambda: build(c, node, scn['spec']), 'build')
        S = c.seams.S
        ref = []
        for q in scn['ops']:
            np.random.seed(q['seed'])
            ref.append(c.must(lambda: self.fit(k, M, q), 'untroubled fit'))
        if scn.get('threads'):
            return self.threads(c, scn, node, k, M, ref)
        for j, q in enumerate(scn['ops']):
            what = 'call %d: ' % j
            pl = self.plan(c, q)
            nn = q['n'] or 1
            c.stats['probe:' + ('scalar' if q['n'] is None else 'one_element' if nn == 1 else 'batch')] += 1
            if q['mc']:
                c.stats['probe:monte_carlo'] += 1
            if q['asinh'] and M.cls == 'KcorrectSDSS':
                c.stats['probe:asinh'] += 1
            np.random.seed(q['seed'])
            S.nnls_plan = pl
            r = c.op(lambda: self.fit(k, M, q), 'fit')
            S.nnls_plan = None
            e = self.judge(c, what, q, pl, r, ref[j], nn)
            if e:
                c.fail(*e)
            if pl and pl.bad:
                self.after(c, node, k, M, scn, j, q, ref[j], what)
        for x in range(2):
            e = objs.kc_error(c, node, k, M, 'at the end: ', 2, seed='%s-%d' % (scn.get('seed'), x))
            if e:
                c.fail('object-damaged', e)

    def judge(self, c, what, q, pl, r, ref, nn):
        if pl is not None:
            lim = 6 * nn * (1 + q['mc']) + 12
            if pl.calls > lim:
                return ('unbounded-retries', '%s%d solver calls for %d fits' % (what, pl.calls, nn * (1 + q['mc'])))
        if pl is not None and pl.bad:
            if r.ok:
                return ('failure-not-reported', what + 'the solver never converged on some object, but the '
                        'call returned a result')
            if not isinstance(r.exc, Exception):
                return ('failure-not-reported', what + r.describe())
            c.stats['probe:retry_failed'] += 1
            return None
        if not r.ok:
            return ('not-retried', '%ssolver needed more iterations than its default: %s' % (what, r.describe()))
        if pl is not None and pl.retried:
            c.stats['probe:retry_succeeded'] += 1
            if pl.p == 1.:
                c.stats['probe:all_problems_hit'] += 1
        e = self.same(r.value, ref)
        if e:
            return ('retry-differs', what + e)
        return None

    def after(self, c, node, k, M, scn, j, q, ref, what):
        e = objs.kc_error(c, node, k, M, what + 'after the failure: ', 2, seed='%s-%d' % (scn.get('seed'), j))
        if e:
            c.fail('object-damaged', e)
        c.stats['probe:queries_after_failure'] += 1
        np.random.seed(q['seed'])
        r = c.op(lambda: self.fit(k, M, q), 'repeat')
        if not r.ok:
            c.fail('no-recovery', what + 'repeating the call ' + r.describe())
        e = self.same(r.value, ref)
        if e:
            c.fail('no-recovery', what + 'repeating the call: ' + e)
        c.stats['probe:repeated_after_failure'] += 1

    def threads(self, c, scn, node, k, M, ref):
        """The problems of the first client get into trouble, those of the second do not."""
        S = c.seams.S
        ops = [dict(q, mc=0) for q in scn['ops']]
        ref = []
        for q in ops:
            ref.append(c.must(lambda: self.fit(k, M, q), 'untroubled fit'))
        while len(ops) < 2:
            q = dict(ops[0], seed=ops[0]['seed'] + 1)
            ops.append(q)
            ref.append(c.must(lambda: self.fit(k, M, q), 'untroubled fit'))
        plans = {}
        rs = [None] * len(ops)
        for j, q in enumerate(ops):
            if j % 2 == 0:
                plans[j] = self.plan(c, q)
        cur = [None, None]

        def seam(i, A, b, maxiter):
            t = c.sim.current.id
            pl = cur[t]
            return pl(i, A, b, maxiter) if pl is not None else None

        def client(t):
            def f():
                for j in range(t, len(ops), 2):
                    cur[t] = plans.get(j)
                    try:
                        rs[j] = (True, self.fit(k, M, ops[j]))
                    except Exception as x:
                        rs[j] = (False, x)
                    cur[t] = None
            return f
        S.nnls_plan = seam
        tasks = c.sim.run_tasks([client(0), client(1)])
        S.nnls_plan = None
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        c.stats['probe:threads'] += 1
        from engine import Outcome
        for j, q in enumerate(ops):
            r = Outcome()
            r.ok, v = rs[j]
            r.value, r.exc = (v, None) if r.ok else (None, v)
            e = self.judge(c, 'client %d call %d: ' % (j % 2, j), q, plans.get(j), r, ref[j], q['n'] or 1)
            if e:
                c.fail(*e)
            if j % 2 and any(p is not None and (p.bad or p.retried) for p in plans.values()):
                c.stats['probe:other_thread_unharmed'] += 1
        for j, q in enumerate(ops):
            if plans.get(j) is not None and plans[j].bad:
                self.after(c, node, k, M, scn, j, q, ref[j], 'call %d: ' % j)

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['fault:solver_not_converged'] > 0


CHECK = C10()
