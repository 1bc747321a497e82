"""C09: Monte Carlo draws."""
import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs

PLAIN = ('fit', 'kcorrect', 'absmag', 'derived', 'reconstruct', 'absmag_mc', 'derived_mc', 'save',
         'restore', 'build', 'asinh')


class C09(Check):
    id = 'C09'
    rule = ('A case is a seeded history of Monte Carlo fits (scalar, one-element, longer; missing bands, '
            'out-of-range objects) mixed with other calls on one or two K-correction objects, run as is, '
            'again in a fresh process with other calls in between and built or restored objects, and '
            'again split object by object, with solver retries, interrupted calls and process restarts, or '
            'from two interleaved client threads; all draws are compared exactly between the runs and '
            'with the definition. Non-trivial when at least one object was perturbed. Distinct = '
            'distinct event logs.')
    probes = ('mc_scalar', 'mc_one_element', 'mc_longer', 'missing_band', 'object_without_data',
              'out_of_range', 'replayed_exactly', 'replayed_on_restored', 'replayed_split',
              'state_untouched', 'solver_retry', 'interrupted_then_reseeded', 'two_threads',
              'large_sample', 'evaluated_draws')
    assumptions = ('the distribution is judged by mean, variance, kurtosis and coincidence tests at '
                   'more than six standard deviations',)

    def gen(self, rng, i, tier):
        threads = rng.random() < 0.25
        ops = []
        specs = [objs.gen_thing(rng, [('kc', 1)], small=rng.random() < 0.5)['spec']
                 for _ in range(rng.randint(1, 2))]
        for s in specs:
            if s['cls'] == 'KcorrectGST':
                s['nz'] = 2
        for j in range(rng.randint(1, 3 if threads else 5)):
            ops.append(self.mcop(rng, len(specs)))
            if rng.random() < 0.5 and not threads:
                ops.append(dict(o=pick(rng, PLAIN), kc=rng.randrange(len(specs)), seed=rng.randrange(10**6)))
            if rng.random() < 0.25 and not threads:
                ops.append(dict(o='seed', seed=rng.randrange(10**6)))
        extra = [dict(o=pick(rng, PLAIN), kc=rng.randrange(len(specs)), seed=rng.randrange(10**6))
                 for _ in range(rng.randint(0, 3))]
        scn = dict(specs=specs, ops=ops, seed0=rng.randrange(10**6), extra=extra,
                   restored=rng.random() < 0.5, retry=pick(rng, [0., 0., 0.3, 1.]),
                   interrupt=rng.random() if rng.random() < 0.4 else None,
                   how=pick(rng, ['kbd', 'solver']))
        if threads:
            scn['threads'] = True
            scn['sched'] = dict(seed=rng.randrange(10**9), p=pick(rng, [0.02, 0.1, 0.3]))
        return scn

    def mcop(self, rng, nk):
        n = None if rng.random() < 0.35 else (1 if rng.random() < 0.3 else rng.randint(2, 6))
        mc = rng.randint(1, 5) if rng.random() < 0.9 else 60
        if mc == 60 and n in (None, 1) and rng.random() < 0.5:
            mc = 400
        return dict(o='mc', kc=rng.randrange(nk), seed=rng.randrange(10**6), n=n, mc=mc)

    def valid(self, scn):
        return any(o['o'] == 'mc' for o in scn['ops'])

    # ------------------------------------------------------------------
    def data(self, M, q):
        rs = np.random.RandomState(q['seed'])
        nn = 1 if q['n'] is None else q['n']
        return M.photometry(rs, nn, bad=0.4, outside=0.1)

    def fit(self, k, q, z, m, iv, mc):
        if q['n'] is None:
            z, m, iv = z[0], m[0], iv[0]
        return k.fit_coeffs(redshift=z, maggies=m, ivar=iv, mc=mc)

    def plain(self, c, node, ks, Ms, q, tag):
        """A call without Monte Carlo: right answer, generator untouched."""
        s0 = np.random.get_state()
        k, M = ks[q['kc']], Ms[q['kc']]
        o = q['o']
        if o == 'save':
            c.must(lambda: k.tofits(filename=c.path('extra%d.fits' % q['seed'])), 'save')
        elif o == 'restore':
            p = c.path('extra%d.fits' % q['seed'])
            c.must(lambda: k.tofits(filename=p), 'save')
            th = dict(k='kc', spec=M.spec)
            c.must(lambda: objs.load(c, node, th, p), 'restore')
        elif o == 'build':
            c.must(lambda: build(c, node, M.spec), 'build')
        else:
            import random
            rng = random.Random(q['seed'])
            qq = gen_query(rng, 1, [(o, 1)])
            qq.pop('cat', None)
            e = self.query(c, node, k, M, qq)
            if e:
                c.fail('wrong-answer', '%s%s: %s' % (tag, o, e))
        s1 = np.random.get_state()
        if not (s0[0] == s1[0] and np.array_equal(s0[1], s1[1]) and s0[2:] == s1[2:]):
            c.fail('generator-touched', tag + '%s without Monte Carlo changed the random generator' % o)
        c.stats['probe:state_untouched'] += 1

    def query(self, c, node, k, M, q):
        r = c.op(lambda: run_query(c, node, k, M, q), q['o'])
        if not r.ok:
            return r.describe()
        return r.value

    def history(self, c, node, ks, Ms, scn, tag, extra=(), split=False, retry=0., interrupt=None,
                how=None):
        """Run the history; list of Monte Carlo results."""
        import random
        S = c.seams.S
        rr = random.Random('retry-%s' % scn['seed0'])
        out = []
        extra = list(extra)
        if retry:
            def plan(i, A, b, maxiter):
                if maxiter is None and rr.random() < retry:
                    c.stats['fault:solver_not_converged'] += 1
                    return RuntimeError('simulated: NNLS quitting on iteration count.')
            S.nnls_plan = plan
        np.random.seed(scn['seed0'])
        if interrupt is not None:
            # a first call is interrupted or fails; then seeded again
            q = [o for o in scn['ops'] if o['o'] == 'mc'][0]
            z, m, iv = self.data(Ms[q['kc']], q)
            if how == 'kbd':
                r = c.op(lambda: self.fit(ks[q['kc']], q, z, m, iv, q['mc']), 'interrupted',
                         kbd_at=1 + int(interrupt * (30 + 8 * q['mc'] * len(z))))
            else:
                old = S.nnls_plan
                S.nnls_plan = lambda i, A, b, mi: RuntimeError('simulated')
                r = c.op(lambda: self.fit(ks[q['kc']], q, z, m, iv, q['mc']), 'failing')
                S.nnls_plan = old
            if not r.ok:
                c.stats['probe:interrupted_then_reseeded'] += 1
            np.random.seed(scn['seed0'])
        for q in scn['ops']:
            if extra and rr.random() < 0.6:
                self.plain(c, node, ks, Ms, extra.pop(0), tag)
            if q['o'] == 'seed':
                np.random.seed(q['seed'])
                continue
            if q['o'] != 'mc':
                if not split:
                    self.plain(c, node, ks, Ms, q, tag)
                continue
            k, M = ks[q['kc']], Ms[q['kc']]
            z, m, iv = self.data(M, q)
            n = q['n']
            if split and n is not None:
                rows = []
                for i in range(n):
                    one = rr.random() < 0.5
                    a = (z[i], m[i], iv[i]) if one else (z[i:i + 1], m[i:i + 1], iv[i:i + 1])
                    r = c.must(lambda: k.fit_coeffs(redshift=a[0], maggies=a[1], ivar=a[2], mc=q['mc']),
                               tag + 'Monte Carlo fit of one object')
                    rows.append([np.asarray(x) if one else np.asarray(x)[0] for x in r])
                r = tuple(np.array([w[j] for w in rows]) for j in range(3))
            else:
                r = c.must(lambda: self.fit(k, q, z.copy(), m.copy(), iv.copy(), q['mc']), tag + 'Monte Carlo fit')
                if not isinstance(r, tuple) or len(r) != 3:
                    c.fail('wrong-shape', tag + 'Monte Carlo fit did not return three results')
            out.append([np.array(x) for x in r])
        S.nnls_plan = None
        return out

    # ------------------------------------------------------------------
    def judge(self, c, Ms, scn, res, ks=None):
        pooled, vecs = [], []
        it = iter(res)
        for q in scn['ops']:
            if q['o'] != 'mc':
                continue
            r = next(it)
            M = Ms[q['kc']]
            n, mc = q['n'], q['mc']
            z, m, iv = self.data(M, q)
            lead = () if n is None else (n,)
            e = (objs.model.close(np.zeros(np.shape(r[0])), np.zeros(lead + (M.nsed,)), 0, 0, 'coefficients') or
                 objs.model.close(np.zeros(np.shape(r[1])), np.zeros(lead + (M.nsed, mc)), 0, 0, 'Monte Carlo coefficients') or
                 objs.model.close(np.zeros(np.shape(r[2])), np.zeros(lead + (len(M.resp), mc)), 0, 0, 'Monte Carlo fluxes'))
            if e:
                c.fail('wrong-shape', e)
            c.stats['probe:mc_' + ('scalar' if n is None else 'one_element' if n == 1 else 'longer')] += 1
            mab, ivab = M.inputs(m, iv)
            rows = [x[None] if n is None else x for x in r]
            e = check_mc(M, z, mab, ivab, rows)
            if e:
                c.fail('wrong-draw', e)
            if ks is not None:
                f = self.fit(ks[q['kc']], q, z, m, iv, 0)
                f = np.asarray(f)[None] if n is None else np.asarray(f)
                if f.shape != rows[0].shape or \
                        np.any(np.abs(f - rows[0]) > 1e-5 * np.abs(f).max(axis=-1, keepdims=True)):
                    c.fail('main-fit-differs', 'the main coefficients are not those of the fit without Monte Carlo')
            for i in range(len(z)):
                good = ivab[i] > 0
                if M.at(M.A, z[i]) is None:
                    c.stats['probe:out_of_range'] += 1
                    if np.any(rows[1][i] != 0) or np.any(rows[0][i] != 0):
                        c.fail('out-of-range', 'coefficients outside the redshift range')
                    continue
                if not good.any():
                    c.stats['probe:object_without_data'] += 1
                    continue
                if not good.all():
                    c.stats['probe:missing_band'] += 1
                s = (np.asarray(rows[2][i], 'f8') - np.asarray(mab[i], 'f8')[:, None])[good] \
                    * np.sqrt(np.asarray(ivab[i], 'f8')[good])[:, None]
                pooled.append(s.ravel())
                if np.any(np.asarray(rows[2][i])[good] == 0):
                    c.fail('not-unit-normal', 'object %d: a draw of a measured band is exactly zero' % i)
                if np.any((np.abs(s) < 2e-5).sum(1) >= 3):
                    c.fail('not-unit-normal', 'object %d: draws of a measured band are not perturbed' % i)
                if mc >= 60:
                    c.stats['probe:large_sample'] += 1
                    v = (s**2).mean(1)
                    if np.any(v < 0.2) or np.any(v > 3.):
                        c.fail('not-unit-normal', 'object %d: variance of the draws is %r of the measured one'
                               % (i, v))
                if s.shape[1] >= 3:
                    for a in range(s.shape[0]):
                        for b in range(a):
                            if np.abs(s[a] - s[b]).max() < 2e-4 or np.abs(s[a] + s[b]).max() < 2e-4:
                                c.fail('not-independent', 'two bands got the same perturbations')
                if s.shape[0] >= 3:
                    for j in range(s.shape[1]):
                        vecs.append(s[:3, j])
        if pooled:
            p = np.concatenate(pooled)
            N = len(p)
            if N >= 40:
                if abs(p.mean()) > 6.5 / np.sqrt(N):
                    c.fail('not-unit-normal', 'mean of %d draws is %.3g' % (N, p.mean()))
                v = (p**2).mean()
                if not 1. - 6. * np.sqrt(2. / N) < v < 1. + 9. * np.sqrt(2. / N) + 20. / N:
                    c.fail('not-unit-normal', 'variance of %d draws is %.3g' % (N, v))
            if N >= 600:
                ku = (p**4).mean() / v**2 - 3.
                if ku < -6. * np.sqrt(24. / N):
                    c.fail('not-unit-normal', 'draws are not normal (excess kurtosis %.3g)' % ku)
        if len(vecs) > 1:
            V = np.array(vecs)
            V = np.concatenate([V, -V])
            o = np.argsort(V[:, 0])
            V = V[o]
            for d in range(1, min(12, len(V))):
                if np.any(np.abs(V[d:] - V[:-d]).max(1) < 2e-4):
                    c.fail('not-independent', 'two draws got the same perturbations')
        return bool(pooled)

    def equal(self, a, b, exact):
        for x, y in zip(a, b):
            if x.shape != y.shape:
                return False
            if exact:
                if not np.array_equal(x, y):
                    return False
        return True

    def run(self, c, scn):
        node = c.boot()
        Ms = [model.kmodel(s) for s in scn['specs']]
        ks = [c.must(lambda: build(c, node, s), 'build') for s in scn['specs']]
        self.hit = False
        if scn.get('threads'):
            return self.threads(c, scn, node, ks, Ms)
        res = self.history(c, node, ks, Ms, scn, 'first run: ')
        self.hit = self.judge(c, Ms, scn, res, ks)
        # draw by draw evaluation of what the fits returned
        it = iter(res)
        for q in scn['ops']:
            if q['o'] == 'mc':
                r = next(it)
                self.evaluate(c, ks[q['kc']], Ms[q['kc']], q, r)
        # the same again elsewhere
        th = [dict(k='kc', spec=s) for s in scn['specs']]
        if scn['restored']:
            for j, k in enumerate(ks):
                c.must(lambda: k.tofits(filename=c.path('k%d.fits' % j)), 'save')
        c.stats['fault:process_kill'] += 1
        node2 = c.boot('p1')
        if scn['restored']:
            ks2 = [c.must(lambda: objs.load(c, node2, t, c.path('k%d.fits' % j)), 'restore')
                   for j, t in enumerate(th)]
        else:
            ks2 = [c.must(lambda: build(c, node2, s), 'build') for s in scn['specs']]
        again = self.history(c, node2, ks2, Ms, scn, 'second run: ', extra=scn['extra'],
                             retry=scn['retry'], interrupt=scn['interrupt'], how=scn['how'])
        if scn['retry']:
            c.stats['probe:solver_retry'] += 1
        for j, (a, b) in enumerate(zip(res, again)):
            if not np.array_equal(a[2], b[2]):
                c.fail('not-reproducible', 'Monte Carlo call %d: other fluxes with the same seed in a second process' % j)
            if not scn['restored'] and not (np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])):
                c.fail('not-reproducible', 'Monte Carlo call %d: other coefficients with the same seed in a second process' % j)
        c.stats['probe:replayed_' + ('on_restored' if scn['restored'] else 'exactly')] += 1
        self.judge(c, Ms, scn, again)
        sp = self.history(c, node2, ks2, Ms, scn, 'object by object: ', split=True)
        for j, (a, b) in enumerate(zip(res, sp)):
            if not np.allclose(a[2], b[2], rtol=1e-6, atol=0):
                c.fail('stream-not-continued', 'Monte Carlo call %d: other fluxes with the same seed when the '
                       'objects are passed one by one' % j)
        self.judge(c, Ms, scn, sp)
        c.stats['probe:replayed_split'] += 1

    def evaluate(self, c, k, M, q, r):
        """absmag_mc and derived_mc equal absmag and derived of each draw."""
        z, m, iv = self.data(M, q)
        ok = z > 0.004
        if M.at(M.A, np.float32(0.)) is None:
            return
        for i in range(len(z)):
            if M.at(M.A, z[i]) is None or z[i] < 0.004:
                return
        n, mc = q['n'], min(q['mc'], 5)
        zz, ivv = (z[0], iv[0]) if n is None else (z, iv)
        cm, mm = r[1][..., :mc].copy(), r[2][..., :mc].copy()
        import random
        rng = random.Random(q['seed'])
        kw = dict(redshift=zz, band_shift=pick(rng, [0., 0.1]))
        if rng.random() < 0.4:
            rs = np.random.RandomState(q['seed'])
            d = np.float32(rs.uniform(10., 3000., size=len(z)))
            kw['distance'] = d[0] if n is None else d
        rec, kk = rng.random() < 0.5, rng.random() < 0.5
        a = c.must(lambda: k.absmag_mc(maggies_mc=mm, ivar=ivv, coeffs_mc=cm, reconstruct=rec, kcorrect=kk, **kw),
                   'absmag_mc')
        d = c.must(lambda: k.derived_mc(coeffs_mc=cm, **kw), 'derived_mc')
        a = a if isinstance(a, tuple) else (a,)
        if len(a) != 1 + rec + kk:
            c.fail('wrong-shape', 'absmag_mc returned %d results' % len(a))
        for j in range(mc):
            b = c.must(lambda: k.absmag(maggies=mm[..., j], ivar=ivv, coeffs=cm[..., j], reconstruct=rec, kcorrect=kk,
                                        **kw), 'absmag of one draw')
            b = b if isinstance(b, tuple) else (b,)
            for nm, x, y in zip(['absmag'] + ['recon'] * rec + ['kcorrect'] * kk, a, b):
                e = model.close(np.asarray(x)[..., j], np.asarray(y, 'f8'), 1e-6, 1e-6, 'draw %d: %s' % (j, nm)) \
                    if np.all(np.isfinite(y)) else None
                if e:
                    c.fail('draw-by-draw', e)
            e2 = c.must(lambda: k.derived(coeffs=cm[..., j], **kw), 'derived of one draw')
            if set(e2) != set(d):
                c.fail('draw-by-draw', 'derived_mc has keys %r' % sorted(d))
            for nm in sorted(e2):
                y = np.asarray(e2[nm], 'f8')
                if not np.all(np.isfinite(y)):
                    continue
                e = model.close(np.asarray(d[nm])[..., j], y, 1e-6, 0, 'draw %d: %s' % (j, nm))
                if e:
                    c.fail('draw-by-draw', e)
        c.stats['probe:evaluated_draws'] += 1

    def threads(self, c, scn, node, ks, Ms):
        mcops = [q for q in scn['ops'] if q['o'] == 'mc']
        while len(mcops) < 2:
            mcops = mcops + [dict(mcops[0], seed=mcops[0]['seed'] + 1)]
        scn = dict(scn, ops=mcops)
        np.random.seed(scn['seed0'])
        res = [None] * len(mcops)

        def client(js):
            def f():
                for j in js:
                    q = mcops[j]
                    z, m, iv = self.data(Ms[q['kc']], q)
                    res[j] = [np.array(x) for x in self.fit(ks[q['kc']], q, z, m, iv, q['mc'])]
            return f
        tasks = c.sim.run_tasks([client(range(0, len(mcops), 2)), client(range(1, len(mcops), 2))])
        for t in tasks:
            if t.exc is not None:
                c.fail('unexpected-error', 'Monte Carlo fit beside another raised %r' % (t.exc,))
        c.stats['probe:two_threads'] += 1
        self.hit = self.judge(c, Ms, scn, res, ks)

    def nontrivial(self, ctx, scn):
        return self.hit


CHECK = C09()
