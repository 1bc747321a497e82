"""C07: concurrent query sessions on shared objects."""
import numpy as np

import model
from engine import Check, Violation
from checks.common import *


class C07(Check):
    id = 'C07'
    rule = ('A case is 2-4 client threads issuing 2-6 queries each on 1-3 shared K-correction objects '
            '(random class, bands, mapping, template, grid, cosmology) under a seeded line- or '
            'instruction-level schedule; non-trivial when at least one pre-emption landed inside a '
            'query. Distinct = distinct pre-emption sequences (task, line, next).')
    probes = ('array_call', 'scalar_call', 'one_element_array', 'single_band_object',
              'shared_catalogue', 'output_bands_differ', 'band_without_solar_magnitude')
    assumptions = ('numpy/scipy calls made from one source line are atomic with respect to other client '
                   'threads (they hold or release the interpreter lock without running kcorrect code)',)

    def gen(self, rng, i, tier):
        nk = rng.randint(1, 3)
        specs = [gen_spec(rng, real=0.03) for _ in range(nk)]
        if nk > 1 and rng.random() < 0.35:
            # same bands, another template/grid: results must not bleed between objects
            specs[1] = dict(specs[0], tmpl=pick(rng, [t for t in fx.SMALL if t != specs[0]['tmpl']]),
                            cosmo='H70')
            if specs[0]['tmpl'] == 'far2':
                specs[1]['tmpl'] = 'far2'
        nt = rng.randint(2, 4)
        ops = []
        for t in range(nt):
            for _ in range(rng.randint(2, 6)):
                q = gen_query(rng, nk)
                q['t'] = t
                ops.append(q)
        if rng.random() < 0.3:
            # repeat one query in all tasks with other arguments: same entry point, same moment
            q0 = dict(ops[0])
            for t in range(nt):
                q = dict(q0, t=t, seed=rng.randrange(10**6))
                ops.append(q)
        return dict(specs=specs, ops=ops, cats=rng.randrange(10**6),
                    sched=dict(seed=rng.randrange(2**31), p=pick(rng, [0.01, 0.05, 0.2, 0.6]),
                               instr=rng.random() < 0.12))

    def valid(self, scn):
        return bool(scn['ops'])

    def shrinks(self, scn):
        for i, q in enumerate(scn['ops']):
            for k, v in (('cat', None), ('form', 'f4'), ('bs', 0.), ('dist', None)):
                if q.get(k):
                    if q[k] == v:
                        continue
                    s = dict(scn, ops=[dict(x) for x in scn['ops']])
                    if v is None:
                        s['ops'][i].pop(k)
                    else:
                        s['ops'][i][k] = v
                    yield s

    def run(self, c, scn):
        node = c.boot()
        Ms, ks, cats = [], [], []
        for i, s in enumerate(scn['specs']):
            if not any(q['kc'] == i for q in scn['ops']):
                Ms.append(None), ks.append(None), cats.append(None)
                continue
            M = model.kmodel(s)
            k = c.must(lambda: build(c, node, s), 'build')
            e = config_error(k, M) or table_error(k, M)
            if e:
                c.fail('wrong-answer', 'new object: ' + e)
            Ms.append(M)
            ks.append(k)
            cats.append(Catalogue(M, scn['cats'] + i))
            if M.out != M.resp:
                c.stats['probe:output_bands_differ'] += 1
            if len(M.resp) == 1:
                c.stats['probe:single_band_object'] += 1
            if any(o in fx.SUNLESS for o in M.out):
                c.stats['probe:band_without_solar_magnitude'] += 1
        tasks = sorted({q['t'] for q in scn['ops']})
        found = []

        def client(t):
            def body():
                for j, q in enumerate(scn['ops']):
                    if q['t'] != t:
                        continue
                    c.sim.note('invoke', t, j, q['o'])
                    c.stats['probe:' + ('scalar_call' if q['n'] is None else
                                        'one_element_array' if q['n'] == 1 else 'array_call')] += 1
                    if q.get('cat'):
                        c.stats['probe:shared_catalogue'] += 1
                    i = q['kc']
                    try:
                        e = run_query(c, node, ks[i], Ms[i], q, cats[i])
                    except CodeRaised as x:
                        e = 'raised %s' % x
                        kind = 'unexpected-error'
                    else:
                        kind = 'wrong-answer'
                    c.sim.note('return', t, j, bool(e))
                    if e:
                        found.append((kind, 'task %d, %s on object %d (%s): %s'
                                      % (t, q['o'], i, scn['specs'][i]['cls'], e)))
                        return
            return body
        done = c.sim.run_tasks([client(t) for t in tasks])
        for t in done:
            if t.exc is not None:
                raise t.exc
        if found:
            raise Violation(*found[0])
        for cat in cats:
            e = cat.check() if cat is not None else None
            if e:
                c.fail('caller-data-modified', e)
        # the objects are as they were
        for i, k in enumerate(ks):
            if k is None:
                continue
            e = config_error(k, Ms[i]) or table_error(k, Ms[i])
            if e:
                c.fail('object-changed', 'after the sessions: ' + e)

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['preemptions'] > 0


CHECK = C07()
