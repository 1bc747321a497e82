"""C01: save / restore of K-correction objects over histories, generations,
processes."""
import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs


class C01(Check):
    id = 'C01'
    rule = ('A case is a history of 5-16 operations (build, query, redshift the templates, save over new or '
            'existing files, restore into a new object or onto another one, kill and restart the '
            'process, second process on the same disk) with short reads/writes injected; non-trivial '
            'when at least one object was restored and compared. Distinct = distinct event logs '
            '(operations, system calls, faults).')
    probes = ('restored_new', 'restored_onto', 'restored_after_restart', 'restored_in_other_process',
              'second_generation', 'third_generation', 'output_bands_differ', 'map_not_identity',
              'fractional_range', 'negative_range', 'save_over_other_layout', 'image_layout',
              'single_band', 'single_template')
    assumptions = ('responses are stored by name only: the installed response files are the same when '
                   'saving and when restoring',)

    def gen(self, rng, i, tier):
        n = rng.randint(5, 16 if tier == 'quick' else 24)
        specs = [objs.gen_thing(rng, [('kc', 1)])['spec'] for _ in range(rng.randint(1, 3))]
        if len(specs) > 1 and rng.random() < 0.4:
            # nearly equal setups: a restore that keeps something of the old one shows
            specs[1] = dict(specs[0], zr=pick(rng, [[0., 0.41], [-0.07, 0.77], [-0.03, 0.63]]),
                            ab=not specs[0]['ab'])
            if specs[0]['cls'] != 'KcorrectGST':
                specs[1]['out'] = sample(rng, fx.OPTICAL, 2)
                specs[1]['map'] = [pick(rng, specs[0]['resp']) for _ in range(2)]
        ops = [dict(o='build', p=0, s=0, f=0, spec=0), dict(o='save', p=0, s=0, f=0)]
        for _ in range(n):
            o = weighted(rng, [('build', 2), ('save', 4), ('restore', 6), ('onto', 4), ('query', 4),
                               ('shift', 1), ('restart', 1.5)])
            q = dict(o=o, p=weighted(rng, [(0, 3), (1, 1)]), s=rng.randrange(3), f=rng.randrange(3))
            if o == 'build':
                q['spec'] = rng.randrange(len(specs))
            elif o == 'query':
                q['q'] = gen_query(rng, 1, objs.KCQ)
            elif o == 'shift':
                q['z'] = pick(rng, [0.3, -0.05, 1.1])
            if rng.random() < 0.25:
                q['short'] = pick(rng, [0.02, 0.2, 0.7])
            ops.append(q)
        if rng.random() < 0.35:
            # a chain of generations through several files
            f, s = 0, 0
            for _ in range(rng.randint(2, 4)):
                p = rng.randrange(2)
                ops.append(dict(o=pick(rng, ['restore', 'restore', 'onto']) if p == 0 else 'restore',
                                p=p, s=s, f=f))
                if rng.random() < 0.3:
                    ops.append(dict(o='shift', p=p, s=s, f=f, z=pick(rng, [0.3, 0.7])))
                f = (f + 1) % 3
                ops.append(dict(o='save', p=p, s=s, f=f))
            ops.append(dict(o='restore', p=0, s=1, f=f))
        return dict(specs=specs, ops=ops)

    def valid(self, scn):
        return bool(scn['ops'])

    def run(self, c, scn):
        nodes = [c.boot('p0'), None]
        slots = [{}, {}]              # per process: slot -> [obj, spec, z, generation]
        files = {}                    # f -> (spec, generation, writer process epoch, record)
        epoch = [0, 0]
        for j, q in enumerate(scn['ops']):
            p = q['p']
            if nodes[p] is None:
                nodes[p] = c.boot('p%d' % p)
            node = nodes[p]
            node.activate()
            o, s, f = q['o'], q['s'], q['f']
            path = c.path('k%d.fits' % f)
            c.disk.short = q.get('short', 0.)
            what = 'step %d (%s): ' % (j, o)
            if o == 'restart':
                c.stats['fault:process_kill'] += 1
                nodes[p] = c.boot('p%d' % p)
                slots[p] = {}
                epoch[p] += 1
                continue
            if o == 'build':
                spec = scn['specs'][q['spec']] if q['spec'] < len(scn['specs']) else scn['specs'][0]
                slots[p][s] = [c.must(lambda: build(c, node, spec), what), spec, 0.0, 0]
                M = model.kmodel(spec)
                for cond, nm in ((M.out != M.resp, 'output_bands_differ'),
                                 (M.imap != list(range(len(M.resp))), 'map_not_identity'),
                                 (spec['zr'][1] % 0.5 != 0, 'fractional_range'),
                                 (spec['zr'][0] < 0, 'negative_range'),
                                 (M.t.layout == 'image', 'image_layout'),
                                 (len(M.resp) == 1, 'single_band'), (M.nsed == 1, 'single_template')):
                    if cond:
                        c.stats['probe:' + nm] += 1
                self.check(c, node, slots[p][s], what, j)
                continue
            if o == 'save':
                if s not in slots[p]:
                    continue
                k, spec, z, g = slots[p][s]
                if f in files and fx.tdata(files[f][0]['tmpl']).layout != fx.tdata(spec['tmpl']).layout:
                    c.stats['probe:save_over_other_layout'] += 1
                th = dict(k='kc', spec=spec)
                a = objs.fingerprint(th, k)
                c.must(lambda: k.tofits(filename=path), what)
                d = objs.differs(a, objs.fingerprint(th, k))
                if d:
                    c.fail('save-changed-object', what + 'saving changed %s' % d)
                files[f] = (spec, g, (p, epoch[p]), objs.record(th, k))
                continue
            if o in ('restore', 'onto'):
                if f not in files:
                    continue
                spec, g, wr, rec = files[f]
                if o == 'onto':
                    if s not in slots[p]:
                        continue
                    k, old, z, _ = slots[p][s]
                    # the restored object keeps class and cosmology of the one it is restored onto
                    if old['cls'] != spec['cls'] and (spec['ab'] or old['cls'] == 'KcorrectSDSS'):
                        continue
                    spec = dict(spec, cls=old['cls'], cosmo=old.get('cosmo'))
                    c.must(lambda: k.fromfits(filename=path), what)
                    c.stats['probe:restored_onto'] += 1
                else:
                    th = dict(k='kc', spec=spec)
                    k = c.must(lambda: objs.load(c, node, th, path), what)
                    c.stats['probe:restored_new'] += 1
                slots[p][s] = [k, spec, 0.0, g + 1]
                if wr[0] != p:
                    c.stats['probe:restored_in_other_process'] += 1
                elif wr[1] != epoch[p]:
                    c.stats['probe:restored_after_restart'] += 1
                if g == 1:
                    c.stats['probe:second_generation'] += 1
                elif g > 1:
                    c.stats['probe:third_generation'] += 1
                e = objs.record_error(dict(k='kc'), rec, k)
                if e:
                    c.fail('restored-differs', what + e)
                self.check(c, node, slots[p][s], what, j, 2)
                continue
            if s not in slots[p]:
                continue
            k, spec, z, g = slots[p][s]
            if o == 'shift':
                c.must(lambda: k.templates.set_redshift(redshift=q['z']), what)
                slots[p][s][2] = q['z']
            else:
                qq = dict(q['q'])
                qq.pop('cat', None)
                M = model.kmodel(spec)
                e = self.query(c, node, k, M, qq)
                if e and g and self.original(c, node, spec,
                                             lambda x: self.query(c, node, x, M, qq)):
                    c.fail('restored-differs', what + qq['o'] + ': ' + e)
        c.disk.short = 0.
        for p in (0, 1):
            if nodes[p] is None:
                continue
            nodes[p].activate()
            for s in sorted(slots[p]):
                self.check(c, nodes[p], slots[p][s], 'at the end, object %d of process %d: ' % (s, p), s, 0)

    def check(self, c, node, slot, what, seed, queries=1):
        k, spec, z, g = slot
        if g == 0:
            return             # never saved and restored
        seed = '%s-%s' % (c.scn.get('seed'), seed)
        e = objs.kc_error(c, node, k, model.kmodel(spec), what, queries, seed, z)
        if e and self.original(c, node, spec, lambda o: objs.kc_error(
                c, node, o, model.kmodel(spec), what, queries, seed)):
            c.fail('restored-differs', e)

    def original(self, c, node, spec, compare):
        """A newly built object passes the same comparison (if not, the
        restored one merely does what the original does)."""
        c.disk.short = 0.
        o = c.op(lambda: build(c, node, spec), 'original')
        return o.ok and compare(o.value) is None

    def query(self, c, node, k, M, q):
        try:
            return run_query(c, node, k, M, q)
        except CodeRaised as x:
            return 'raised %s' % x

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['probe:restored_new'] + ctx.sim.stats['probe:restored_onto'] > 0


CHECK = C01()
