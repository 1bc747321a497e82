"""C11: redshifting is history-free and all-or-nothing."""
import copy

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs

ZS = [0., 0., 1e-6, 0.3, 0.05, 1.7, -0.1, -0.5, 5.5, 1e-4, 1089.]


class C11(Check):
    id = 'C11'
    rule = ('A case is a history of 5-20 operations on 1-3 spectra or template sets (redshift changes to '
            'positive, negative, zero and repeated values, switching the interpolation on, copies, saves, '
            'reads of other content, projections through bandpasses, table builds) in which chosen '
            'arithmetic operations or interpolation constructions fail to allocate. Every object is '
            'compared with its rest-frame spectrum moved to the last successful redshift after every '
            'step. Non-trivial when a redshift was set. Distinct = distinct event logs.')
    probes = ('redshift_set', 'redshift_failed', 'failed_in_arithmetic', 'failed_in_interpolation',
              'repeated_after_failure', 'back_to_zero', 'negative_redshift', 'same_redshift_again', 'copied',
              'projected', 'table_built', 'saved', 'loaded_onto_existing', 'interp_on', 'interp_failed',
              'failed_twice_in_a_row', 'small_step', 'plotted', 'plot_failed', 'template_loaded_onto_existing')

    def gen(self, rng, i, tier):
        ops = []
        K = [('sed', 1.2), ('template', 1)]
        for s in range(rng.randint(1, 2)):
            ops.append(dict(o='make', s=s, th=objs.gen_thing(rng, K)))
        for _ in range(rng.randint(5, 18 if tier == 'quick' else 30)):
            o = weighted(rng, [('shift', 10), ('badshift', 5), ('interp', 1), ('badinterp', 0.8), ('copy', 1),
                               ('deepcopy', 0.5), ('save', 1), ('project', 2), ('build', 0.5), ('badbuild', 0.5),
                               ('onto', 0.9), ('make', 0.7), ('plot', 0.7)])
            q = dict(o=o, s=rng.randrange(3))
            if o == 'make':
                q['th'] = objs.gen_thing(rng, K)
            if o in ('copy', 'deepcopy'):
                q['t'] = rng.randrange(3)
            if o in ('shift', 'badshift'):
                q['z'] = pick(rng, ZS) if rng.random() < 0.7 else round(rng.uniform(-0.3, 3.), 4)
                q['t'] = pick(rng, ['f', 'f', 'f4', 'f8'])
                q['again'] = rng.random() < 0.15
                if rng.random() < 0.25:
                    q['dz'] = pick(rng, [1e-2, 1e-3, 1e-4, 2e-5, 3e-6, -1e-3, -2e-5])
            if o in ('badshift', 'badinterp', 'badbuild'):
                q['how'] = pick(rng, ['arith', 'call', 'call'])
                q['k'] = rng.randrange(3) if o != 'badbuild' else rng.randrange(12)
                q['repeat'] = rng.random() < 0.5
            if o == 'plot':
                q.update(lim=rng.random() < 0.7, one=rng.random() < 0.5,
                         fail=rng.randrange(40) if rng.random() < 0.3 else None)
            if o == 'project':
                q['r'] = pick(rng, fx.OPTICAL)
            if o in ('build', 'badbuild'):
                q['r'] = sample(rng, fx.OPTICAL, rng.randint(1, 2))
            ops.append(q)
        return dict(ops=ops)

    def valid(self, scn):
        return bool(scn['ops'])

    def compare(self, c, node, slots, what):
        for s in sorted(slots):
            k, th, z, data = slots[s]
            e = objs.error(c, node, th, k, z=z)
            if not e and (not np.array_equal(np.asarray(k.restframe_wave), data[0]) or
                          not np.array_equal(np.asarray(k.restframe_flux), data[1])):
                e = 'the rest-frame data changed'
            if e:
                c.fail('wrong-state', '%sobject %d: %s' % (what, s, e))

    def rest(self, k):
        return (np.array(k.restframe_wave, copy=True), np.array(k.restframe_flux, copy=True))

    def arm(self, c, k, how, n):
        """Make the n-th arithmetic operation on the rest-frame data fail."""
        F = c.seams.FaultArray
        if how == 'arith':
            k.restframe_wave = np.asarray(k.restframe_wave).view(F)
            k.restframe_flux = np.asarray(k.restframe_flux).view(F)
            F.plan, F.fired = n, 0
            return {}
        return dict(call_at=n + 1)

    def disarm(self, c, k):
        F = c.seams.FaultArray
        F.plan = None
        k.restframe_wave = np.asarray(k.restframe_wave).view(np.ndarray)
        k.restframe_flux = np.asarray(k.restframe_flux).view(np.ndarray)

    def plot(self, c, q, k, what):
        import matplotlib.pyplot as plt
        w, fl = np.array(k.wave, copy=True), np.array(k.flux, copy=True)
        kw = {}
        if q['one']:
            kw['indx'] = k.nsed - 1
        if q['lim']:
            kw['wavelim'] = [float(np.quantile(w, 0.1)), float(np.quantile(w, 0.9))]
            if not (fl[-1 if q['one'] else slice(None), ..., (w > kw['wavelim'][0]) & (w < kw['wavelim'][1])] > 0).any():
                return
        plt.close('all')
        try:
            if q['fail'] is not None:
                r = c.op(lambda: k.plot(**kw), what, call_at=q['fail'] + 1)
                if r.ok:
                    return
                if not isinstance(r.exc, MemoryError):
                    c.fail('unexpected-error', what + r.describe())
                c.stats['probe:plot_failed'] += 1
                return
            c.must(lambda: k.plot(**kw), what)
            c.stats['probe:plotted'] += 1
            lines = plt.gca().lines
            want = [k.nsed - 1] if q['one'] else range(k.nsed)
            if len(lines) != len(want):
                c.fail('wrong-plot', what + '%d curves for %d spectra' % (len(lines), len(want)))
            for x, i in zip(lines, want):
                ok = fl[i] > 0.
                e = (model.close(x.get_xdata(), np.log10(np.asarray(w, 'f8')[ok]), 1e-4, 1e-4, 'plotted wavelengths') or
                     model.close(x.get_ydata(), np.log10(np.asarray(w, 'f8')[ok] * np.asarray(fl[i], 'f8')[ok]), 1e-4,
                                 1e-3, 'plotted fluxes'))
                if e:
                    c.fail('wrong-plot', what + e)
        finally:
            plt.close('all')

    def run(self, c, scn):
        node = c.boot()
        slots = {}
        last_failed = False
        for j, q in enumerate(scn['ops']):
            o, s = q['o'], q['s']
            what = 'step %d (%s): ' % (j, o)
            if o == 'make':
                k = c.must(lambda: objs.make(c, node, q['th']), what)
                slots[s] = [k, q['th'], 0.0, self.rest(k)]
                self.compare(c, node, slots, what)
                continue
            if s not in slots:
                continue
            k, th, z, data = slots[s]
            if o in ('shift', 'badshift'):
                zz = z if q.get('again') else q['z']
                if q.get('dz'):
                    zz = z + q['dz']
                    c.stats['probe:small_step'] += 1
                arg = {'f': float, 'f4': np.float32, 'f8': np.float64}[q['t']](zz)
                zz = float(arg)
                if zz == z:
                    c.stats['probe:same_redshift_again'] += 1
                if zz < 0:
                    c.stats['probe:negative_redshift'] += 1
                if zz == 0 and z != 0:
                    c.stats['probe:back_to_zero'] += 1
            if o == 'shift':
                if zz == 0 and q['t'] == 'f' and not q.get('again'):
                    c.must(lambda: k.set_redshift(), what)
                else:
                    c.must(lambda: k.set_redshift(redshift=arg), what)
                slots[s][2] = zz
                c.stats['probe:redshift_set'] += 1
                if last_failed:
                    c.stats['probe:repeated_after_failure'] += 1
                last_failed = False
            elif o in ('badshift', 'badinterp'):
                before = objs.fingerprint(th, k)
                kw = self.arm(c, k, q['how'], q['k'])
                f = (lambda: k.set_redshift(redshift=arg)) if o == 'badshift' else (lambda: k.set_interp())
                r = c.op(f, what, **kw)
                if c.seams.FaultArray.fired and q['how'] == 'arith':
                    c.stats['fault:failed_allocation'] += 1
                self.disarm(c, k)
                if r.ok:
                    if o == 'badshift':
                        slots[s][2] = zz
                        c.stats['probe:redshift_set'] += 1
                    last_failed = False
                else:
                    if not isinstance(r.exc, MemoryError):
                        c.fail('unexpected-error', what + r.describe())
                    c.stats['probe:' + ('redshift_failed' if o == 'badshift' else 'interp_failed')] += 1
                    c.stats['probe:failed_in_' + ('arithmetic' if q['how'] == 'arith' else 'interpolation')] += 1
                    if last_failed:
                        c.stats['probe:failed_twice_in_a_row'] += 1
                    last_failed = True
                    if o == 'badshift':
                        d = objs.differs(before, objs.fingerprint(th, k))
                        if d:
                            c.fail('half-done', what + 'the redshift change failed, but changed %s'
                                   % {'rw': 'restframe_wave', 'rf': 'restframe_flux', 'w': 'wave', 'f': 'flux',
                                      'z': 'redshift', 'i': 'interp'}.get(d, d))
                    self.compare(c, node, slots, what + 'after the failure: ')
                    if q['repeat']:
                        c.must(f, what + 'repeated')
                        if o == 'badshift':
                            slots[s][2] = zz
                        c.stats['probe:repeated_after_failure'] += 1
                        last_failed = False
            elif o == 'interp':
                c.must(lambda: k.set_interp(), what)
                c.stats['probe:interp_on'] += 1
            elif o in ('copy', 'deepcopy'):
                slots[q['t']] = [getattr(copy, o)(k), th, z, data]
                c.stats['probe:copied'] += 1
            elif o == 'save':
                c.must(lambda: k.tofits(filename=c.path('f%d.fits' % j)), what)
                c.stats['probe:saved'] += 1
            elif o == 'onto':
                th2 = dict(k=th['k'], tmpl=pick(__import__('random').Random(j), fx.SMALL), one=None, interp=th['interp'])
                c.must(lambda: k.fromfits(c.pool(th2['tmpl'])), what)
                if th['k'] == 'template':
                    c.stats['probe:template_loaded_onto_existing'] += 1
                slots[s] = [k, th2, 0.0, self.rest(k)]
                c.stats['probe:loaded_onto_existing'] += 1
            elif o == 'plot':
                self.plot(c, q, k, what)
            elif o == 'project':
                b = model.band(q['r'])
                f = node.rdict()
                c.must(lambda: f.load_response(q['r']), what)
                w = np.asarray(k.restframe_wave, 'f8') * (1. + z)
                fl = np.asarray(k.restframe_flux, 'f8') / (1. + z)
                if k.interp is not None:
                    got = c.must(lambda: f[q['r']].project(sed=k), what)
                else:
                    got = c.must(lambda: f[q['r']].project(wave=k.wave, flux=k.flux), what)
                if w[0] < b.wave[0] and w[-1] > b.wave[-1]:
                    exp = b.project(w, fl)
                    sc = np.abs(exp).max()
                    e = model.close(np.atleast_1d(got), exp, 2e-3, 2e-3 * sc, 'projection through %s' % q['r'])
                    if e:
                        c.fail('wrong-projection', what + e)
                c.stats['probe:projected'] += 1
            elif o in ('build', 'badbuild'):
                if th['k'] != 'template':
                    continue

                def f():
                    return node.kc.Kcorrect(responses=list(q['r']), templates=k, redshift_range=[0., 0.6],
                                            nredshift=3)
                if o == 'build':
                    c.must(f, what)
                    slots[s][2] = 0.0
                    c.stats['probe:table_built'] += 1
                else:
                    node.rdict()
                    for r in q['r']:
                        c.must(lambda: node.rdict().load_response(r), what)
                    kw = self.arm(c, k, q['how'], q['k'])
                    r = c.op(f, what, **kw)
                    if c.seams.FaultArray.fired and q['how'] == 'arith':
                        c.stats['fault:failed_allocation'] += 1
                    self.disarm(c, k)
                    if r.ok:
                        slots[s][2] = 0.0
                    else:
                        # consistent at whatever redshift the object says it has
                        slots[s][2] = float(k.redshift)
            self.compare(c, node, slots, what)

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['probe:redshift_set'] > 0


CHECK = C11()
