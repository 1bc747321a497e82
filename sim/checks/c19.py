"""C19: reading a file into an existing object is all-or-nothing."""
import os
import shutil

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import c04, objs

RERR = c04.RERR
KINDS = [('sed', 2), ('template', 3), ('response', 2), ('kc', 4)]
EXTRA = ('filename', 'nwave', 'nsed', 'interpolate', 'info', 'fwhm_low', 'fwhm_high')


def state(th, obj):
    """Everything that can be seen of an object, exactly."""
    d = objs.fingerprint(th, obj)
    x = obj if th['k'] != 'kc' else obj.templates
    for k in EXTRA:
        if hasattr(x, k):
            v = getattr(x, k)
            d['+' + k] = repr(v) if isinstance(v, dict) else v
    if th['k'] in ('sed', 'template') and obj.interp is not None:
        w = np.linspace(obj.wave[0], obj.wave[-1], 23)
        d['+interp'] = np.array(obj.interp(w))
    if th['k'] == 'response':
        d['+vega'] = obj.vega2ab
        d['+interp'] = np.array(obj.interp(obj.wave))
        d['+sol'] = None if obj.solar_sed is None else np.array(obj.solar_sed.flux, copy=True)
    if th['k'] == 'kc':
        d['+cosmo'] = repr(obj.cosmo)
        d['+templates'] = id(obj.templates)
        d['+class'] = type(obj).__name__
    d['+attributes'] = sorted(a for a in vars(obj) if not a.startswith('_'))
    return d


class C19(Check):
    id = 'C19'
    rule = ('A case is 1-3 existing objects (fresh, moved in redshift, restored before, sharing a template set '
            'with others) and 2-6 files of the same and of other kinds, read into them with an error at one of the system '
            'calls, a failed allocation at one of the library calls or an interrupt at a line, or cut off, '
            'lacking a part, emptied, absent or of the wrong kind; state compared exactly before and after. '
            'Non-trivial when a read failed. Distinct = distinct event logs.')
    probes = ('read', 'read_failed', 'unchanged_after_failure', 'survived_fault', 'interrupted', 'interrupted_new',
              'allocation_failed', 'io_error', 'cut', 'part_missing', 'wrong_kind', 'absent', 'retried',
              'k:sed', 'k:template', 'k:response', 'k:dat', 'k:kc', 'moved_before', 'shared_templates', 'used_after_failure',
              'ab_subclass', 'without_m50')
    assumptions = ('no other thread uses the object while a file is read into it',
                   'the filename attribute names the file the object was made from')

    def gen(self, rng, i, tier):
        ns = rng.randint(1, 2)
        slots = []
        for s in range(ns):
            th = objs.gen_thing(rng, KINDS, small=True)
            if th['k'] == 'kc' and th['spec']['cls'] == 'KcorrectGST':
                th['spec'] = dict(th['spec'], nz=2)
            th.pop('shared', None)
            slots.append(th)
        ops = []
        for _ in range(rng.randint(2, 5 if tier == 'quick' else 8)):
            s = rng.randrange(ns)
            k = slots[s]['k']
            o = weighted(rng, [('read', 8), ('move', 1.5), ('query', 1), ('share', 1)])
            q = dict(o=o, s=s, seed=rng.randrange(10**6))
            if o == 'move':
                q['z'] = pick(rng, [0.1, 0.7, 0., -0.05])
            if o == 'read':
                if k == 'kc':
                    th = dict(k='kc', spec=dict(gen_spec(rng, cls='Kcorrect', maxband=3)))
                    cls = slots[s]['spec']['cls']
                    th['spec'] = dict(twist(rng, slots[s]['spec']) if cls != 'Kcorrect' or rng.random() < 0.4
                                      else th['spec'], cls=cls, cosmo=slots[s]['spec'].get('cosmo'))
                    if cls == 'KcorrectGST':
                        th['spec']['nz'] = 2
                else:
                    th = objs.gen_thing(rng, [(k, 1)])
                    th.pop('shared', None)
                q['th'] = th
                q['dat'] = k == 'response' and rng.random() < 0.5
                u = rng.random()
                if u < 0.30:
                    q['bad'] = dict(how='io', kind=pick(rng, RERR), at=weighted(rng, [
                        ('read', 5), ('open', 3), ('any', 4)]), where=rng.random())
                elif u < 0.45:
                    q['bad'] = dict(how='alloc', where=rng.random())
                elif u < 0.57:
                    q['bad'] = dict(how='line', where=rng.random())
                elif u < 0.82:
                    q['bad'] = dict(how='damage', d=dict(how=weighted(rng, [('cut', 4), ('part', 5), ('empty', 0.4),
                                                                            ('junk', 0.4)]),
                                                         at=rng.random(), block=rng.random() < 0.5))
                elif u < 0.88:
                    q['bad'] = dict(how='wrong', kind=pick(rng, ['sed', 'template', 'response', 'text']))
                elif u < 0.92:
                    q['bad'] = dict(how='absent')
                q['retry'] = rng.random() < 0.6
            ops.append(q)
        return dict(slots=slots, ops=ops)

    def valid(self, scn):
        return bool(scn['ops']) and bool(scn['slots'])

    def run(self, c, scn):
        self.failed = False
        node = c.boot('p0')
        slots = []
        for th in scn['slots']:
            x = c.must(lambda: objs.make(c, node, th), 'make')
            slots.append(dict(th=th, obj=x, z=0., kin=None, interp=th.get('interp', False)))
        for j, q in enumerate(scn['ops']):
            if q['s'] >= len(slots):
                continue
            sl = slots[q['s']]
            what = 'step %d (%s): ' % (j, q['o'])
            k = sl['th']['k']
            if q['o'] == 'move':
                if k in ('sed', 'template'):
                    c.must(lambda: sl['obj'].set_redshift(q['z']), what)
                    sl['z'] = q['z']
                    c.stats['probe:moved_before'] += 1
            elif q['o'] == 'share':
                # another object that holds the same template set
                if k == 'kc':
                    b = sl['th']['spec']
                    spec = dict(b, cls='Kcorrect', resp=list(b['resp'])[:2], out=None, map=None, nz=2, zr=[0., 0.3])
                    sl['kin'] = (c.must(lambda: build(c, node, spec, sl['obj'].templates), what), spec)
                    c.stats['probe:shared_templates'] += 1
            elif q['o'] == 'query':
                self.check(c, node, sl, what, q['seed'])
            else:
                self.read(c, node, sl, q, what, j)
            if sl['kin']:
                e = objs.kc_error(c, node, sl['kin'][0], model.kmodel(sl['kin'][1]), '', 1, q['seed'])
                if e:
                    c.fail('other-object-changed', '%san object sharing its templates: %s' % (what, e))
        for j, sl in enumerate(slots):
            self.check(c, node, sl, 'at the end: object %d: ' % j, j)

    def check(self, c, node, sl, what, seed):
        e = objs.error(c, node, sl['th'], sl['obj'], seed=seed, z=sl['z'] if sl['th']['k'] != 'kc' else 0.)
        if e:
            c.fail('wrong-object', what + e)

    def source(self, c, node, q, j):
        """A file with the content q['th'], made by another process."""
        th = q['th']
        if th['k'] == 'response' and q.get('dat'):
            p = c.path('r%d.dat' % j)
            with c.quiet():
                shutil.copyfile(os.path.join(c.G.inst if hasattr(c, 'G') else node.install, 'data', 'responses',
                                             th['r'] + '.dat'), p)
            return p, dict(th, v=0)
        p = c.path('f%d.fits' % j)
        if th['k'] == 'template' or th['k'] == 'sed' and th['one'] is None:
            if q['seed'] % 2:
                # a file made by other software
                with c.quiet():
                    shutil.copyfile(c.pool(th['tmpl']), p)
                return p, th
        other = c.boot('w%d' % j)
        x = c.must(lambda: objs.make(c, other, th), 'source')
        c.must(lambda: objs.save(other, th, x, p), 'source')
        if th['k'] in ('template', 'kc') and q['seed'] % 3:
            t = th['tmpl'] if th['k'] == 'template' else th['spec']['tmpl']
            if fx.tdata(t).prop['m50'] is None:
                # written before there was an M50
                from astropy.io import fits
                with c.quiet():
                    with fits.open(p, memmap=False) as h:
                        hl = fits.HDUList([x for x in h if x.name != 'M50'])
                        hl.writeto(p + '.old', overwrite=True)
                    os.replace(p + '.old', p)
                c.stats['probe:without_m50'] += 1
        node.activate()
        return p, th

    def read(self, c, node, sl, q, what, j):
        k = sl['th']['k']
        c.stats['probe:read'] += 1
        path, th = self.source(c, node, q, j)
        dat = path.endswith('.dat')
        c.stats['probe:k:' + ('dat' if dat else k)] += 1
        if k == 'kc' and sl['th']['spec']['cls'] != 'Kcorrect':
            c.stats['probe:ab_subclass'] += 1
        obj = sl['obj']

        def call(x, p):
            if dat:
                x.fromdat(p)
            elif k == 'response':
                x.fromfits(filename=p)
            else:
                x.fromfits(p)
        bad = q.get('bad')
        kw = {}
        src = path
        if bad and bad['how'] in ('io', 'alloc', 'line'):
            dry = c.boot('dry%d' % j)
            t2 = dict(sl['th'])
            y = c.must(lambda: objs.make(c, dry, t2), 'dry')
            r = c.op(lambda: call(y, path), 'dry run', count_calls=bad['how'] == 'alloc')
            if not r.ok:
                c.fail('unexpected-error', '%sreading a good file %s' % (what, r.describe()))
            node.activate()
            if bad['how'] == 'io':
                n = r.counts[bad['at']]
                kw['faults'] = [dict(kind=bad['kind'], at=bad['at'], k=min(max(0, n - 1), int(bad['where'] * n)))]
            elif bad['how'] == 'alloc':
                kw['call_at'] = 1 + int(bad['where'] * max(1, r.calls))
            else:
                kw['kbd_at'] = 1 + int(bad['where'] * max(1, r.steps))
        elif bad:
            with c.quiet():
                src = path + '.bad' + ('.dat' if dat else '.fits')
                if bad['how'] == 'damage':
                    if dat and bad['d']['how'] in ('cut', 'part'):
                        bad = dict(how='damage', d=dict(how='empty', at=0.))
                    shutil.copyfile(path, src)
                    if c04.CHECK.damage(c, src, bad['d'], th) is None:
                        src, bad = path, None
                    else:
                        c.stats['probe:' + {'part': 'part_missing'}.get(bad['d']['how'], 'cut')] += 1
                elif bad['how'] == 'wrong':
                    c.stats['probe:wrong_kind'] += 1
                    if bad['kind'] == 'text' or dat:
                        with open(src, 'w') as fp:
                            fp.write('| lam | x |\n|  1  |   |\n' if dat else '# nothing\n1 2\n')
                    elif bad['kind'] == k or (k == 'sed' and bad['kind'] == 'template') or bad['kind'] == 'sed':
                        from astropy.io import fits
                        fits.HDUList([fits.PrimaryHDU(np.ones((2, 3)))]).writeto(src, overwrite=True)
                    else:
                        src = c.pool('t1') if bad['kind'] == 'template' else self.response_file(c, j)
                        if k == 'response':
                            src = c.pool('b1')
                else:
                    c.stats['probe:absent'] += 1
        before = state(sl['th'], obj)
        r = c.op(lambda: call(obj, src), what, **kw)
        troubled = bad is not None
        fired = bool(kw.get('faults')) and not r.unfired
        if not r.ok:
            self.failed = True
            c.stats['probe:read_failed'] += 1
            how = r.describe()
            intr = isinstance(r.exc, KeyboardInterrupt)
            if isinstance(r.exc, MemoryError):
                c.stats['probe:allocation_failed'] += 1
            if intr:
                c.stats['probe:interrupted'] += 1
            if fired:
                c.stats['probe:io_error'] += 1
            if not troubled:
                c.fail('unexpected-error', what + how)
            r = None
            try:
                d = objs.differs(before, state(sl['th'], obj))
            except Exception as x:
                c.fail('changed-by-failed-read', '%s%s, and the object is unusable: %r' % (what, how, x))
            if d and intr:
                # it came after the change
                e = self.as_new(c, node, sl, th, q['seed'])
                if e:
                    c.fail('half-changed', '%sinterrupted: the object is neither the old one (%s differs) nor the new '
                           'one: %s' % (what, d, e))
                c.stats['probe:interrupted_new'] += 1
                return
            if d:
                c.fail('changed-by-failed-read', '%s%s, but %s of the object changed' % (what, how, d.lstrip('+')))
            c.stats['probe:unchanged_after_failure'] += 1
            self.check(c, node, sl, what + 'after the failure: ', q['seed'])
            c.stats['probe:used_after_failure'] += 1
            if not q.get('retry'):
                return
            c.stats['probe:retried'] += 1
            r = c.op(lambda: call(obj, path), 'retry')
            if not r.ok:
                c.fail('no-recovery', '%sreading the good file afterwards %s' % (what, r.describe()))
        elif troubled:
            c.stats['probe:survived_fault'] += 1
            if bad['how'] in ('absent', 'wrong'):
                c.fail('bad-file-accepted', what + 'a file of another kind or an absent one was read')
        e = self.as_new(c, node, sl, th, q['seed'])
        if e:
            c.fail('half-changed', '%sreading returned normally, but %s' % (what, e))

    def response_file(self, c, j):
        from astropy.table import Table
        p = c.path('other%d.fits' % j)
        with c.quiet():
            Table(dict(a=np.arange(3.))).write(p, overwrite=True)
        return p

    def as_new(self, c, node, sl, th, seed):
        """None if the object is exactly what the file holds."""
        th = dict(th)
        if th['k'] in ('sed', 'template'):
            th['interp'] = sl['interp']
        e = objs.error(c, node, th, sl['obj'], seed=seed)
        if e:
            return e
        if th['k'] in ('sed', 'template'):
            if (sl['obj'].interp is not None) != bool(sl['interp']):
                return 'interpolation is %s' % ('on' if sl['obj'].interp is not None else 'off')
        sl.update(th=th, z=0.)
        return None

    def nontrivial(self, ctx, scn):
        return self.failed


CHECK = C19()
