"""C02: spectra, templates and responses through save and restore."""
import os

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs


class C02(Check):
    id = 'C02'
    rule = ('A case is a history of 6-18 operations on spectra, template sets and responses (make, '
            'redshift, switch interpolation on, save to a new or existing file of any kind, refused '
            'overwrite, other extension name, load into a new or an existing object) with short reads '
            'and writes at random system calls; non-trivial when at least one file was read back and '
            'compared. Distinct = distinct event logs.')
    probes = ('read_back_sed', 'read_back_template', 'read_back_response', 'saved_while_redshifted',
              'refused_overwrite', 'saved_over_other_kind', 'image_layout', 'one_dimensional_flux',
              'other_extension', 'second_generation', 'loaded_onto_existing', 'as_plain_spectrum',
              'saved_over_its_own_file', 'sunless_onto_sunny', 'foreign_file_onto_existing')
    assumptions = ('table layout stores single precision as documented; image layout stores what it got',)

    def gen(self, rng, i, tier):
        K = [('sed', 1.3), ('template', 1.5), ('response', 1)]
        ops = []

        def thing():
            th = objs.gen_thing(rng, K)
            if th['k'] == 'response' and rng.random() < 0.35:
                th['r'] = pick(rng, fx.SUNLESS)
            return th
        for s in range(rng.randint(1, 3)):
            ops.append(dict(o='make', s=s, th=thing()))
        for _ in range(rng.randint(5, 14 if tier == 'quick' else 22)):
            o = weighted(rng, [('make', 1.5), ('shift', 3), ('interp', 0.7), ('save', 5), ('load', 6),
                               ('onto', 1.5), ('refuse', 1.5), ('plain', 1), ('restart', 0.5)])
            q = dict(o=o, s=rng.randrange(3), f=rng.randrange(3))
            if o == 'make':
                q['th'] = thing()
            elif o == 'shift':
                q['z'] = pick(rng, [0., 0.3, -0.1, 1.7, 0.05])
            elif o == 'save':
                q['ext'] = pick(rng, [None, None, 'SPEC', 'FLUX'])
                q['clobber'] = pick(rng, [None, True])
                q['own'] = rng.random() < 0.3
            elif o == 'onto':
                q['pool'] = pick(rng, [None, None] + fx.SMALL[:7])
            elif o == 'load':
                q['interp'] = rng.random() < 0.4
            if rng.random() < 0.3:
                q['short'] = pick(rng, [0.03, 0.25, 0.8])
            ops.append(q)
        if rng.random() < 0.4:
            # read a file into an object that holds something else of its kind
            k = pick(rng, ['sed', 'response', 'response', 'template'])
            new = []
            while len(new) < 2:
                th = thing()
                if th['k'] == k and not th.get('shared'):
                    new.append(th)
            tail = [dict(o='make', s=0, f=0, th=new[0]), dict(o='save', s=0, f=0, ext=None, clobber=None, own=False),
                    dict(o='make', s=1, f=1, th=new[1])]
            if rng.random() < 0.5:
                tail += [dict(o='save', s=1, f=1, ext=None, clobber=None, own=False),
                         dict(o='load', s=1, f=1, interp=True)]
            if rng.random() < 0.3:
                tail.append(dict(o='shift', s=1, f=1, z=0.3))
            tail.append(dict(o='onto', s=1, f=0))
            ops += tail
        return dict(ops=ops)

    def valid(self, scn):
        return bool(scn['ops'])

    def run(self, c, scn):
        node = c.boot()
        slots = {}      # s -> [obj, thing, z, interp, generation, extension]
        files = {}      # f -> (thing, ext, generation)
        seed = scn.get('seed')
        for j, q in enumerate(scn['ops']):
            o, s, f = q['o'], q['s'], q.get('f', 0)
            c.disk.short = q.get('short', 0.)
            what = 'step %d (%s): ' % (j, o)
            path = c.path('f%d.fits' % f)
            if o == 'restart':
                c.stats['fault:process_kill'] += 1
                node = c.boot()
                slots = {}
                continue
            if o == 'make':
                th = q['th']
                slots[s] = [c.must(lambda: objs.make(c, node, th), what), th, 0.0, th.get('interp'), 0, None]
                if th['k'] == 'sed' and th['one'] is not None:
                    c.stats['probe:one_dimensional_flux'] += 1
                if th['k'] != 'response' and fx.tdata(th['tmpl']).layout == 'image':
                    c.stats['probe:image_layout'] += 1
                continue
            if o in ('load', 'plain'):
                if f not in files:
                    continue
                th, ext, g, rec = files[f]
                if o == 'plain' and th['k'] == 'template':
                    # a template set read as a plain spectrum set
                    th = dict(k='sed', tmpl=th['tmpl'], one=None, interp=True)
                    c.stats['probe:as_plain_spectrum'] += 1
                if th['k'] != 'response':
                    th = dict(th, interp=q.get('interp', True))
                k = c.must(lambda: objs.load(c, node, th, path, ext=ext), what)
                slots[s] = [k, th, 0.0, th.get('interp'), g + 1, f]
                c.stats['probe:read_back_' + th['k']] += 1
                if g:
                    c.stats['probe:second_generation'] += 1
                self.compare(c, node, slots[s], what, rec)
                continue
            if s not in slots:
                continue
            k, th, z, ip, g, src = slots[s]
            if o == 'shift':
                if th['k'] == 'response':
                    continue
                c.must(lambda: k.set_redshift(redshift=q['z']), what)
                slots[s][2] = q['z']
                continue
            if o == 'interp':
                if th['k'] == 'response':
                    continue
                c.must(lambda: k.set_interp(), what)
                continue
            if o == 'onto':
                if q.get('pool') and th['k'] == 'template':
                    # a file made by other software
                    th2, ext, g2, rec = dict(k='template', tmpl=q['pool']), None, 0, None
                    path = c.pool(q['pool'])
                    c.stats['probe:foreign_file_onto_existing'] += 1
                elif f not in files or files[f][0]['k'] != th['k'] or th.get('shared'):
                    continue
                else:
                    th2, ext, g2, rec = files[f]
                c.must(lambda: objs.load(c, node, th2, path, onto=k, ext=ext), what)
                if th['k'] != 'response':
                    th2 = dict(th2, interp=th.get('interp'))
                slots[s] = [k, th2, 0.0, ip, g2 + 1, f]
                c.stats['probe:loaded_onto_existing'] += 1
                if th2['k'] == 'response' and th2['r'] in fx.SUNLESS and th['r'] not in fx.SUNLESS:
                    c.stats['probe:sunless_onto_sunny'] += 1
                self.compare(c, node, slots[s], what, rec)
                continue
            if o == 'refuse':
                if f not in files:
                    continue
                with c.quiet():
                    before = open(path, 'rb').read()
                a = objs.fingerprint(th, k)
                r = c.op(lambda: objs.save(node, th, k, path, clobber=False), what)
                with c.quiet():
                    same_ = os.path.exists(path) and open(path, 'rb').read() == before
                if r.ok or not same_:
                    c.fail('overwrite-not-refused',
                           what + 'existing file, overwriting not allowed: call %s, file %s'
                           % (r.describe(), 'unchanged' if same_ else 'changed'))
                c.stats['probe:refused_overwrite'] += 1
                d = objs.differs(a, objs.fingerprint(th, k))
                if d:
                    c.fail('save-changed-object', what + 'a refused save changed %s' % d)
                continue
            # save
            if q.get('own') and src is not None:
                f = src
                path = c.path('f%d.fits' % f)
                c.stats['probe:saved_over_its_own_file'] += 1
            ext = q.get('ext') if th['k'] == 'sed' and not self.image(th) else None
            if f in files and (files[f][0]['k'] != th['k'] or self.image(files[f][0]) != self.image(th)):
                c.stats['probe:saved_over_other_kind'] += 1
            if z:
                c.stats['probe:saved_while_redshifted'] += 1
            if ext == 'SPEC':
                c.stats['probe:other_extension'] += 1
            a = objs.fingerprint(th, k)
            clobber = True if q.get('clobber') else None
            c.must(lambda: objs.save(node, th, k, path, clobber=clobber, ext=ext), what)
            d = objs.differs(a, objs.fingerprint(th, k))
            if d:
                c.fail('save-changed-object', what + 'saving changed %s' % d)
            files[f] = (th, ext, g, objs.record(th, k))
        c.disk.short = 0.
        for s in sorted(slots):
            self.compare(c, node, slots[s], 'at the end: ')
        for f in sorted(files):
            th, ext, g, rec = files[f]
            k = c.must(lambda: objs.load(c, node, th, c.path('f%d.fits' % f), ext=ext), 'last load')
            c.stats['probe:read_back_' + th['k']] += 1
            self.compare(c, node, [k, th, 0.0, None, 1, f], 'file %d at the end: ' % f, rec)

    def image(self, th):
        return th['k'] != 'response' and fx.tdata(th['tmpl']).layout == 'image' and \
            th.get('one') is None

    def compare(self, c, node, slot, what, rec=None):
        k, th, z, ip, g, src = slot
        e = objs.error(c, node, th, k, z=z)
        if not e and rec is not None:
            e = objs.record_error(th, rec, k)
        if e:
            c.fail('restored-differs' if g else 'object-changed', what + e)

    def nontrivial(self, ctx, scn):
        return any(k.startswith('probe:read_back') for k in ctx.sim.stats)


CHECK = C02()
