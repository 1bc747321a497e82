"""C04: loads that meet I/O faults or incomplete files."""
import os
import shutil

import numpy as np
import astropy.io.fits as fits

import model
from engine import Check
from checks.common import *
from checks import objs

RERR = ('eio', 'enoent', 'eacces', 'emfile', 'estale', 'enomem')
OPTIONAL = ('M50', 'PRIMARY')


class C04(Check):
    id = 'C04'
    rule = ('A case is 1-5 loads (spectra, template sets, responses from text and FITS, dictionary loads, '
            'restores into new and existing K-correction objects, builds from files) each with an error '
            'return at one of the system calls a fault-free load makes, or of a file truncated at a random '
            'length or lacking one part, or with short reads; non-trivial when a fault fired or a damaged '
            'file was loaded. Distinct = distinct event logs.')
    probes = ('load_raised', 'load_survived_fault', 'truncated', 'part_missing', 'file_empty',
              'retried', 'dictionary_load', 'restore', 'restore_onto', 'build', 'response_file',
              'template', 'sed', 'default_template', 'truncated_model_spectrum', 'text_empty',
              'model_library')
    assumptions = ('bytes that are read are the bytes that were written (no silent corruption at rest); '
                   'a truncated text (.dat) response is indistinguishable from a shorter response and '
                   'is not demanded to be refused unless no table is left',)

    def gen(self, rng, i, tier):
        nfile = rng.randint(1, 2)
        things = [objs.gen_thing(rng, small=True) for _ in range(nfile)]
        for th in things:
            if th['k'] == 'kc' and th['spec']['cls'] == 'KcorrectGST':
                th['spec'] = dict(th['spec'], nz=2)
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = weighted(rng, [('load', 5), ('onto', 1), ('dict', 2), ('dat', 1), ('build', 2),
                               ('default', 0.4), ('basel', 0.7), ('models', 1)])
            q = dict(o=o, th=rng.randrange(nfile), r=pick(rng, fx.ALLRESP))
            if o in ('build', 'default'):
                q['spec'] = objs.gen_thing(rng, [('kc', 1)], small=True)['spec']
                if q['spec']['cls'] == 'KcorrectGST':
                    q['spec']['nz'] = 2
                if o == 'default':
                    q['spec'] = dict(q['spec'], tmpl='real:default', nz=2, interp=False,
                                     cls='Kcorrect', resp=sample(rng, fx.OPTICAL, 2), out=None, map=None)
            u = rng.random()
            if o == 'models':
                q.update(n=rng.randint(1, 3), seed=rng.randrange(40))
            if o == 'models' and u < 0.6:
                q['damage'] = dict(how='cut', at=rng.random(), word=rng.random() < 0.3)
            elif o == 'basel':
                q['damage'] = dict(how='cut', at=rng.random())
            elif o in ('load', 'onto') and u < (0.6 if things[q['th']]['k'] == 'kc' else 0.4):
                q['damage'] = dict(how=weighted(rng, [('cut', 4), ('part', 6), ('empty', 0.4), ('junk', 0.4)]),
                                   at=rng.random(), block=rng.random() < 0.4)
            elif o in ('dict', 'dat') and u < 0.15:
                q['damage'] = dict(how='empty', at=0.)
            elif u < 0.93:
                q['fault'] = dict(kind=pick(rng, RERR), at=weighted(rng, [
                    ('read', 5), ('open', 3), ('stat', 1), ('any', 3), ('close', 0.3)]),
                    where=rng.random())
                if rng.random() < 0.25:
                    q['fault2'] = dict(kind=pick(rng, RERR), at='any', where=rng.random())
            if u > 0.85 or rng.random() < 0.2:
                q['short'] = pick(rng, [0.1, 0.7])
            ops.append(q)
        return dict(things=things, ops=ops, by=rng.random() < 0.6,
                    byspec=dict(gen_spec(rng, cls='Kcorrect', maxband=3), nz=3))

    def valid(self, scn):
        return bool(scn['ops'])

    def run(self, c, scn):
        inst = c.private_install(templates=True)
        node = c.boot('p0', inst)
        by = None
        if scn['by']:
            bs = scn['byspec']
            by = (c.must(lambda: build(c, node, bs), 'bystander'), bs)
        files = []
        for i, th in enumerate(scn['things']):
            p = c.path('f%d.fits' % i)
            k = c.must(lambda: objs.make(c, node, th), 'make')
            c.must(lambda: objs.save(node, th, k, p), 'save')
            files.append(p)
        # start from a process that has loaded nothing but the bystander
        node = c.boot('p1', inst)
        if by:
            by = (c.must(lambda: build(c, node, by[1]), 'bystander'), by[1])
        for j, q in enumerate(scn['ops']):
            what = 'step %d (%s): ' % (j, q['o'])
            self.step(c, node, inst, scn, q, files, what, j)
            self.others(c, node, by, what)

    def others(self, c, node, by, what):
        for n in sorted(node.rdict()):
            e = model.check_response(node.rdict()[n], n)
            if e:
                c.fail('dictionary-damaged', '%safterwards dictionary entry %s: %s' % (what, n, e))
        if by:
            e = objs.kc_error(c, node, by[0], model.kmodel(by[1]), what + 'afterwards another object: ',
                              1, what)
            if e:
                c.fail('other-object-damaged', e)

    def target(self, c, node, inst, scn, q, files):
        """(path or None, call(node) -> object, compare(node, object))"""
        o, r = q['o'], q['r']
        if o == 'basel':
            star = 'sun' if q['th'] == 0 else 'vega'
            p = os.path.join(inst, 'data', 'basel', 'lcb%s.ori' % star)

            def call(n):
                b = model.band(r)
                return n.response.Response(wave=b.wave.copy(), response=b.resp.copy())
            return p, call, lambda n, k: model.check_response(k, r)
        if o == 'models':
            p = c.path('lib%d.ori' % q['n'])
            with c.quiet():
                with open(p, 'w') as fp:
                    fp.write(fx.basel_text(q['n'], q['seed']))
            return p, (lambda n: n.utils.read_basel(p)), \
                (lambda n, r: model.check_models(r, q['n'], q['seed']))
        if o in ('dict', 'dat'):
            p = os.path.join(inst, 'data', 'responses', r + '.dat')

            def call(n):
                if o == 'dict':
                    n.rdict().load_response(r, reload=bool(q['th']))
                    return n.rdict()[r]
                return n.response.Response(filename=p if q['th'] else r + '.dat')
            return p, call, lambda n, k: model.check_response(k, r)
        if o == 'build':
            return None, (lambda n: build(c, n, q['spec'])), \
                (lambda n, k: objs.kc_error(c, n, k, model.kmodel(q['spec'])))
        if o == 'default':
            s = q['spec']

            def call(n):
                return n.kc.Kcorrect(responses=list(s['resp']), redshift_range=list(s['zr']),
                                     nredshift=s['nz'], abcorrect=s['ab'], interpolate_templates=False,
                                     cosmo=model.COSMO[s.get('cosmo')])
            return None, call, (lambda n, k: objs.kc_error(c, n, k, model.kmodel(s)))
        th = scn['things'][q['th']] if q['th'] < len(scn['things']) else scn['things'][0]
        p = files[q['th'] if q['th'] < len(files) else 0]

        def call(n):
            return objs.load(c, n, th, p, onto=q.get('_onto'))
        return p, call, (lambda n, k: objs.error(c, n, th, k))

    def step(self, c, node, inst, scn, q, files, what, j):
        o = q['o']
        path, call, compare = self.target(c, node, inst, scn, q, files)
        q = dict(q)
        th = None
        if o in ('load', 'onto'):
            th = scn['things'][q['th']] if q['th'] < len(scn['things']) else scn['things'][0]
            c.stats['probe:' + {'kc': 'restore', 'response': 'response_file'}.get(th['k'], th['k'])] += 1
        else:
            c.stats['probe:' + {'dict': 'dictionary_load', 'dat': 'response_file', 'build': 'build',
                                'default': 'default_template',
                                'models': 'model_library', 'basel': 'truncated_model_spectrum'}[o]] += 1
        faults = []
        fs = [q[x] for x in ('fault', 'fault2') if q.get(x)]
        if fs:
            # count the system calls of a fault-free load in another process
            other = c.boot('dry', inst)
            r = c.op(lambda: call(other), 'dry run')
            if not r.ok:
                c.fail('unexpected-error', what + 'fault-free load ' + r.describe())
            node.activate()
            for f in fs:
                n = r.counts[f['at']]
                if not n:
                    continue
                f = dict(f)
                f['k'] = min(n - 1, int(f.pop('where') * n))
                faults.append(f)
        backup = None
        exact_only = False
        if q.get('damage'):
            backup = path + '.bak'
            with c.quiet():
                shutil.copyfile(path, backup)
                # damage another inode: the present one may be mapped
                shutil.copyfile(path, path + '.dmg')
                os.replace(path + '.dmg', path)
                how = self.damage(c, path, q['damage'], th)
            if how is None:
                backup = None
        if o == 'onto' and th['k'] in ('kc', 'sed', 'response'):
            # an existing object of another content; a failed load may leave it unusable until
            # the load is repeated, but it must not be accepted as good
            if th['k'] == 'kc':
                onto = c.must(lambda: objs.blank(c, node, th), 'object to restore onto')
            elif th['k'] == 'sed':
                onto = c.must(lambda: node.template.SED(filename=c.pool('b1'), interpolate=th['interp']),
                              'object to load onto')
            else:
                onto = c.must(lambda: node.response.Response(filename='syn_tri.dat'), 'object to load onto')
            q['_onto'] = onto
            c.stats['probe:restore_onto'] += 1
            path, call, compare = self.target(c, node, inst, scn, q, files)
        c.disk.short = q.get('short', 0.)
        r = c.op(lambda: call(node), o, faults=faults)
        c.disk.short = 0.
        troubled = len(r.unfired) < len(faults) or backup is not None
        if not r.ok:
            c.stats['probe:load_raised'] += 1
            if not troubled:
                c.fail('unexpected-error', what + r.describe())
        else:
            if troubled:
                c.stats['probe:load_survived_fault'] += 1
            e = compare(node, r.value)
            if e:
                c.fail('degraded-load' if troubled else 'wrong-load',
                       what + 'the load returned normally, but ' + e)
        r = None
        if backup is not None:
            with c.quiet():
                os.replace(backup, path)
        if troubled:
            c.stats['probe:retried'] += 1
            r = c.op(lambda: call(node), 'retry')
            if not r.ok:
                c.fail('no-recovery', what + 'repeating the load without the fault ' + r.describe())
            e = compare(node, r.value)
            if e:
                c.fail('no-recovery', what + 'repeating the load without the fault: ' + e)

    def damage(self, c, path, d, th):
        n = os.path.getsize(path)
        how = d['how']
        if how == 'empty' or (path.endswith('.ori') and d['at'] < 0.05):
            with open(path, 'wb'):
                pass
            c.stats['probe:text_empty' if path.endswith('.dat') else 'probe:file_empty'] += 1
            c.stats['fault:file_damaged'] += 1
            return how
        if how == 'junk':
            with open(path, 'wb') as fp:
                fp.write(b'not a FITS file\n' * 40)
        elif how == 'cut':
            m = int(d['at'] * n)
            if d.get('word') is not None:
                # a number that is cut short is still a number: cut after one
                with open(path, 'rb') as fp:
                    t = fp.read().rstrip()
                w = [i for i, x in enumerate(t) if x in b' \n']
                m = w[int(d['at'] * len(w))] if not d['word'] else w[-1 - int(d['at'] * 1300)]
            if d.get('block'):
                m = m // 2880 * 2880
            with open(path, 'r+b') as fp:
                fp.truncate(m)
            c.stats['probe:truncated'] += 1
        else:
            with fits.open(path, memmap=False) as h:
                names = [x.name for x in h]
                idx = [i for i, x in enumerate(names) if i > 0 and x not in OPTIONAL]
                if names and names[0] in ('WAVE',):
                    idx.append(0)
                if not idx:
                    return None
                gone = idx[int(d['at'] * len(idx))]
                for x in h:
                    x.data
                out = []
                for i, x in enumerate(h):
                    if i != gone:
                        y = x.copy()
                        if isinstance(y, fits.PrimaryHDU) and out:
                            y = fits.ImageHDU(y.data, y.header, name=x.name)
                        if isinstance(y, fits.ImageHDU) and not out and gone == 0:
                            y = fits.PrimaryHDU(y.data, y.header)
                        out.append(y)
                hl = fits.HDUList(out)
                hl.writeto(path + '.new', overwrite=True)
            os.replace(path + '.new', path)
            c.stats['probe:part_missing'] += 1
        c.stats['fault:file_damaged'] += 1
        return how

    def nontrivial(self, ctx, scn):
        return any(k.startswith('fault:') for k in ctx.sim.stats)


CHECK = C04()
