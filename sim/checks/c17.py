"""C17: an object's configuration is its own."""
import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs
from checks.c16 import scribble


def parts(th, obj):
    """What else belongs to an object."""
    def bits(a):
        return None if a is None else (a.shape, str(a.dtype), np.ascontiguousarray(a).tobytes())
    d = {}
    if th['k'] == 'response':
        for a in ('solar_sed', 'vega_sed'):
            s = getattr(obj, a, None)
            d[a] = None if s is None else (float(s.redshift), bits(s.wave), bits(s.flux), sorted(s.info))
    elif th['k'] in ('sed', 'template'):
        d['info'] = sorted(map(str, obj.info))
    elif th['k'] == 'kc':
        d['info'] = sorted(map(str, obj.templates.info))
    return d


class C17(Check):
    id = 'C17'
    rule = ('A case is a history of a client that keeps a few lists of bands, redshift ranges, and wavelength, '
            'flux and transmission buffers, builds K-correction objects of all classes, fitters, spectra and '
            'responses from them (or from default arguments, or from the same files), and between calls '
            'overwrites, extends, sorts, empties and reuses those lists and buffers, or overwrites in place '
            'the attributes of one object; single client or several sessions interleaved. Non-trivial when '
            'something was changed while an object built from it was alive. Distinct = distinct event logs.')
    probes = ('list_changed', 'list_reused', 'range_changed', 'buffer_changed', 'buffer_reused', 'default_arguments',
              'ruined_one_object', 'ruined_default_object', 'same_file_twice', 'default_templates',
              'other_after_ruin', 'caller_data_untouched', 'read_only_buffer', 'tuple_given', 'saved_after_change',
              'fitter_built', 'option_set_to_none')
    assumptions = ('templates handed to a K-correction object and entries of the response dictionary are shared '
                   'by design',)

    def gen(self, rng, i, tier):
        lists = []
        for _ in range(rng.randint(1, 3)):
            lists.append(sample(rng, fx.OPTICAL, rng.randint(1, 3)))
        ops = []
        for _ in range(rng.randint(6, 16 if tier == 'quick' else 30)):
            o = weighted(rng, [('kc', 5), ('default', 1.5), ('fitter', 1), ('sed', 2), ('response', 2), ('file', 1.5),
                               ('list', 4), ('range', 1.5), ('buffer', 3), ('ruin', 2), ('save', 1), ('query', 2),
                               ('deftmpl', 0.15)])
            q = dict(o=o, s=rng.randrange(6), seed=rng.randrange(10**6))
            if o == 'kc':
                q.update(tmpl=pick(rng, ['t1', 't2', 't3', 'b4']), interp=rng.random() < 0.4, r=rng.randrange(3),
                         out=rng.randrange(3) if rng.random() < 0.6 else None, mseed=rng.randrange(1000),
                         nz=pick(rng, [3, 4, 5]), zr=rng.randrange(2), ab=rng.random() < 0.3,
                         ret=rng.random() < 0.3, tup=rng.random() < 0.1)
            elif o == 'default':
                q.update(cls=weighted(rng, [('KcorrectSDSS', 4), ('KcorrectGST', 1)]), tmpl=pick(rng, ['t1', 't2', 'b4']),
                         nz=pick(rng, [3, 4]))
            elif o == 'fitter':
                q.update(tmpl=pick(rng, ['t1', 't2', 't3']), r=rng.randrange(3), zr=rng.randrange(2), nz=4)
            elif o == 'sed':
                q.update(tmpl=pick(rng, ['t1', 't2', 't3']), one=rng.random() < 0.4, interp=rng.random() < 0.6,
                         ro=rng.random() < 0.1)
            elif o == 'response':
                q.update(r=pick(rng, fx.ALLRESP), v=pick(rng, [0, 1, 2]), ro=rng.random() < 0.1)
            elif o == 'file':
                q['th'] = objs.gen_thing(rng, [('sed', 1), ('template', 1), ('response', 1.5)])
                q['th'].pop('shared', None)
            elif o == 'list':
                q.update(how=pick(rng, ['append', 'pop', 'replace', 'sort', 'reverse', 'clear', 'rotate']),
                         r=rng.randrange(3), name=pick(rng, fx.OPTICAL))
            elif o == 'range':
                q.update(r=rng.randrange(2), hi=pick(rng, [0.4, 0.7, 1.1]), lo=pick(rng, [0., -0.05]))
            elif o == 'buffer':
                q.update(how=pick(rng, ['zero', 'scale', 'reverse']))
            elif o == 'query':
                q['q'] = gen_query(rng, 1, objs.KCQ)
                q['q'].pop('cat', None)
            ops.append(q)
        if rng.random() < 0.25:
            # several objects of one kind, one of them ruined on the way
            k = pick(rng, ['deftmpl', 'default', 'response', 'file', 'sed'])
            proto = [q for q in ops if q['o'] == k][:1]
            if k == 'deftmpl':
                proto = [dict(o=k, seed=0)]
            if proto:
                ins = [dict(proto[0], s=t, seed=rng.randrange(10**6)) for t in sample(rng, range(6), rng.randint(2, 3))]
                ins.insert(rng.randint(1, len(ins)), dict(o='ruin', s=ins[0]['s'], seed=0))
                at = sorted(rng.randrange(len(ops) + 1) for _ in ins)
                for k, q in reversed(list(zip(at, ins))):
                    ops.insert(k, q)
        return dict(lists=lists, ops=ops, f4range=rng.random() < 0.7)

    def valid(self, scn):
        return bool(scn['ops'])

    # ------------------------------------------------------------------
    def look(self, c, node, s, what, queries=0, seed=0):
        x = self.slots[s]
        v = parts(x['th'], x['obj'])
        if 'parts' not in x:
            x['parts'] = v
        elif v != x['parts']:
            c.fail('configuration-shared', '%sobject %d: %s changed' % (
                what, s, ', '.join(k for k in x['parts'] if v[k] != x['parts'][k])))
        if x['th']['k'] == 'fitter':
            e = self.fitter_error(x)
        else:
            e = objs.error(c, node, x['th'], x['obj'], seed='%s-%s' % (seed, s), queries=queries)
        if e:
            c.fail('configuration-shared', '%sobject %d: %s' % (what, s, e))

    def fitter_error(self, x):
        k, M = x['obj'], x['M']
        if list(k.responses) != list(M.resp):
            return 'responses are %r, expected %r' % (list(k.responses), list(M.resp))
        if not np.allclose(np.asarray(k.redshift_range, 'f8'), np.asarray(M.zr, 'f8'), atol=1e-6):
            return 'redshift range is %r, expected %r' % (k.redshift_range, M.zr)
        return (model.close(k.redshifts, np.asarray(M.z, 'f8'), 1e-5, 1e-6, 'redshifts') or
                model.close(k.Amatrix(k.redshifts), M.A, 1e-4, 1e-4 * np.abs(M.A).max(), 'tables'))

    def buffer(self, key, a):
        """The client keeps one buffer per shape and refills it."""
        a = np.asarray(a)
        key = (key,) + a.shape + (str(a.dtype),)
        if key not in self.buf:
            self.buf[key] = np.empty_like(a)
            self.reused = False
        else:
            self.reused = True
        b = self.buf[key]
        b.flags.writeable = True
        b[...] = a
        return b

    def run(self, c, scn):
        node = c.boot('p0')
        self.slots, self.buf = {}, {}
        self.changed = False
        lists = [list(x) for x in scn['lists']]
        ranges = [np.array([0., 0.9], 'f4') if scn['f4range'] else [0., 0.9], [0., 0.6]]
        nf = 0
        for j, q in enumerate(scn['ops']):
            o, s = q['o'], q['s']
            what = 'step %d (%s): ' % (j, o)
            x = self.slots.get(s)
            if o == 'kc':
                r = lists[q['r'] % len(lists)]
                if not r:
                    continue
                out = mp = None
                if q['out'] is not None:
                    out = lists[q['out'] % len(lists)]
                    if not out:
                        continue
                    if out is not r or q['mseed'] % 2:
                        rs = np.random.RandomState(q['mseed'])
                        mp = [r[rs.randint(len(r))] for _ in out]
                zr = ranges[q['zr']]
                spec = dict(cls='Kcorrect', tmpl=q['tmpl'], resp=list(r), out=None if out is None else list(out),
                            map=None if mp is None else list(mp), zr=[float(v) for v in zr], nz=q['nz'], ab=q['ab'],
                            interp=q['interp'], cosmo=None)
                T = node.template.Template(filename=c.pool(q['tmpl']), interpolate=q['interp'])
                given = tuple(r) if q['tup'] and mp is not None else r
                if given is not r:
                    c.stats['probe:tuple_given'] += 1
                kw = dict(responses=given, templates=T, redshift_range=zr, nredshift=q['nz'], abcorrect=q['ab'])
                if out is not None:
                    kw['responses_out'] = out
                if mp is not None:
                    kw['responses_map'] = mp
                elif q['ret']:
                    kw['responses_map'] = None
                    c.stats['probe:option_set_to_none'] += 1
                before = [list(y) for y in lists], [list(map(float, y)) for y in ranges], list(mp or ())
                k = c.must(lambda: node.kc.Kcorrect(**kw), what)
                if ([list(y) for y in lists], [list(map(float, y)) for y in ranges], list(mp or ())) != before:
                    c.fail('caller-data-changed', what + 'the caller\'s lists were changed')
                c.stats['probe:caller_data_untouched'] += 1
                if any(y.get('from') == id(r) for y in self.slots.values()):
                    c.stats['probe:list_reused'] += 1
                self.slots[s] = dict(obj=k, th=dict(k='kc', spec=spec), src=[id(r), id(out), id(zr)], **{'from': id(r)})
                if mp is not None:
                    mp[:] = mp[::-1] + ['none']
                    self.changed = True
            elif o == 'default':
                resp = model.SDSS5 if q['cls'] == 'KcorrectSDSS' else model.GST10
                spec = dict(cls=q['cls'], tmpl=q['tmpl'], resp=list(resp), out=None, map=None, zr=[0., 2.], nz=q['nz'],
                            ab=q['cls'] == 'KcorrectSDSS', interp=False, cosmo=None)
                k = c.must(lambda: getattr(node.kc, q['cls'])(
                    templates=node.template.Template(filename=c.pool(q['tmpl'])), nredshift=q['nz']), what)
                c.stats['probe:default_arguments'] += 1
                self.slots[s] = dict(obj=k, th=dict(k='kc', spec=spec), src=[], dflt=True)
            elif o == 'deftmpl':
                spec = dict(cls='Kcorrect', tmpl='real:default', resp=['sdss_g0', 'sdss_r0'], out=None, map=None,
                            zr=[0., 2.], nz=3, ab=False, interp=True, cosmo=None)
                k = c.must(lambda: node.kc.Kcorrect(responses=['sdss_g0', 'sdss_r0'], nredshift=3), what)
                c.stats['probe:default_templates'] += 1
                self.slots[s] = dict(obj=k, th=dict(k='kc', spec=spec), src=[], dflt=True)
            elif o == 'fitter':
                r, zr = lists[q['r'] % len(lists)], ranges[q['zr']]
                if not r:
                    continue
                spec = dict(cls='Kcorrect', tmpl=q['tmpl'], resp=list(r), out=None, map=None,
                            zr=[float(v) for v in zr], nz=q['nz'], ab=False, interp=False, cosmo=None)

                def f():
                    k = node.fitter.Fitter(responses=r, redshift_range=zr, nredshift=q['nz'],
                                           templates=node.template.Template(filename=c.pool(q['tmpl'])))
                    k.set_Amatrix()
                    return k
                k = c.must(f, what)
                self.slots[s] = dict(obj=k, th=dict(k='fitter'), M=model.kmodel(spec), src=[id(r), id(zr)])
                c.stats['probe:fitter_built'] += 1
            elif o == 'sed':
                T = fx.tdata(q['tmpl'])
                w = self.buffer('wave', T.wave)
                f = self.buffer('flux', T.flux[0] if q['one'] else T.flux)
                if self.reused:
                    c.stats['probe:buffer_reused'] += 1
                    self.changed = True
                if q['ro']:
                    w.flags.writeable = f.flags.writeable = False
                    c.stats['probe:read_only_buffer'] += 1
                k = c.must(lambda: node.template.SED(wave=w, flux=f, interpolate=q['interp']), what)
                th = dict(k='sed', tmpl=q['tmpl'], one=0 if q['one'] else None, interp=q['interp'])
                self.slots[s] = dict(obj=k, th=th, src=[id(w), id(f)])
                if not np.array_equal(w, T.wave) or not np.array_equal(f, T.flux[0] if q['one'] else T.flux):
                    c.fail('caller-data-changed', what + 'the caller\'s arrays were changed')
                if f.shape != ((T.flux[0] if q['one'] else T.flux).shape):
                    c.fail('caller-data-changed', what + 'the caller\'s arrays were reshaped')
            elif o == 'response':
                b = model.band(q['r'], q['v'])
                w, r = self.buffer('rwave', b.wave), self.buffer('rresp', b.resp)
                if self.reused:
                    c.stats['probe:buffer_reused'] += 1
                    self.changed = True
                if q['ro']:
                    w.flags.writeable = r.flags.writeable = False
                    c.stats['probe:read_only_buffer'] += 1
                k = c.must(lambda: node.response.Response(wave=w, response=r), what)
                self.slots[s] = dict(obj=k, th=dict(k='response', r=q['r'], v=q['v']), src=[id(w), id(r)])
                if not np.array_equal(w, b.wave) or not np.array_equal(r, b.resp):
                    c.fail('caller-data-changed', what + 'the caller\'s arrays were changed')
            elif o == 'file':
                th = q['th']
                same = [y for y in self.slots.values() if y['th'] == th]
                k = c.must(lambda: objs.make(c, node, th), what)
                if same:
                    c.stats['probe:same_file_twice'] += 1
                    if any(y['obj'] is k for y in same):
                        c.fail('configuration-shared', what + 'two loads gave the same object')
                self.slots[s] = dict(obj=k, th=th, src=[])
            elif o == 'list':
                r = lists[q['r'] % len(lists)]
                h = q['how']
                if h == 'append' and q['name'] not in r and len(r) < 5:
                    r.append(q['name'])
                elif h == 'pop' and r:
                    r.pop()
                elif h == 'replace' and r:
                    r[0] = q['name'] if q['name'] not in r else r[0]
                elif h == 'sort':
                    r.sort()
                elif h == 'reverse':
                    r.reverse()
                elif h == 'rotate':
                    r[:] = r[1:] + r[:1]
                elif h == 'clear':
                    r[:] = [q['name']]
                c.stats['probe:list_changed'] += 1
                self.changed = self.changed or any(id(r) in y['src'] for y in self.slots.values())
            elif o == 'range':
                r = ranges[q['r']]
                r[0], r[1] = q['lo'], q['hi']
                c.stats['probe:range_changed'] += 1
                self.changed = self.changed or any(id(r) in y['src'] for y in self.slots.values())
            elif o == 'buffer':
                for b in self.buf.values():
                    b.flags.writeable = True
                    if q['how'] == 'zero':
                        b[...] = 0
                    elif q['how'] == 'scale':
                        b *= 2
                    else:
                        b[...] = b[..., ::-1].copy()
                    self.changed = self.changed or any(id(b) in y['src'] for y in self.slots.values())
                c.stats['probe:buffer_changed'] += 1
            elif x is None:
                continue
            elif o == 'ruin':
                if x['th']['k'] == 'kc':
                    x['obj'].templates.set_redshift(redshift=0.7)
                if x['th']['k'] == 'fitter':
                    x['obj'].responses.append('none')
                elif scribble(x['th'], x['obj']):
                    c.stats['probe:ruined_one_object'] += 1
                if x['th']['k'] == 'kc':
                    for a in ('redshift_range', 'redshifts'):
                        v = getattr(x['obj'], a)
                        if isinstance(v, np.ndarray) and v.flags.writeable:
                            v += 3.
                if x.get('dflt'):
                    c.stats['probe:ruined_default_object'] += 1
                del self.slots[s]
                self.changed = self.changed or bool(self.slots)
                c.stats['probe:other_after_ruin'] += len(self.slots)
            elif o == 'save':
                if x['th']['k'] not in ('sed', 'response', 'kc'):
                    continue
                nf += 1
                p = c.path('s%d.fits' % nf)
                c.must(lambda: objs.save(node, x['th'], x['obj'], p), what)
                y = c.must(lambda: objs.load(c, node, x['th'], p), what)
                e = objs.error(c, node, x['th'], y, seed=q['seed'])
                if e:
                    c.fail('configuration-shared', what + 'what was saved: ' + e)
                if self.changed:
                    c.stats['probe:saved_after_change'] += 1
            elif o == 'query':
                if x['th']['k'] != 'kc':
                    continue
                M = model.kmodel(x['th']['spec'])
                e = c.must(lambda: run_query(c, node, x['obj'], M, q['q']), what)
                if e:
                    c.fail('configuration-shared', '%s%s: %s' % (what, q['q']['o'], e))
            for y in sorted(self.slots):
                self.look(c, node, y, what)
        for y in sorted(self.slots):
            self.look(c, node, y, 'at the end: ', 2, scn.get('seed', 0))

    def nontrivial(self, ctx, scn):
        return self.changed


CHECK = C17()
