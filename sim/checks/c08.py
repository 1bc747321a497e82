"""C08: one catalogue, many ways of splitting the work."""
import numpy as np

import model
from engine import Check
from simsched import SimCrash
from checks.common import *
from checks import objs

CALLS = ('fit', 'kcorrect', 'absmag', 'derived', 'reconstruct')
NANS = ('redshift', 'coeffs', 'inf', 'unmeasured')


class C08(Check):
    id = 'C08'
    rule = ('A case is a catalogue (2-60, sometimes 300 objects, with bad and out-of-range ones) processed '
            'in one piece and again as a random permutation cut into batches (single objects as scalars, '
            'as one-element arrays, larger), dealt to 1-4 simulated worker processes with newly built or '
            'restored K-correction objects, interleaved call by call, with workers killed inside or '
            'between calls and their batches redone. Non-trivial when the work was split. Distinct = '
            'distinct event logs.')
    probes = ('batch_scalar', 'batch_one_element', 'batch_larger', 'batch_empty', 'at_end_of_range', 'worker_restored', 'worker_built',
              'killed_inside_call', 'killed_between_calls', 'out_of_range_object', 'bad_band_object',
              'object_without_data', 'large_catalogue', 'repeated_object', 'nan_object')
    assumptions = ('results of a batch are kept only when all its calls have returned',)

    def gen(self, rng, i, tier):
        spec = objs.gen_thing(rng, [('kc', 1)], small=True)['spec']
        n = pick(rng, [300, 300, 600, 1100, 2100]) if rng.random() < 0.04 else rng.randint(2, 60 if rng.random() < 0.3 else 14)
        nw = rng.randint(1, 4)
        order = list(range(n))
        if rng.random() < 0.8:
            rng.shuffle(order)
        batches = []
        style = pick(rng, ['ones', 'small', 'mixed', 'two'] if n < 500 else ['mixed', 'two'])
        p = 0
        while p < n:
            m = {'ones': 1, 'small': rng.randint(1, 3), 'mixed': rng.randint(1, max(1, n)),
                 'two': (n + 1) // 2}[style]
            m = min(m, n - p)
            batches.append(dict(idx=order[p:p + m],
                                scalar=m == 1 and rng.random() < 0.5))
            p += m
        if rng.random() < 0.3:
            batches.insert(rng.randrange(len(batches) + 1), dict(idx=[], scalar=False))
        ops = []
        for b in batches:
            ops.append(dict(batch=b, w=rng.randrange(nw),
                            kill=rng.random() if rng.random() < 0.12 else None,
                            call=rng.randrange(len(CALLS))))
        return dict(spec=spec, n=n, data=rng.randrange(10**6), ops=ops,
                    workers=[dict(restored=rng.random() < 0.45) for _ in range(nw)],
                    bs=pick(rng, [0., 0.1]), inter=rng.randrange(10**6), edge=rng.random() < 0.3,
                    repeat=rng.random() < 0.3, nan=pick(rng, NANS) if rng.random() < 0.3 else None)

    def valid(self, scn):
        return bool(scn['ops'])

    # -------------------------------------------------------------------
    def call(self, k, what, z, m, iv, co, bs):
        if what == 'fit':
            return [k.fit_coeffs(redshift=z, maggies=m, ivar=iv)]
        if what == 'kcorrect':
            return [k.kcorrect(redshift=z, coeffs=co, band_shift=bs)]
        if what == 'absmag':
            return list(k.absmag(redshift=z, maggies=m, ivar=iv, coeffs=co, band_shift=bs,
                                 reconstruct=True, limit=True, kcorrect=True))
        if what == 'derived':
            d = k.derived(redshift=z, coeffs=co, band_shift=bs)
            return [d[x] for x in sorted(d)]
        return [k.reconstruct(redshift=z, coeffs=co)]

    def run(self, c, scn):
        import random
        spec = scn['spec']
        M = model.kmodel(spec)
        rs = np.random.RandomState(scn['data'])
        n = scn['n']
        z, m, iv = M.photometry(rs, n, bad=0.3, zlo=max(0.004, float(M.zr[0])))
        co = M.coeffs(rs, n)
        if scn['repeat'] and n > 1:
            z[-1], m[-1], iv[-1], co[-1] = z[0], m[0], iv[0], co[0]
            repeats(rs, z, m, iv, co)
            c.stats['probe:repeated_object'] += 1
        if scn.get('edge'):
            z[rs.randint(n)] = M.zr[1]
            if M.zr[0] > 0.004:
                z[rs.randint(n)] = M.zr[0]
            c.stats['probe:at_end_of_range'] += 1
        zf = z.copy()                       # redshifts for fitting: some outside the grid
        for i in range(n):
            if rs.rand() < 0.08 and not (scn['repeat'] and i and zf[i] == zf[i - 1]):
                zf[i] = float(M.zr[1]) + 0.2
                c.stats['probe:out_of_range_object'] += 1
        # one object of which something is not a number (it is not fitted like that): the others must not notice
        nanobj = None
        if scn.get('nan') and n > 1 and not scn['repeat']:
            nanobj = rs.randint(n)
            c.stats['probe:nan_object'] += 1
            if scn['nan'] == 'redshift':
                z[nanobj] = np.nan
            elif scn['nan'] in ('coeffs', 'inf'):
                co[nanobj, rs.randint(co.shape[1])] = np.nan if scn['nan'] == 'coeffs' else np.inf
        m2 = m.copy()
        if nanobj is not None and scn['nan'] == 'unmeasured':
            m2[iv <= 0] = np.nan
            nanobj = None                   # absolute magnitudes of unmeasured bands are missing, whatever their flux
        c.stats['probe:bad_band_object'] += int(np.sum(np.any((iv <= 0) | (m <= 0), axis=1)))
        c.stats['probe:object_without_data'] += int(np.sum(np.all(iv <= 0, axis=1)))
        if n >= 300:
            c.stats['probe:large_catalogue'] += 1
        node = c.boot('ref')
        k = c.must(lambda: build(c, node, spec), 'build')
        path = c.path('setup.fits')
        if any(w['restored'] for w in scn['workers']):
            c.must(lambda: k.tofits(filename=path), 'save')
        ref = {}
        for w in CALLS:
            ref[w] = c.must(lambda: self.call(k, w, zf if w == 'fit' else z, m if w == 'fit' else m2,
                                              iv, co, scn['bs']),
                            'whole catalogue: ' + w)
            for x in ref[w]:
                if np.shape(x)[0] != n:
                    c.fail('wrong-shape', '%s of %d objects has shape %r' % (w, n, np.shape(x)))
        # workers
        W = []
        for i, w in enumerate(scn['workers']):
            W.append(dict(node=None, kc=None, spec=w, queue=[], stage=None))
        for q in scn['ops']:
            W[q['w'] % len(W)]['queue'].append(dict(q))
        rng = random.Random(scn['inter'])
        results = {}
        guard = 0
        while any(w['queue'] for w in W):
            guard += 1
            if guard > 40 * (len(scn['ops']) + 4):
                c.fail('no-progress', 'batches are never finished')
            busy = [i for i, w in enumerate(W) if w['queue']]
            i = busy[rng.randrange(len(busy))]
            w = W[i]
            if w['node'] is None:
                w['node'] = c.boot('w%d' % i)
                if w['spec']['restored']:
                    th = dict(k='kc', spec=spec)
                    w['kc'] = c.must(lambda: objs.load(c, w['node'], th, path), 'restore')
                    c.stats['probe:worker_restored'] += 1
                else:
                    w['kc'] = c.must(lambda: build(c, w['node'], spec), 'build')
                    c.stats['probe:worker_built'] += 1
                w['stage'], w['part'] = 0, {}
            w['node'].activate()
            q = w['queue'][0]
            what = CALLS[w['stage']]
            idx = q['batch']['idx']
            sc = q['batch']['scalar']
            zz = zf if what == 'fit' else z
            mm = m if what == 'fit' else m2
            if sc:
                j = idx[0]
                args = (zz[j], mm[j], iv[j], co[j])
            else:
                args = tuple(x[idx].copy() for x in (zz, mm, iv, co))
            kw = {}
            if q.get('kill') is not None and q['call'] == w['stage']:
                kw = dict(kbd_at=1 + int(q['kill']**2 * (60 + 25 * len(idx))), kbd_exc=SimCrash)
                q['kill'] = None
            r = c.op(lambda: self.call(w['kc'], what, *args, scn['bs']), '%s/%d' % (what, i), **kw)
            if not r.ok:
                if isinstance(r.exc, SimCrash):
                    c.stats['probe:killed_inside_call'] += 1
                    if w['stage']:
                        c.stats['probe:killed_between_calls'] += 1
                    w['node'] = w['kc'] = None
                    r = None
                    continue
                c.fail('batch-failed', '%s of objects %r%s %s although the whole catalogue is accepted'
                       % (what, idx[:6], ' (scalar)' if sc else '', r.describe()))
            w['part'][what] = r.value
            w['stage'] += 1
            if w['stage'] == len(CALLS):
                w['stage'] = 0
                w['queue'].pop(0)
                if not idx:
                    for cc, v in w['part'].items():
                        for x, y in zip(v, ref[cc]):
                            if np.shape(x) != (0,) + np.shape(y)[1:]:
                                c.fail('wrong-shape', '%s of no objects has shape %r' % (cc, np.shape(x)))
                for pos, j in enumerate(idx):
                    results[j] = (i, {cc: [np.asarray(x if sc else self.row(x, pos, len(idx), cc, c))
                                           for x in v] for cc, v in w['part'].items()}, sc, len(idx))
                w['part'] = {}
                c.stats['probe:batch_' + ('scalar' if sc else 'empty' if not idx else 'one_element' if len(idx) == 1 else 'larger')] += 1
        for q in scn['ops']:
            for j in q['batch']['idx']:
                if j not in results:
                    c.fail('object-lost', 'object %d has no result' % j)
        for j in sorted(results):
            i, got, sc, bl = results[j]
            if j == nanobj:
                continue
            rest = scn['workers'][i]['restored']
            tag = 'object %d (%s, %s object): ' % (j, 'scalar' if sc else 'batch of %d' % bl,
                                                  'restored' if rest else 'new')
            e = self.compare(M, got, ref, j, rest, zf, m, iv, tag)
            if e:
                c.fail('depends-on-split', e)

    def row(self, x, pos, n, cc, c):
        if np.shape(x)[:1] != (n,):
            c.fail('wrong-shape', '%s of %d objects has shape %r' % (cc, n, np.shape(x)))
        return np.asarray(x)[pos]

    def compare(self, M, got, ref, j, rest, zf, m, iv, tag):
        for cc in CALLS:
            for a, b in zip(got[cc], ref[cc]):
                b = np.asarray(b)[j]
                if np.shape(a) != np.shape(b):
                    return '%s%s has shape %r, in the whole catalogue %r' % (tag, cc, np.shape(a), np.shape(b))
                if cc == 'fit':
                    mab, ivab = M.inputs(m[j], iv[j])
                    if rest:
                        A = M.at(M.A, zf[j])
                        if A is None:
                            if np.any(a != 0) or np.any(b != 0):
                                return tag + 'coefficients outside the redshift range'
                            continue
                        # restored tables are single precision: compare fitted fluxes
                        x, y = A @ np.asarray(a, 'f8'), A @ np.asarray(b, 'f8')
                        g = ivab > 0
                        s = np.sqrt(ivab)
                        if np.linalg.norm((x - y) * s) > 2e-3 * np.linalg.norm(mab * s) + 1e-300:
                            return '%sfitted fluxes differ from those of the whole catalogue' % tag
                        continue
                    sc = np.abs(b).max()
                    if np.any(np.abs(np.asarray(a, 'f8') - b) > 3e-6 * sc):
                        return '%scoefficients %r, in the whole catalogue %r' % (tag, np.asarray(a), b)
                else:
                    # the reference fits/inputs are the same; only rounding may differ
                    tol = 3e-4 if rest else 6e-5
                    e = model.close(a, np.asarray(b, 'f8'), tol if cc in ('derived', 'reconstruct') else 0.,
                                    1e-30 if cc in ('derived', 'reconstruct') else tol, tag + cc)
                    if e:
                        return e
        return None

    def nontrivial(self, ctx, scn):
        return len(scn['ops']) > 1


CHECK = C08()
