"""Workload shared by several checks: specifications of K-correction objects,
query operations, and their comparison with the reference model."""
import numpy as np
import scipy.interpolate

import fixtures as fx
import model

TOL_MAG = 3e-4
TOL_FLUX = 2e-4


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def sample(rng, seq, n):
    s = list(seq)
    rng.shuffle(s)
    return s[:n]


def weighted(rng, table):
    tot = sum(w for _, w in table)
    x = rng.random() * tot
    for v, w in table:
        x -= w
        if x < 0:
            return v
    return table[-1][0]


def gen_spec(rng, cls=None, tmpl=None, maxband=5, far=0.08, single=0.12, zranges=None, real=0.0):
    cls = cls or weighted(rng, [('Kcorrect', 6), ('KcorrectSDSS', 2.5), ('KcorrectGST', 1.5)])
    zr = pick(rng, zranges or [[0., 1.], [0., 0.5], [0., 0.37], [0., 0.93], [-0.11, 0.83]])
    nz = pick(rng, [3, 4, 6, 9])
    t = tmpl or pick(rng, fx.SMALL)
    interp = rng.random() < 0.5
    farm = cls == 'Kcorrect' and tmpl is None and rng.random() < far
    if farm:
        t = 'far2'
    elif tmpl is None and rng.random() < real:
        t = pick(rng, ['real:default', 'real:lrg1'])
    if cls == 'Kcorrect':
        n = 1 if rng.random() < single else rng.randint(2, maxband)
        resp = sample(rng, fx.OPTICAL, n)
    elif cls == 'KcorrectSDSS':
        resp = list(model.SDSS5)
    else:
        resp = list(model.GST10)
        interp = False
        nz = pick(rng, [3, 4])
    if cls != 'Kcorrect':
        interp = False
    out = mp = None
    u = rng.random()
    if u < 0.2 and cls == 'Kcorrect':
        out = sample(rng, fx.OPTICAL, len(resp))
    elif u < 0.6:
        m = rng.randint(1, 4)
        out = sample(rng, fx.OPTICAL, m)
        mp = [pick(rng, resp) for _ in out]
    elif u < 0.68 and len(resp) > 1:
        out = list(resp)
        rng.shuffle(out)
    if farm:
        o2 = pick(rng, fx.SUNLESS)
        base = out or list(resp)
        out = list(base) + [o2]
        mp = (mp or list(resp)) + [pick(rng, resp)]
    ab = (cls == 'KcorrectSDSS') if rng.random() < 0.5 else rng.random() < 0.5
    return dict(cls=cls, tmpl=t, resp=resp, out=out, map=mp, zr=zr, nz=nz, ab=ab,
                interp=interp, cosmo=pick(rng, [None, None, None, 'H70']))


def twist(rng, spec, resp=True):
    """A setup that differs from `spec` in one thing only."""
    s = dict(spec)
    zr = list(s['zr'])
    how = weighted(rng, [('hi', 3), ('lo', 1), ('nz', 2), ('ab', 1), ('out', 2), ('outsame', 1), ('cosmo', 0.7)] +
                   ([('order', 2), ('swap', 2), ('fewer', 1)] if resp and s['cls'] == 'Kcorrect' else []))
    if how == 'hi':
        zr[1] = pick(rng, [x for x in (0.3, 0.5, 0.51, 0.9, 1.2) if x != zr[1]])
    elif how == 'lo':
        zr[0] = pick(rng, [x for x in (0., -0.05, -0.02, -0.1) if x != zr[0]])
    elif how == 'nz':
        s['nz'] = pick(rng, [x for x in (3, 4, 5, 7) if x != s['nz']])
    elif how == 'ab':
        s['ab'] = not s['ab']
    elif how == 'cosmo':
        s['cosmo'] = 'H70' if s.get('cosmo') is None else None
    elif how == 'out':
        s['out'] = sample(rng, fx.OPTICAL, rng.randint(1, 3))
        s['map'] = [pick(rng, s['resp']) for _ in s['out']]
    elif how == 'outsame':
        s['out'] = list(s['resp'])
        rng.shuffle(s['out'])
        s['map'] = [pick(rng, s['resp']) for _ in s['out']]
    else:
        r = list(s['resp'])
        if how == 'order' and len(r) > 1:
            r = r[1:] + r[:1]
        elif how == 'fewer' and len(r) > 1:
            r = r[:-1]
        else:
            r[rng.randrange(len(r))] = pick(rng, [x for x in fx.OPTICAL if x not in r])
        s['resp'] = r
        if s.get('map') is not None:
            s['map'] = [m if m in r else pick(rng, r) for m in s['map']]
        elif s.get('out') is not None and len(s['out']) != len(r):
            s['map'] = [pick(rng, r) for _ in s['out']]
    s['zr'] = zr
    return s


def build(c, node, spec, templates=None):
    """Construct the real object."""
    t = templates
    if t is None:
        t = node.template.Template(filename=c.pool(spec['tmpl']),
                                   interpolate=spec.get('interp', False))
    kw = dict(responses=list(spec['resp']), templates=t, redshift_range=list(spec['zr']), nredshift=spec['nz'])
    if spec['ab'] != (spec['cls'] == 'KcorrectSDSS') or (spec['nz'] + len(spec['resp'])) % 2:
        kw['abcorrect'] = spec['ab']        # left out half of the times it is the default
    if spec['cls'] != 'Kcorrect' and spec['nz'] % 2:
        kw.pop('responses')
    if spec.get('out'):
        kw['responses_out'] = list(spec['out'])
    if spec.get('map'):
        kw['responses_map'] = list(spec['map'])
    if spec.get('cosmo'):
        kw['cosmo'] = model.COSMO[spec['cosmo']]
    return getattr(node.kc, spec['cls'])(**kw)


QOPS = [('fit', 5), ('fitmc', 1.5), ('kcorrect', 4), ('absmag', 5), ('derived', 4),
        ('reconstruct', 2), ('reconstruct_out', 2), ('absmag_mc', 1), ('derived_mc', 1),
        ('to_ab', 1), ('asinh', 1.2), ('out_of_range', 0.7), ('floor', 0.6), ('abfix', 0.5),
        ('flambda', 0.6), ('refused', 0.7)]


def gen_query(rng, nk, ops=None, maxn=4):
    o = weighted(rng, ops or QOPS)
    n = None if rng.random() < 0.4 else (1 if rng.random() < 0.35 else rng.randint(2, maxn))
    q = dict(o=o, kc=rng.randrange(nk), n=n, seed=rng.randrange(10**6),
             form=weighted(rng, [('f4', 5), ('f8', 2), ('ro', 1), ('nc', 1), ('list', 1), ('be', 0.5), ('fo', 0.5)]))
    if rng.random() < 0.3:
        # successive queries share some of their arguments
        q['seed'] = rng.randrange(4)
        if rng.random() < 0.6:
            q['vary'] = [rng.randrange(4), rng.randrange(10**6)]
    if n is not None and n > 1 and rng.random() < 0.25:
        q['rep'] = rng.randrange(10**6)
    if o in ('kcorrect', 'absmag', 'derived', 'absmag_mc', 'derived_mc', 'reconstruct_out',
             'reconstruct'):
        q['bs'] = pick(rng, [0., 0., 0.1, 0.25])
    if o in ('absmag', 'derived', 'absmag_mc', 'derived_mc') and rng.random() < 0.3:
        q['dist'] = True
    if o in ('absmag', 'absmag_mc'):
        q['flags'] = [rng.random() < 0.4 for _ in range(3)]
    if o in ('fitmc', 'absmag_mc', 'derived_mc'):
        q['mc'] = rng.randint(1, 4)
    if o == 'to_ab':
        q['noivar'] = rng.random() < 0.4
    if rng.random() < 0.25:
        q['cat'] = True
    elif rng.random() < 0.12 and not q.get('bs'):
        q['edge'] = pick(rng, [0, 1, 1])
    return q


def form(a, how):
    a = np.asarray(a)
    if how == 'f8':
        return a.astype('f8')
    if how == 'ro':
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == 'nc' and a.ndim >= 1:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == 'list':
        return a.tolist()
    if how == 'be':
        return a.astype(a.dtype.newbyteorder('>'))
    if how == 'fo':
        return np.asfortranarray(a)
    return a.copy()


def snap(a):
    return np.array(a, copy=True)


def same(a, b):
    return np.array_equal(np.asarray(a), b, equal_nan=True)


class Catalogue:
    """Arrays owned by the client and passed to several calls."""

    def __init__(self, m, seed, n=4):
        rs = np.random.RandomState(seed % (2**32 - 1))
        self.z, self.m, self.iv = m.photometry(rs, n)
        self.c = m.coeffs(rs, n)
        self.orig = [snap(x) for x in (self.z, self.m, self.iv, self.c)]

    def check(self):
        for nm, a, b in zip(('redshift', 'maggies', 'ivar', 'coeffs'),
                            (self.z, self.m, self.iv, self.c), self.orig):
            if not same(a, b):
                return 'the caller\'s %s array was modified' % nm
        return None


def repeats(rs, *arrays):
    """Objects that have some of their values in common with an earlier one."""
    for i in range(1, len(arrays[0])):
        if rs.rand() < 0.6:
            j = i - 1 if rs.rand() < 0.7 else rs.randint(i)
            for a in arrays:
                if rs.rand() < 0.6:
                    a[i] = a[j]


def prepare(M, q, cat=None):
    """Arguments of a query: (kwargs-ready arrays, per-object reference data)."""
    rs = np.random.RandomState(q['seed'])
    n = q['n']
    nn = 1 if n is None else n
    o = q['o']
    zlo = zhi = None
    if o in ('kcorrect', 'absmag', 'derived', 'absmag_mc', 'derived_mc'):
        zlo = max(0.004, float(M.zr[0]))
    if o in ('reconstruct',):
        zlo = max(0.002, float(M.zr[0]))
        zhi = (1. + float(M.zr[1])) / (1. + q.get('bs', 0.)) - 1. - 1e-3
    if cat is not None and q.get('cat') and o not in ('reconstruct', 'to_ab', 'asinh'):
        idx = rs.permutation(len(cat.z))[:nn]
        if zlo is not None:
            ok = cat.orig[0][idx] > zlo
            idx = idx[ok]
        if len(idx) == nn:
            z, m, iv, c = cat.orig[0][idx], cat.orig[1][idx], cat.orig[2][idx], cat.orig[3][idx]
            lo = idx.min()
            if n is None:
                live = (cat.z[idx[0]], cat.m[idx[0]], cat.iv[idx[0]], cat.c[idx[0]])
            elif len(set(range(lo, lo + nn)) & set(idx.tolist())) == nn:
                z, m, iv, c = [x[lo:lo + nn].copy() for x in cat.orig]
                live = (cat.z[lo:lo + nn], cat.m[lo:lo + nn], cat.iv[lo:lo + nn], cat.c[lo:lo + nn])
            else:
                live = (z.copy(), m.copy(), iv.copy(), c.copy())
            return n, z, m, iv, c, live, rs
    z, m, iv = M.photometry(rs, nn, zlo=zlo, zhi=zhi,
                            outside=0.12 if o in ('fit', 'fitmc') else 0.)
    c = M.coeffs(rs, nn)
    if q.get('vary'):
        which, seed = q['vary']
        r2 = np.random.RandomState(seed)
        z2, m2, iv2 = M.photometry(r2, nn, zlo=zlo, zhi=zhi)
        z, m, iv, c = [(z, m, iv, c)[i] if i != which else (z2, m2, iv2, M.coeffs(r2, nn))[i] for i in range(4)]
    if q.get('rep') is not None and n is not None:
        repeats(np.random.RandomState(q['rep']), z, m, iv, c)
    iv[m < -1.] = 0.
    if q.get('edge') is not None and not q.get('bs'):
        z = z.copy()
        z[rs.randint(nn)] = M.zr[q['edge']]
    if zlo is not None:
        z = np.maximum(z, np.float32(zlo))
    f = q.get('form', 'f4')
    if n is None:
        live = (form(z[0], 'f8' if f == 'f8' else 'f4')[()], form(m[0], f), form(iv[0], f), form(c[0], f))
    else:
        live = (form(z, f), form(m, f), form(iv, f), form(c, f))
    return n, z, m, iv, c, live, rs


def _rows(x, n):
    """View results as [object, ...]."""
    x = np.asarray(x)
    return x[None] if n is None else x


def _shape(x, exp, what):
    s = np.shape(x)
    if s != exp:
        return '%s has shape %r, expected %r' % (what, s, exp)
    return None


class CodeRaised(Exception):
    """The code under test raised (as opposed to the harness)."""

    def __init__(self, exc):
        super().__init__('%s: %s' % (type(exc).__name__, exc))
        self.exc = exc


def call(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as x:
        raise CodeRaised(x)


REQ = object()
SIGNATURE = {
    'fit_coeffs': (('redshift', REQ), ('maggies', REQ), ('ivar', REQ), ('mc', 0)),
    'fit_coeffs_asinh': (('redshift', REQ), ('mag', REQ), ('mag_err', REQ), ('extinction', None)),
    'reconstruct': (('redshift', REQ), ('coeffs', REQ), ('band_shift', 0.)),
    'absmag': (('maggies', REQ), ('ivar', REQ), ('redshift', REQ), ('coeffs', REQ), ('band_shift', 0.),
               ('distance', None), ('reconstruct', False), ('limit', False), ('kcorrect', False)),
    'absmag_mc': (('maggies_mc', REQ), ('ivar', REQ), ('redshift', REQ), ('coeffs_mc', REQ), ('band_shift', 0.),
                  ('distance', None), ('reconstruct', False), ('kcorrect', False)),
    'derived': (('redshift', REQ), ('coeffs', REQ), ('band_shift', 0.), ('distance', None)),
    'derived_mc': (('redshift', REQ), ('coeffs_mc', REQ), ('band_shift', 0.), ('distance', None)),
}
SIGNATURE['reconstruct_out'] = SIGNATURE['kcorrect'] = SIGNATURE['reconstruct']


def ask(q, k, name, **kw):
    """Call the method as different clients would: everything named, defaults left
    out, or by position as documented."""
    style = (q['seed'] * 2654435761 // 4096) % 4
    sig = SIGNATURE[name]
    pos = []
    if style >= 2:
        kw = {a: b for a, b in kw.items() if not any(a == n and (b is d or (d is not None and d is not REQ and
              isinstance(b, (bool, int, float)) and b == d)) for n, d in sig)}
    if style == 3:
        for n, d in sig:
            if n not in kw:
                if not kw:
                    break
                pos.append(d)
            else:
                pos.append(kw.pop(n))
    return call(getattr(k, name), *pos, **kw)


@model.guard
def run_query(c, node, k, M, q, cat=None, scribble=True):
    """Execute a query on the real object k and compare with the model.
    Returns None or a description of what is wrong. Exceptions from the code
    under test propagate."""
    o = q['o']
    if o in ('to_ab', 'asinh'):
        return _run_ab(c, node, k, M, q)
    if o == 'out_of_range':
        return _run_oor(c, node, k, M, q)
    if o in ('floor', 'abfix', 'flambda'):
        return _run_util(node, M, q)
    if o == 'refused':
        return _run_refused(k, M, q)
    n, z, m, iv, co, live, rs = prepare(M, q, cat)
    lz, lm, liv, lc = live
    nn = 1 if n is None else n
    pre = [snap(x) for x in live]
    bs = q.get('bs', 0.)
    dist = None
    if q.get('dist'):
        dist = np.float32(rs.uniform(1., 4000., size=nn))
        ldist = dist[0] if n is None else form(dist, q.get('form', 'f4'))
        pdist = snap(ldist)
    else:
        ldist = None
    kw = dict(redshift=lz)
    lead = () if n is None else (n,)
    outs = []
    err = None
    nout, nb, ns = len(M.out), len(M.resp), M.nsed
    mab, ivab = M.inputs(m, iv)
    D = lambda i: None if dist is None else dist[i]
    if o == 'fit':
        r = ask(q, k, 'fit_coeffs', redshift=lz, maggies=lm, ivar=liv)
        outs = [r]
        err = _shape(r, lead + (ns,), 'coefficients')
        if not err:
            for i, row in enumerate(_rows(r, n)):
                err = M.check_fit1(z[i], mab[i], ivab[i], row, 'object %d: ' % i)
                if err:
                    break
    elif o == 'fitmc':
        mc = q['mc']
        r = ask(q, k, 'fit_coeffs', redshift=lz, maggies=lm, ivar=liv, mc=mc)
        if not (isinstance(r, tuple) and len(r) == 3):
            return 'Monte Carlo fit returned %d results, expected 3' % (len(r) if isinstance(r, tuple) else 1)
        outs = list(r)
        err = (_shape(r[0], lead + (ns,), 'coefficients') or
               _shape(r[1], lead + (ns, mc), 'Monte Carlo coefficients') or
               _shape(r[2], lead + (nb, mc), 'Monte Carlo maggies'))
        if not err:
            err = check_mc(M, z, mab, ivab, [_rows(x, n) for x in r])
    elif o in ('reconstruct', 'reconstruct_out'):
        if o == 'reconstruct_out' and bs:
            lz, z = _fit_shift(M, lz, z, bs)
            pre[0] = snap(lz)
            live = (lz,) + tuple(live[1:])
        r = ask(q, k, o, redshift=lz, coeffs=lc, band_shift=bs)
        outs = [r]
        exp = np.array([M.rec1(z[i], co[i], bs, out=(o == 'reconstruct_out')) for i in range(nn)])
        exp = exp[0] if n is None else exp
        err = model.close(r, exp, TOL_FLUX, 1e-30, 'reconstructed maggies')
    elif o == 'kcorrect':
        r = ask(q, k, 'kcorrect', redshift=lz, coeffs=lc, band_shift=bs)
        outs = [r]
        exp = np.array([M.k1(z[i], co[i], bs) for i in range(nn)])
        exp = exp[0] if n is None else exp
        err = model.close(r, exp, 0, TOL_MAG, 'K-correction')
    elif o == 'absmag':
        fl = q['flags']
        r = ask(q, k, 'absmag', redshift=lz, maggies=lm, ivar=liv, coeffs=lc, band_shift=bs, distance=ldist,
                     reconstruct=fl[0], limit=fl[1], kcorrect=fl[2])
        names = ['absmag'] + [x for x, f in zip(('recon', 'limit', 'k'), fl) if f]
        r = r if len(names) > 1 else (r,)
        if not isinstance(r, tuple) or len(r) != len(names):
            return 'absmag returned %r results, expected %r' % (len(r), names)
        outs = list(r)
        for nm, x in zip(names, r):
            err = check_absmag(M, nm, x, n, z, mab, ivab, co, bs, D)
            if err:
                break
    elif o == 'derived':
        r = ask(q, k, 'derived', redshift=lz, coeffs=lc, band_shift=bs, distance=ldist)
        outs = [v for v in r.values()]
        err = check_derived(M, r, n, z, co, bs, D)
    elif o in ('absmag_mc', 'derived_mc'):
        mc = q['mc']
        cm = np.stack([M.coeffs(rs, nn) for _ in range(mc)], axis=-1)
        mm = np.stack([np.float32(m * (1. + 0.05 * rs.normal(size=m.shape))) for _ in range(mc)],
                      axis=-1)
        lcm = cm[0] if n is None else cm
        lmm = mm[0] if n is None else mm
        pc, pm = snap(lcm), snap(lmm)
        if o == 'derived_mc':
            r = ask(q, k, 'derived_mc', redshift=lz, coeffs_mc=lcm, band_shift=bs, distance=ldist)
            outs = list(r.values())
            for j in range(mc):
                err = check_derived(M, {a: np.asarray(b)[..., j] for a, b in r.items()}, n, z,
                                    cm[..., j], bs, D)
                if err:
                    err = 'draw %d: %s' % (j, err)
                    break
        else:
            fl = q['flags']
            r = ask(q, k, 'absmag_mc', redshift=lz, maggies_mc=lmm, ivar=liv, coeffs_mc=lcm, band_shift=bs,
                            distance=ldist, reconstruct=fl[0], kcorrect=fl[2])
            names = ['absmag'] + (['recon'] if fl[0] else []) + (['k'] if fl[2] else [])
            r = r if len(names) > 1 else (r,)
            if not isinstance(r, tuple) or len(r) != len(names):
                return 'absmag_mc returned %r results, expected %r' % (len(r), names)
            outs = list(r)
            for nm, x in zip(names, r):
                err = _shape(x, lead + (nout, mc), nm)
                if err:
                    break
                for j in range(mc):
                    mj, ij = M.inputs(mm[..., j], iv)
                    err = check_absmag(M, nm, np.asarray(x)[..., j], n, z, mj, ij,
                                       cm[..., j], bs, D)
                    if err:
                        err = 'draw %d: %s' % (j, err)
                        break
                if err:
                    break
        if not err and not (same(lcm, pc) and same(lmm, pm)):
            err = 'the caller\'s Monte Carlo arrays were modified'
    else:
        raise AssertionError(o)
    if err:
        return err
    for nm, a, b in zip(('redshift', 'maggies', 'ivar', 'coeffs'), live, pre):
        if not same(a, b):
            return 'the caller\'s %s array was modified' % nm
    if dist is not None and not same(ldist, pdist):
        return 'the caller\'s distance array was modified'
    if scribble:
        for x in outs:
            if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == 'f' and \
                    not any(isinstance(y, np.ndarray) and np.may_share_memory(x, y) for y in live):
                x[...] = -77.
    return None


def _fit_shift(M, lz, z, bs):
    """Clip redshifts so that the shifted band stays inside the grid."""
    zmax = np.float32((1. + float(M.zr[1])) / (1. + bs) - 1. - 1e-3)
    z = np.minimum(np.maximum(z, np.float32(0.)), zmax)
    return (z[0] if np.ndim(lz) == 0 else z.copy()), z


@model.guard
def check_mc(M, z, mab, ivab, rows, strict=True):
    c0, cm, mm = rows
    for i in range(len(z)):
        e = M.check_fit1(z[i], mab[i], ivab[i], c0[i], 'object %d: ' % i)
        if e:
            return e
        oor = M.at(M.A, z[i]) is None
        alls = []
        for j in range(cm.shape[-1]):
            mj = np.asarray(mm[i][:, j], 'f8')
            if not np.all(np.isfinite(mj)):
                return 'object %d draw %d: maggies not finite' % (i, j)
            if oor:
                if np.any(cm[i][:, j] != 0):
                    return 'object %d: Monte Carlo coefficients outside the redshift range' % i
                continue
            bad = ivab[i] <= 0
            if not np.allclose(mj[bad], np.asarray(mab[i], 'f8')[bad], rtol=1e-5):
                return 'object %d draw %d: a band without measurement was perturbed' % (i, j)
            s = (mj - mab[i])[~bad] * np.sqrt(ivab[i][~bad])
            if np.any(np.abs(s) > 8.):
                return 'object %d draw %d: perturbation of %.3g sigma' % (i, j, np.abs(s).max())
            alls.extend(np.abs(s))
            e = M.check_fit1(z[i], mj, ivab[i], cm[i][:, j], 'object %d draw %d: ' % (i, j))
            if e:
                return e
        if len(alls) >= 4 and max(alls) < 1e-3:
            return 'object %d: maggies were not perturbed' % i
    return None


@model.guard
def check_absmag(M, nm, x, n, z, mab, ivab, co, bs, D):
    nn = len(z)
    nout = len(M.out)
    e = _shape(x, ((nout,) if n is None else (n, nout)), nm)
    if e:
        return e
    x = _rows(x, n)
    for i in range(nn):
        ref = M.absmag1(z[i], mab[i], ivab[i], co[i], bs, D(i))
        if not co[i].sum() > 0 and nm == 'absmag':
            continue
        e = model.close(x[i], ref[nm], 0., TOL_MAG * 2, 'object %d %s' % (i, nm))
        if e:
            return e
    return None


DKEYS = ('mremain', 'intsfh', 'b50', 'b300', 'b1000', 'metallicity')


@model.guard
def check_derived(M, r, n, z, co, bs, D):
    for k in DKEYS + ('mtol',):
        if k not in r:
            return 'derived quantities lack %r' % k
    nn = len(z)
    for i in range(nn):
        ref = M.derived1(z[i], co[i], bs, D(i))
        for k in DKEYS + ('mtol',):
            e = _shape(r[k], (() if n is None else (n,)) + (() if k != 'mtol' else (len(M.out),)), k)
            if e:
                return e
            v = np.asarray(r[k])
            v = v if n is None else v[i]
            e = model.close(v, ref[k], 1.5e-3, 1e-30, 'object %d %s' % (i, k))
            if e:
                return e
    return None


def _run_ab(c, node, k, M, q):
    n = q['n']
    rs = np.random.RandomState(q['seed'])
    nn = 1 if n is None else n
    if q['o'] == 'to_ab':
        m = np.float32(10.**rs.uniform(-10, -8, size=(nn, len(M.resp))))
        iv = np.float32(10.**rs.uniform(18, 20, size=m.shape))
        lm, liv = (m[0].copy(), iv[0].copy()) if n is None else (m.copy(), iv.copy())
        if q.get('form') == 'ro':
            lm.flags.writeable = liv.flags.writeable = False
        em, ei = M.to_ab(m, iv)
        if n is None:
            em, ei = em[0], ei[0]
        pm, pi = snap(lm), snap(liv)
        if q.get('noivar'):
            r = call(k.to_ab, maggies=lm)
            if isinstance(r, tuple):
                return 'to_ab without ivar returned a tuple'
            e = model.close(r, em, 1e-5, 0, 'AB maggies')
        else:
            r = call(k.to_ab, maggies=lm, ivar=liv)
            e = (model.close(r[0], em, 1e-5, 0, 'AB maggies') or
                 model.close(r[1], ei, 1e-5, 0, 'AB ivar'))
        if e:
            return e
        if not (same(lm, pm) and same(liv, pi)):
            return 'to_ab modified its input'
        return None
    if M.cls != 'KcorrectSDSS':
        # asinh conversion through the utility, any object
        return _asinh_util(node, q, nn)
    z, m, iv = M.photometry(rs, nn, bad=0.)
    b0 = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10])
    mag = np.float32(rs.uniform(17., 22., size=(nn, 5)))
    err = np.float32(rs.uniform(0.01, 0.2, size=(nn, 5)))
    ext = np.float32(rs.uniform(0., 0.3, size=(nn, 5))) if q['seed'] % 2 else None
    mg, ivv = asinh_ref(mag, err, ext)
    args = dict(redshift=z[0] if n is None else z.copy(), mag=mag[0] if n is None else mag.copy(),
                mag_err=err[0] if n is None else err.copy())
    if ext is not None:
        args['extinction'] = ext[0] if n is None else ext.copy()
    pre = {a: snap(b) for a, b in args.items()}
    r = ask(q, k, 'fit_coeffs_asinh', **args)
    e = _shape(r, (M.nsed,) if n is None else (n, M.nsed), 'coefficients')
    if e:
        return e
    ma, ia = M.inputs(mg, ivv)
    for i, row in enumerate(_rows(r, n)):
        e = M.check_fit1(z[i], ma[i], ia[i], row, 'object %d: ' % i)
        if e:
            return e
    for a in args:
        if not same(args[a], pre[a]):
            return 'the caller\'s %s array was modified' % a
    return None


def asinh_ref(mag, err, ext):
    b0 = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10])
    x = -np.log(b0) - 0.4 * np.log(10.) * mag.astype('f8')
    mg = 2. * b0 * np.sinh(x)
    if ext is not None:
        mg = mg * 10.**(0.4 * ext.astype('f8'))
    e = 2. * b0 * np.cosh(x) * 0.4 * np.log(10.) * err.astype('f8')
    if ext is not None:
        e = e * 10.**(0.4 * ext.astype('f8'))
    return mg, 1. / e**2


def _asinh_util(node, q, nn):
    rs = np.random.RandomState(q['seed'])
    mag = np.float32(rs.uniform(17., 24., size=(nn, 5)))
    err = np.float32(rs.uniform(0.01, 0.2, size=(nn, 5)))
    ext = np.float32(rs.uniform(0., 0.3, size=(nn, 5))) if q['seed'] % 2 else None
    if q['n'] is None:
        mag, err = mag[0], err[0]
        ext = None if ext is None else ext[0]
    pre = [snap(mag), snap(err), snap(ext) if ext is not None else None]
    em, ei = asinh_ref(mag, err, ext)
    if q['seed'] % 5 == 0:
        r = call(node.utils.sdss_asinh_to_maggies, mag=mag, extinction=ext)
        if isinstance(r, tuple):
            return 'magnitudes without errors gave %d results' % len(r)
        r = (r, ei)
    else:
        r = call(node.utils.sdss_asinh_to_maggies, mag=mag, mag_err=err, extinction=ext)
    e = (model.close(r[0], em, 1e-4, 3e-14, 'maggies') or
         model.close(r[1], ei, 1e-4, 0, 'inverse variance'))
    if not e and not (same(mag, pre[0]) and same(err, pre[1]) and (ext is None or same(ext, pre[2]))):
        e = 'the caller\'s magnitudes were modified'
    return e


ABFIX = (-0.036, 0.012, 0.010, 0.028, 0.040)


def _run_util(node, M, q):
    """Photometric utilities a client calls between its queries."""
    rs = np.random.RandomState(q['seed'])
    n, o = q['n'], q['o']
    nn = 1 if n is None else n
    nb = {'floor': len(M.resp), 'abfix': 5, 'flambda': len(M.resp)}[o]
    m = np.float32(10.**rs.uniform(-10, -8, size=(nn, nb)) * np.where(rs.rand(nn, nb) < 0.1, -1., 1.))
    iv = np.float32((10.**rs.uniform(0., 3., size=m.shape) / m)**2)
    if o == 'flambda':
        iv = np.float32(10.**rs.uniform(15, 17, size=m.shape))
    iv[rs.rand(nn, nb) < 0.15] = 0.
    if n is None:
        m, iv = m[0], iv[0]
    f = q.get('form', 'f4')
    if f == 'list' and o == 'flambda':
        f = 'f4'                      # documented to take arrays
    lm, liv = form(m, f), form(iv, f)
    pre = [snap(lm), snap(liv)]
    noivar = o != 'floor' and rs.rand() < 0.3
    extra = []
    if o == 'floor':
        fl = rs.choice([0., 0.01, 0.05, 0.1], size=nb)
        lf = fl.tolist() if rs.rand() < 0.3 else fl.copy()
        extra = [(lf, snap(lf), 'error floor')]
        r = call(node.utils.error_floor, floor=lf, maggies=lm, ivar=liv)
        ei = iv.astype('f8')
        with np.errstate(all='ignore'):
            low = (ei > 0) & (1. / (np.abs(m.astype('f8')) * np.sqrt(ei)) < fl)
            ei = np.where(low, 1. / (np.abs(m.astype('f8')) * fl)**2, ei)
        e = model.close(r, ei, 1e-4, 0, 'inverse variance')
        r = (r,)
    elif o == 'abfix':
        fix = rs.uniform(-0.1, 0.1, size=5) if rs.rand() < 0.5 else None
        kw = dict(maggies=lm)
        if not noivar:
            kw['ivar'] = liv
        if fix is not None:
            kw['abfix'] = lf = fix.tolist() if rs.rand() < 0.5 else fix.copy()
            extra = [(lf, snap(lf), 'offsets')]
        r = call(node.utils.sdss_ab_correct, **kw)
        if noivar:
            if isinstance(r, tuple):
                return 'AB correction without ivar returned %d results' % len(r)
            r = (r,)
        fac = 10.**(-0.4 * np.asarray(ABFIX if fix is None else fix))
        e = model.close(r[0], m * fac, 1e-5, 0, 'AB maggies')
        if not e and not noivar:
            e = model.close(r[1], iv / fac**2, 1e-5, 0, 'AB ivar')
    else:
        r = call(node.utils.maggies2flambda, maggies=lm, ivar=None if noivar else liv, responses=list(M.resp))
        if len(r) != (2 if noivar else 3):
            return 'maggies2flambda returned %d results' % len(r)
        lam = np.array([model.band(x, M.versions.get(x, 0)).lambda_eff for x in M.resp])
        m2f = 3.631e-2 * 2.99792 / lam**2
        e = (model.close(r[0], lam, 1e-4, 0, 'effective wavelengths') or
             model.close(r[1], m * m2f, 3e-4, 0, 'flux'))
        if not e and not noivar:
            e = model.close(r[2], iv / m2f**2, 6e-4, 0, 'flux inverse variance')
    if e:
        return e
    for a, b, nm in [(lm, pre[0], 'maggies'), (liv, pre[1], 'ivar')] + extra:
        if not same(a, b):
            return 'the caller\'s %s were modified' % nm
    for x in r:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = -77.
    if not (same(lm, pre[0]) and same(liv, pre[1])):
        return 'the result is the caller\'s array'
    return None


def _run_refused(k, M, q):
    """Arguments that do not belong together are refused, whatever the other arguments."""
    rs = np.random.RandomState(q['seed'])
    n = q['n']
    nn = 1 if n is None else n
    z, m, iv = M.photometry(rs, nn, zlo=max(0.004, float(M.zr[0])))
    co = M.coeffs(rs, nn, zeros=0.)
    if n is None:
        z, m, iv, co = z[0], m[0], iv[0], co[0]
    which = ('redshift', 'maggies', 'ivar', 'coeffs')[rs.randint(4)]
    a = dict(redshift=z, maggies=m, ivar=iv, coeffs=co)
    how = rs.randint(4)
    x = a[which]
    if which == 'redshift':
        x = None if how == 0 else (np.zeros((nn, 2), 'f4') if how == 1 else np.resize(z, nn + 1))
    elif how == 0:
        x = np.concatenate([x, x[..., :1]], axis=-1)            # one band or template too many
    elif how == 1:
        x = x[..., :-1]
    elif how == 2 and n is not None and which != 'redshift':
        x = np.concatenate([x, x[:1]])                          # one object too many
    else:
        x = x[0] if n is not None else x[None]                  # wrong number of dimensions
    a[which] = x
    pre = {i: snap(j) for i, j in a.items() if j is not None}
    use = 'fit_coeffs' if which in ('maggies', 'ivar') and rs.rand() < 0.5 else 'absmag'
    if which in ('redshift', 'coeffs') and rs.rand() < 0.6:
        use = ('kcorrect', 'derived', 'reconstruct', 'reconstruct_out')[rs.randint(4)]
    names = {'fit_coeffs': ('redshift', 'maggies', 'ivar'), 'absmag': tuple(a)}.get(use, ('redshift', 'coeffs'))
    try:
        call(getattr(k, use), **{i: a[i] for i in names})
    except CodeRaised as x:
        if isinstance(x.exc, (ValueError, TypeError)):
            for i in pre:
                if not same(a[i], pre[i]):
                    return 'the caller\'s %s was modified' % i
            return None
        raise
    return '%s() with a %s of shape %r was answered' % (use, which, None if a[which] is None else np.shape(a[which]))


def _run_oor(c, node, k, M, q):
    """K-corrections outside the grid are refused; coefficient fits give zeros."""
    rs = np.random.RandomState(q['seed'])
    z = np.float32(float(M.zr[1]) + 0.3 if rs.rand() < 0.7 else float(M.zr[0]) - 0.1)
    co = M.coeffs(rs, 2, zeros=0.)
    use = ('kcorrect', 'kcorrect', 'reconstruct', 'reconstruct_out', 'absmag', 'shifted')[rs.randint(6)]
    kw = dict(redshift=np.float32([0.05, z]), coeffs=co)
    if use == 'absmag':
        kw.update(maggies=np.full((2, len(M.resp)), 1e-9, 'f4'), ivar=np.full((2, len(M.resp)), 1e20, 'f4'))
    elif use == 'shifted':
        # the redshift is inside, but not the shifted bands
        kw.update(redshift=np.float32([0.05, M.zr[1]]), band_shift=0.1)
        use = ('reconstruct', 'reconstruct_out')[rs.randint(2)]
    if q['n'] is None:
        kw = {i: j if i == 'band_shift' else j[1] for i, j in kw.items()}
    elif q['n'] == 1:
        kw = {i: j if i == 'band_shift' else j[1:] for i, j in kw.items()}
    try:
        call(getattr(k, use), **kw)
    except CodeRaised as x:
        if isinstance(x.exc, ValueError):
            return None
        raise
    return '%s() outside the redshift range was answered' % use


@model.guard
def config_error(k, M, what=''):
    """None if object k has exactly the configuration of model M."""
    def lst(x):
        return [str(y) for y in x]
    if lst(k.responses) != M.resp:
        return '%sresponses %r, expected %r' % (what, lst(k.responses), M.resp)
    if lst(k.responses_out) != M.out:
        return '%sresponses_out %r, expected %r' % (what, lst(k.responses_out), M.out)
    if lst(k.responses_map) != M.map:
        return '%sresponses_map %r, expected %r' % (what, lst(k.responses_map), M.map)
    if [int(x) for x in k.imap] != M.imap:
        return '%simap %r, expected %r' % (what, list(k.imap), M.imap)
    if np.size(k.nredshift) != 1 or int(k.nredshift) != len(M.z):
        return '%snredshift %r, expected %d' % (what, k.nredshift, len(M.z))
    e = (model.close(k.redshift_range, M.zr, 1e-6, 1e-7, what + 'redshift_range') or
         model.close(k.redshifts, M.z, 1e-6, 1e-6, what + 'redshift grid'))
    if e:
        return e
    if np.size(k.abcorrect) != 1 or bool(k.abcorrect) != bool(M.ab):
        return '%sabcorrect %r, expected %r' % (what, k.abcorrect, M.ab)
    return None


@model.guard
def table_error(k, M, what=''):
    """None if the stored tables agree with the model."""
    for nm, attr, A in (('input', k.Amatrix, M.A), ('output', k.AmatrixOut, M.AO)):
        got = attr(np.asarray(M.z))
        sc = np.abs(A).max()
        e = model.close(got, A, 1e-4, 1e-6 * sc, '%s%s band table' % (what, nm))
        if e:
            return e
    return None


@model.guard
def template_error(t, T, what='template ', z=0.0, info=True):
    """None if a Template object holds exactly the data of T (a TData)."""
    e = (model.close(t.restframe_wave, np.asarray(T.wave, 'f8'), 1e-6, 0, what + 'wavelengths') or
         model.close(t.restframe_flux, np.asarray(T.flux, 'f8'), 1e-6, 0, what + 'fluxes'))
    if e:
        return e
    if t.nsed != T.nsed or t.nwave != len(T.wave):
        return '%snsed/nwave %r/%r, expected %r/%r' % (what, t.nsed, t.nwave, T.nsed, len(T.wave))
    for k, v in T.prop.items():
        exp = T.m50() if k == 'm50' else v
        e = model.close(getattr(t, k), np.asarray(exp, 'f8'), 1e-6, 0, what + k)
        if e:
            return e
    if bool(t.binimage) != (T.layout == 'image'):
        return '%sbinimage is %r' % (what, t.binimage)
    return sed_state_error(t, z, what)


@model.guard
def sed_state_error(t, z, what=''):
    """wave, flux, redshift and interp are those of redshift z."""
    w = np.asarray(t.restframe_wave, 'f8') * (1. + z)
    f = np.asarray(t.restframe_flux, 'f8') / (1. + z)
    if abs(float(t.redshift) - z) > 1.5e-7 * (1. + abs(z)):
        return '%sredshift %r, expected %r' % (what, t.redshift, z)
    e = (model.close(t.wave, w, 4e-7, 0, what + 'wave') or
         model.close(t.flux, f, 4e-7, 1e-37, what + 'flux'))
    if e:
        return e
    if t.interpolate:
        if t.interp is None:
            return '%sno interpolation object' % what
        x = 0.5 * (w[2:-1] + w[1:-2])[::7]
        y = np.asarray(t.interp(x), 'f8')
        if y.ndim == 1:
            y = y[None]
        idx = np.arange(len(w))[1:-2][::7]
        mid = 0.5 * (f[:, idx] + f[:, idx + 1])
        sc = np.maximum(np.abs(f[:, idx]), np.abs(f[:, idx + 1]))
        bad = y.shape != mid.shape or np.any(np.abs(y - mid) > 0.35 * sc + 1e-30)
        if bad and y.shape == mid.shape:
            # spectra with lines and edges are rough: the cubic through the spectrum decides
            ref = scipy.interpolate.CubicSpline(w, f, axis=1)(x)
            bad = np.any(np.abs(y - ref) > 0.02 * np.maximum(sc, np.abs(ref)) + 1e-4 * np.abs(f).max())
        if bad:
            return '%sinterpolation object belongs to another redshift or spectrum' % what
        # a cubic interpolation passes through its knots
        tw, tf = np.asarray(t.wave, 'f8')[2:-2], np.asarray(t.flux, 'f8')[:, 2:-2]
        y = np.asarray(t.interp(tw), 'f8').reshape(tf.shape)
        if np.any(np.abs(y - tf) > 2e-4 * np.abs(tf) + 1e-5 * np.abs(tf).max(axis=1, keepdims=True)):
            return '%sinterpolation object does not pass through the spectrum at its redshift' % what
    return None
