"""Independent executable reference model of what kcorrect computes.

numpy/scipy only; no kcorrect code.  Everything in float64 except that the
redshift grid is the documented float32 one.
"""
import numpy as np
import scipy.interpolate as si
import scipy.optimize as so
import astropy.cosmology
import astropy.units as u

import fixtures as fx

NNLS = so.nnls            # captured before any seam is installed
_spline = si.make_interp_spline


def guard(f):
    """A comparison that cannot even be made (missing attribute, wrong type) is
    a difference, not an error of the harness."""
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            if type(e).__name__ == 'CodeRaised':
                raise
            return 'cannot be compared: %s: %s' % (type(e).__name__, e)
    return g


def _ev(sp, lo, hi, x):
    y = sp(x)
    out = (x < lo) | (x > hi)
    y = np.array(y)
    y[..., out] = 0.
    return y


def _trap(x, y):
    return (0.5 * (y[..., 1:] + y[..., :-1]) * (x[1:] - x[:-1])).sum(-1)


class Band:
    def __init__(self, wave, resp):
        self.wave = np.asarray(wave, dtype='f8')
        self.resp = np.asarray(resp, dtype='f8')
        self.sp = _spline(self.wave, self.resp, k=3)
        w = np.log(self.wave) * self.resp / self.wave
        d = self.resp / self.wave
        self.lambda_eff = np.exp(_trap(self.wave, w) / _trap(self.wave, d))
        self._sun = self._vega = 'no'

    def project(self, wave, flux):
        wave = np.asarray(wave, dtype='f8')
        flux = np.atleast_2d(np.asarray(flux, dtype='f8'))
        if wave[-1] < self.wave[0] or wave[0] > self.wave[-1]:
            return np.zeros(flux.shape[0])
        lo = max(np.searchsorted(wave, self.wave[0]) - 1, 0)
        hi = np.searchsorted(wave, self.wave[-1], side='right') + 1
        keep = slice(lo, hi)
        g = np.unique(np.append(wave[keep], self.wave))
        sp = _spline(wave, flux, k=3, axis=-1)
        s = _ev(sp, wave[0], wave[-1], g)
        r = _ev(self.sp, self.wave[0], self.wave[-1], g)
        ab = 3.631e-2 / g**2 * 2.99792
        return _trap(g, s * r * g) / _trap(g, ab * r * g)

    # characteristics -----------------------------------------------------
    def _star(self, which):
        wave, flux = star(which)
        m = self.project(wave, flux[None])[0]
        return -2.5 * np.log10(m) if m > 0 else None

    @property
    def solar_magnitude(self):
        if self._sun == 'no':
            self._sun = self._star('sun')
        return self._sun

    @property
    def vega2ab(self):
        if self._vega == 'no':
            self._vega = self._star('vega')
        return self._vega

    def fwhm_limits(self):
        r = self.resp / self.resp.max()
        i = np.where(r > 0.5)[0]
        lo = self.wave[0]
        f = lambda x: float(self.sp(x)) / self.resp.max() - 0.5
        if i[0] > 0:
            lo = so.brentq(f, self.wave[i[0] - 1], self.wave[i[0]])
        hi = self.wave[-1]
        j = np.where(r >= 0.5)[0]
        if j[-1] < len(r) - 1:
            hi = so.brentq(f, self.wave[j[-1]], self.wave[j[-1] + 1])
        return lo, hi


def basel(name):
    import os
    with open(os.path.join(fx.DATA, 'basel', name)) as fp:
        w = fp.read().split()
    return (np.array(w[:1221], dtype='f8').astype('f4').astype('f8'),
            np.array(w[1221 + 6:1221 + 6 + 1221], dtype='f8').astype('f4').astype('f8'))


def check_star_info(info, name):
    """None if the meta-data are those of the (only) model in the file."""
    import os
    with open(os.path.join(fx.DATA, 'basel', name)) as fp:
        w = fp.read().split()[1221:1227]
    if sorted(info) != sorted(fx.BINFO):
        return 'meta-data %r' % (sorted(info),)
    for k, x in zip(fx.BINFO, w):
        e = close(np.asarray(info[k], 'f8'), np.array([float(x)]), 1e-6, 1e-6, 'model parameter %s' % k)
        if e:
            return e
    return None


def check_models(r, nunit, seed):
    """None if r is what read_basel() should return for fixtures.basel_text(nunit, seed)."""
    info, wave, flux = fx.basel_models(nunit, seed)
    if not isinstance(r, tuple) or len(r) != 3:
        return 'read_basel() returned %r' % (type(r),)
    if sorted(r[0]) != sorted(info):
        return 'meta-data %r' % (sorted(r[0]),)
    for k in info:
        e = close(r[0][k], info[k], 1e-6, 1e-6, 'model parameter %s' % k)
        if e:
            return e
    return close(r[1], wave, 1e-6, 0, 'model wavelengths') or close(r[2], flux, 1e-6, 0, 'model fluxes')


_stars = {}


def star(which):
    if which not in _stars:
        wave, flux = basel('lcb%s.ori' % which)
        wave = wave * 10.
        radius, dist = (6.960e+10, 10.) if which == 'sun' else (1.91144e+11, 7.68)
        flux = np.pi * 4. * flux * 2.99792e+18 / wave**2 * (radius / (dist * 3.086e+18))**2
        _stars[which] = (wave, flux)
    return _stars[which]


_bands = {}


def band(name, version=0):
    k = (name, version)
    if k not in _bands:
        w, p = fx.RESP[name] if version == 0 else fx.parse_dat(fx.variant_dat(name, version))
        _bands[k] = Band(w, p)
    return _bands[k]


@guard
def check_response(obj, name, version=0):
    """None if a Response object is the complete, correct response `name`."""
    b = band(name, version)
    w = np.asarray(obj.wave, dtype='f8')
    p = np.asarray(obj.response, dtype='f8')
    if w.shape != b.wave.shape or not np.allclose(w, b.wave, rtol=1e-6, atol=0):
        return 'wavelength grid differs'
    if p.shape != b.resp.shape or not np.allclose(p, b.resp, rtol=1e-6, atol=1e-9):
        return 'response curve differs'
    if obj.nwave != len(w):
        return 'nwave is %r for %d samples' % (obj.nwave, len(w))
    if obj.lambda_eff is None or abs(obj.lambda_eff / b.lambda_eff - 1) > 1e-3:
        return 'lambda_eff %r, expected %r' % (obj.lambda_eff, b.lambda_eff)
    for a in ('solar_magnitude', 'vega2ab'):
        got = getattr(obj, a, 'missing')
        exp = getattr(b, a)
        if isinstance(got, str) or (got is None) != (exp is None) or \
                (exp is not None and not abs(got - exp) < 2e-3):
            return '%s %r, expected %r' % (a, got, exp)
    lo, hi = b.fwhm_limits()
    for a, e in (('fwhm_low', lo), ('fwhm_high', hi), ('fwhm', hi - lo)):
        got = getattr(obj, a)
        if got is None or not abs(got - e) <= 2e-3 * (hi - lo) + 1e-3 * abs(e) * 1e-2:
            return '%s %r, expected %r' % (a, got, e)
    if obj.interp is None:
        return 'no interpolation object'
    x = 0.5 * (b.wave[1:] + b.wave[:-1])
    y = np.asarray(obj.interp(x), dtype='f8')
    if not np.allclose(y, b.sp(x), rtol=1e-4, atol=1e-5 * b.resp.max()):
        return 'interpolation object does not follow the curve'
    return None


# ------------------------------------------------------------ K-correction
_A = {}


class Flat:
    def __init__(self, h0=70., om=0.3):
        self.c = astropy.cosmology.FlatLambdaCDM(H0=h0, Om0=om)


COSMO = {None: astropy.cosmology.Planck18,
         'H70': astropy.cosmology.FlatLambdaCDM(H0=70., Om0=0.3)}

ABFIX = np.array([-0.036, 0.012, 0.010, 0.028, 0.040])
ABFAC = 10.**(-0.4 * ABFIX)
SDSS5 = ['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0']
GST10 = ['galex_FUV', 'galex_NUV'] + SDSS5 + ['twomass_J', 'twomass_H', 'twomass_Ks']


class KModel:
    """What a Kcorrect-like object defined by `spec` answers."""

    def __init__(self, spec):
        self.spec = spec
        self.cls = spec['cls']
        self.resp = list(spec['resp'])
        self.out = list(spec.get('out') or self.resp)
        self.map = list(spec.get('map') or self.resp)
        self.imap = [self.resp.index(m) for m in self.map]
        self.ab = spec['ab']
        self.t = fx.tdata(spec['tmpl'])
        self.nsed = self.t.nsed
        zr = np.array(spec['zr'], dtype=np.float32)
        self.zr = zr
        n = spec['nz']
        self.z = (zr[0] + (zr[1] - zr[0]) * np.arange(n, dtype=np.float32) / np.float32(n - 1))
        self.z[-1] = zr[1]
        self.cosmo = COSMO[spec.get('cosmo')]
        self.versions = spec.get('versions') or {}
        self.A = self._grid(self.resp)
        self.AO = self.A if self.out == self.resp else self._grid(self.out)

    def _grid(self, resp):
        cols = []
        for r in resp:
            v = self.versions.get(r, 0)
            key = (self.spec['tmpl'], r, v, tuple(float(x) for x in self.zr), self.spec['nz'])
            if key not in _A:
                b = band(r, v)
                _A[key] = np.array([b.project(np.asarray(self.t.wave, 'f8') * (1. + float(z)),
                                              np.asarray(self.t.flux, 'f8') / (1. + float(z)))
                                    for z in self.z])
            cols.append(_A[key])
        return np.stack(cols, axis=1)          # nz, nb, nsed

    def at(self, A, z):
        """Linear interpolation in the grid; None if outside."""
        z = float(z)
        zg = self.z.astype('f8')
        if not (zg[0] <= z <= zg[-1]):
            return None
        i = min(max(int(np.searchsorted(zg, z, side='right')) - 1, 0), len(zg) - 2)
        f = (z - zg[i]) / (zg[i + 1] - zg[i])
        return A[i] * (1. - f) + A[i + 1] * f

    # --- inputs to AB ----------------------------------------------------
    def to_ab(self, m, iv):
        m = np.array(m, dtype='f8')
        iv = None if iv is None else np.array(iv, dtype='f8')
        if self.cls == 'Kcorrect':
            return m, iv
        sl = slice(0, 5) if self.cls == 'KcorrectSDSS' else slice(2, 7)
        m[..., sl] = m[..., sl] * ABFAC
        if iv is not None:
            iv[..., sl] = iv[..., sl] / ABFAC**2
        return m, iv

    def inputs(self, m, iv):
        if self.ab:
            return self.to_ab(m, iv)
        return (np.array(m, dtype='f8'), None if iv is None else np.array(iv, dtype='f8'))

    # --- single-object answers -------------------------------------------
    def fit1(self, z, m, iv):
        A = self.at(self.A, np.float32(z))
        if A is None:
            return None
        w = np.sqrt(iv)
        M = A * w[:, None]
        b = m * w
        try:
            c, r = NNLS(M, b)
        except RuntimeError:
            c, r = NNLS(M, b, maxiter=100 * M.shape[1])
        return c, r, M, b

    @guard
    def check_fit1(self, z, m, iv, c, tag=''):
        """m, iv already AB. None if c is a right answer."""
        c = np.asarray(c, dtype='f8')
        if c.shape != (self.nsed,):
            return '%scoefficients have shape %r' % (tag, c.shape)
        if not np.all(np.isfinite(c)) or np.any(c < 0):
            return '%scoefficients are not finite and non-negative: %r' % (tag, c)
        ref = self.fit1(z, m, iv)
        if ref is None:
            if np.any(c != 0):
                return '%snon-zero coefficients outside the redshift range' % tag
            return None
        c0, r0, M, b = ref
        r = np.linalg.norm(M @ c - b)
        nb = np.linalg.norm(b)
        if r > r0 * (1. + 1e-3) + 5e-4 * nb:
            return '%sfit is not the weighted non-negative least-squares fit: residual %.6g, best %.6g (data norm %.4g)' % (tag, r, r0, nb)
        # same fitted fluxes (unique even when coefficients are not)
        d = np.linalg.norm(M @ c - M @ c0)
        if d > 5e-3 * nb + 0.03 * r0:
            return '%sfitted fluxes differ from the reference fit by %.3g of the data' % (tag, d / max(nb, 1e-300))
        return None

    def rec1(self, z, c, bs=0., out=False):
        A = self.at(self.AO if out else self.A, float(np.float32(z)) * (1. + bs) + bs)
        if A is None:
            return None
        return A @ np.asarray(c, 'f8') / (1. + bs)

    def k1(self, z, c, bs=0.):
        mi = self.rec1(z, c)
        mo = self.rec1(0., c, bs, out=True)
        if mi is None or mo is None:
            return None
        if not np.sum(c) > 0:
            return np.zeros(len(self.out))
        return -2.5 * np.log10(mi[self.imap] / mo)

    def dm1(self, z, dist=None):
        if dist is not None:
            return 5. * np.log10(float(dist) / 1e-5)
        return float(self.cosmo.distmod(float(np.float32(z))).value)

    def absmag1(self, z, m, iv, c, bs=0., dist=None):
        """m, iv already AB: dict of absmag, recon, limit, k."""
        k = self.k1(z, c, bs)
        if k is None:
            return None
        dm = self.dm1(z, dist)
        n = len(self.out)
        um, ui = m[self.imap], iv[self.imap]
        am = np.full(n, -9999.)
        g = (um > 0) & (ui > 0)
        am[g] = -2.5 * np.log10(um[g]) - dm - k[g]
        lim = np.full(n, -9999.)
        g = (ui > 0) & (np.sum(c) > 0)
        lim[g] = 2.5 * np.log10(np.sqrt(ui[g])) - dm - k[g]
        rec = np.full(n, -9999.)
        rm = self.rec1(z, c)[self.imap]
        g = rm > 0
        rec[g] = -2.5 * np.log10(rm[g]) - dm - k[g]
        return dict(absmag=am, recon=rec, limit=lim, k=k)

    def derived1(self, z, c, bs=0., dist=None):
        c = np.asarray(c, 'f8')
        dm = self.dm1(z, dist)
        df = 10.**(0.4 * dm)
        p = {k: np.asarray(v, 'f8') for k, v in self.t.prop.items() if v is not None}
        p['m50'] = np.asarray(self.t.m50(), 'f8')
        o = {}
        o['intsfh'] = c @ p['intsfh'] * df
        o['mremain'] = c @ p['mremain'] * df
        ok = o['mremain'] > 0
        o['metallicity'] = (c @ (p['mremain'] * p['mets']) * df / o['mremain']) if ok else 0.
        for b, m in (('b50', 'm50'), ('b300', 'm300'), ('b1000', 'm1000')):
            o[b] = (c @ p[m] * df / o['intsfh']) if ok else 0.
        r = self.rec1(0., c, bs, out=True)
        sun = np.array([band(x, self.versions.get(x, 0)).solar_magnitude or 0. for x in self.out])
        ms = r / 10.**(-0.4 * (sun + dm))
        mt = np.zeros(len(self.out))
        g = ms > 0
        mt[g] = o['mremain'] / ms[g]
        o['mtol'] = mt
        return o

    # --- data ---------------------------------------------------------------
    def photometry(self, rs, n, bad=0.25, zlo=None, zhi=None, outside=0.):
        """n objects (f4 arrays) in the *input* photometric system."""
        lo = float(self.zr[0]) if zlo is None else zlo
        hi = float(self.zr[1]) if zhi is None else zhi
        nb = len(self.resp)
        z = rs.uniform(lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo), size=n)
        c = self.coeffs(rs, n, zeros=0.)
        m = np.zeros((n, nb))
        iv = np.zeros((n, nb))
        for i in range(n):
            f = self.at(self.A, np.float32(z[i])) @ c[i]
            sn = 10.**rs.uniform(0.5, 2., size=nb)
            err = np.abs(f) / sn + 1e-3 * np.abs(f).max() + 1e-300
            m[i] = f + rs.normal(size=nb) * err * (3. if rs.rand() < 0.2 else 1.)
            iv[i] = 1. / err**2
            if rs.rand() < bad:
                j = rs.randint(nb)
                kind = rs.randint(6)
                if kind == 4:
                    m[i, j] = 0.                              # measured to be nothing
                elif kind == 5:
                    err = np.abs(f[j]) / 10.**rs.uniform(-1., 0.5) + 1e-300
                    m[i, j] = f[j] + rs.normal() * err        # hardly detected
                    iv[i, j] = 1. / err**2
                elif kind == 0:
                    iv[i, j] = 0.
                elif kind == 1:
                    m[i, j] = -abs(m[i, j])
                elif kind == 2:
                    iv[i, j] = 0.
                    m[i, j] = -9999.
                elif rs.rand() < 0.3:
                    iv[i] = 0.
            if outside and rs.rand() < outside:
                z[i] = hi + 0.1 + rs.rand() if rs.rand() < 0.6 else lo - 0.05 - rs.rand()
        return np.float32(z), np.float32(m), np.float32(iv)

    def coeffs(self, rs, n, zeros=0.15):
        # scaled so that maggies are ordinary (1e-10 .. 1e-6)
        c = 10.**rs.uniform(-9., -8., size=(n, 1)) / 1.
        c = c * 10.**rs.uniform(-1., 0.3, size=(n, self.nsed))
        c = c * (rs.rand(n, self.nsed) < 0.7)
        if self.nsed == 1:
            c[c == 0] = 3e-9
        z = c.sum(1) == 0
        c[z, 0] = 2e-9
        k = np.mean(self.A.mean(0))
        c = c / max(k, 1e-30)
        for i in range(n):
            if rs.rand() < zeros:
                c[i] = 0.
        return np.float32(c)


_models = {}


def kmodel(spec):
    import json
    k = json.dumps(spec, sort_keys=True)
    if k not in _models:
        if len(_models) > 400:
            _models.clear()
        _models[k] = KModel(spec)
    return _models[k]


# ------------------------------------------------------------ comparisons
def close(a, b, rtol, atol, what):
    a = np.asarray(a)
    b = np.asarray(b, dtype='f8')
    if a.shape != b.shape:
        return '%s has shape %r, expected %r' % (what, a.shape, b.shape)
    if a.dtype.kind not in 'fiu':
        return '%s has dtype %s' % (what, a.dtype)
    a = a.astype('f8')
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.shape else ()
        return '%s%s is %r, expected %r' % (what, list(map(int, i)) if bad.shape else '',
                                            float(a[i]), float(b[i]))
    return None
