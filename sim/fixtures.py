"""The simulated installation and its data: response curves and template files.

Everything the reference model knows about a response or a template comes from
here (arrays generated by the harness, or the shipped .dat text parsed by the
harness' own parser), never from kcorrect.
"""
import os
import shutil
import warnings

import astropy.io.fits as fits
import numpy as np

import boot

DATA = os.path.join(boot.PKG, 'data')

REAL = ['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0', 'bessell_B', 'bessell_V',
        'bessell_R', 'galex_FUV', 'galex_NUV', 'twomass_J', 'twomass_H', 'twomass_Ks',
        'wfpc2_f606w', 'iras_60', 'newfirm_J', 'epsi_815m', 'cfht_megacam_z']
SUN_RANGE = (91., 1.6e6)


LONG = 'syn_Very-Long_name+of_the.Camera_2048x2048=CCD47-20,chip3_2019.08.11_warm'


def _synth():
    """Synthetic bandpasses: (wave, pass) in the order written to the file."""
    out = {}
    w = np.linspace(4000., 5200., 25)
    out['syn_tri'] = (w, np.clip(1. - np.abs(w - 4600.) / 550., 0., None))
    w = np.linspace(5200., 7000., 19)
    p = np.clip(np.exp(-0.5 * ((w - 6100.) / 300.)**2) - 0.02, 0., None)
    out['syn_rev'] = (w[::-1], p[::-1])                    # descending file
    w = np.linspace(7600., 9400., 31)
    rs = np.random.RandomState(5)
    i = rs.permutation(len(w))
    p = 0.6 + 0.3 * np.sin(w / 300.)**2
    p[[0, 1, -1]] = 0.
    out['syn_shuf'] = (w[i], p[i])                         # unsorted file
    w = np.linspace(3000., 3900., 16)
    out['syn_u.v2'] = (w, np.clip(np.sin((w - 3000.) / 900. * np.pi), 0., None))  # dotted name
    w = np.linspace(5800., 7300., 22)
    out[LONG] = (w, np.clip(np.cos((w - 6550.) / 760. * np.pi / 2.), 0., None))
    w = np.linspace(6535., 6591., 9)
    out['syn_nb'] = (w, 0.9 * np.exp(-0.5 * ((w - 6563.) / 20.)**4))     # narrower than the sampling of spectra
    w = np.linspace(4700., 5600., 12)
    out['syn_box'] = (w, 0.8 + 0.2 * np.sin((w - 4700.) / 900. * 3.))    # high at both ends
    w = np.linspace(10500., 13500., 21)
    out['syn_int'] = (w, np.exp(-0.5 * ((w - 12000.) / 500.)**4))
    w = np.linspace(1.9e6, 2.2e6, 13)
    out['syn_far'] = (w, np.clip(1. - np.abs(w - 2.05e6) / 1.2e5, 0., None))  # beyond the Sun
    return out


SYN = _synth()
OPTICAL = ['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0', 'bessell_B', 'bessell_V',
           'bessell_R', 'twomass_J', 'twomass_H', 'wfpc2_f606w',
           'newfirm_J', 'epsi_815m', 'cfht_megacam_z', 'syn_tri', 'syn_rev', 'syn_shuf', 'syn_u.v2', 'syn_int', 'syn_nb', 'syn_box', LONG]
SUNLESS = ['syn_far', 'iras_60']
ALLRESP = REAL + sorted(SYN)


def dat_text(wave, resp):
    lines = ['# synthetic bandpass', '|         lambda |         pass |']
    for a, b in zip(wave, resp):
        lines.append('| %14.4f | %12.7f |' % (a, b))
    return '\n'.join(lines) + '\n'


def parse_dat(text):
    rows = [ln for ln in text.splitlines() if ln.strip() and not ln.startswith('#')]
    head = [c.strip() for c in rows[0].strip().strip('|').split('|')]
    il, ip = head.index('lambda'), head.index('pass')
    w, p = [], []
    for r in rows[1:]:
        c = [x.strip() for x in r.strip().strip('|').split('|')]
        w.append(float(c[il]))
        p.append(float(c[ip]))
    w = np.array(w)
    p = np.array(p)
    i = np.argsort(w)
    return w[i], p[i]


def variant_dat(name, v):
    """Another version of response `name` (same filter shape, shifted/scaled)."""
    w, p = RESP[name]
    return dat_text(w + 7. * v, p * (1. + 0.0 * v))


RESP = {}


def _load_resp():
    for n in REAL:
        with open(os.path.join(DATA, 'responses', n + '.dat')) as fp:
            RESP[n] = parse_dat(fp.read())
    for n, (w, p) in SYN.items():
        RESP[n] = parse_dat(dat_text(w, p))


def make_install(dst, responses=None, templates=True):
    """A simulated installation directory."""
    d = os.path.join(dst, 'kcorrect', 'data')
    os.makedirs(os.path.join(d, 'responses'))
    os.makedirs(os.path.join(d, 'basel'))
    os.makedirs(os.path.join(d, 'templates'))
    for n in (REAL if responses is None else [r for r in responses if r in REAL]):
        shutil.copyfile(os.path.join(DATA, 'responses', n + '.dat'),
                        os.path.join(d, 'responses', n + '.dat'))
    for n in (SYN if responses is None else [r for r in responses if r in SYN]):
        with open(os.path.join(d, 'responses', n + '.dat'), 'w') as fp:
            fp.write(dat_text(*SYN[n]))
    for n in ('lcbsun.ori', 'lcbvega.ori'):
        shutil.copyfile(os.path.join(DATA, 'basel', n), os.path.join(d, 'basel', n))
    if templates:
        for n in ('kcorrect-default-v4.fits', 'kcorrect-lrg1-v4.fits'):
            shutil.copyfile(os.path.join(DATA, 'templates', n), os.path.join(d, 'templates', n))
    return os.path.join(dst, 'kcorrect')


# --------------------------------------------------------------- model spectra
BINFO = ('modelno', 'teff', 'logg', 'mh', 'vturb', 'xh')


def basel_models(nunit, seed):
    """(info, wave, flux) of a library of stellar models, as its file says."""
    rs = np.random.RandomState(seed)
    wave = np.round(np.linspace(9.1, 160000., 1221), 1)
    info = dict(modelno=rs.permutation(60)[:nunit] + 1, teff=np.round(rs.uniform(2e3, 5e4, nunit)),
                logg=np.round(rs.uniform(0., 5., nunit), 2), mh=np.round(rs.uniform(-3., 1., nunit), 2),
                vturb=np.round(rs.uniform(0., 4., nunit), 1), xh=np.round(rs.uniform(-1., 1., nunit), 2))
    flux = np.array([[float('%.4E' % x) for x in row] for row in 10.**rs.uniform(-17., -3., (nunit, 1221))])
    return info, wave, flux


def basel_text(nunit, seed):
    info, wave, flux = basel_models(nunit, seed)

    def rows(x, n, f):
        return ''.join(''.join(f % y for y in x[i:i + n]) + '\n' for i in range(0, len(x), n))
    out = rows(wave, 8, ' %9.1f')
    for u in range(nunit):
        out += '%6d %7.0f %6.2f %6.2f %5.1f %6.2f\n' % tuple(info[k][u] for k in BINFO)
        out += rows(flux[u], 7, ' %10.4E')
    return out


# ------------------------------------------------------------------ templates
# name -> (nsed, nwave, layout, m50, seed, wmin, wmax, fluxdtype)
TSPEC = {
    't1': (1, 150, 'table', True, 1, 600., 4.e4, 'f4'),
    't2': (2, 180, 'table', True, 2, 500., 6.e4, 'f4'),
    't3': (3, 240, 'table', False, 3, 600., 3.e5, 'f4'),
    't5': (5, 260, 'table', True, 4, 500., 5.e4, 'f4'),
    'b1': (1, 160, 'image', True, 5, 600., 4.e4, 'f4'),
    'b4': (4, 200, 'image', True, 6, 600., 4.e4, 'f4'),
    'b3d': (3, 170, 'image', False, 7, 600., 4.e4, 'f8'),
    'd2': (2, 170, 'table', True, 8, 600., 4.e4, 'f8'),
    'far2': (2, 260, 'table', True, 9, 600., 4.e6, 'f4'),
    't2x': (2, 180, 'table', True, 21, 500., 6.e4, 'f4'),
    'b4x': (4, 200, 'image', True, 23, 600., 4.e4, 'f4'),
    't3x': (3, 240, 'table', False, 25, 600., 3.e5, 'f4'),
    'many': (1203, 40, 'image', True, 10, 900., 3.e4, 'f4'),
    'kilo': (1000, 36, 'image', True, 11, 900., 3.e4, 'f4'),
    'kilo1': (1001, 36, 'image', True, 12, 900., 3.e4, 'f4'),
}
TWIN = {'t2': 't2x', 'b4': 'b4x', 't3': 't3x'}      # same layout and size, other content
SMALL = ['t1', 't2', 't3', 't5', 'b1', 'b4', 'b3d', 'd2']


class TData:
    """Arrays of one template set, as the harness made them."""

    def __init__(self, name):
        if name.startswith('real:'):
            n = name[5:]
            with fits.open(os.path.join(DATA, 'templates', 'kcorrect-%s-v4.fits' % n),
                           memmap=False) as h:
                self.wave = np.array(h['FLUX'].data['wave'][0], dtype=np.float32)
                self.nsed = len(h['INTSFH'].data)
                self.flux = np.array(h['FLUX'].data['flux'][0],
                                     dtype=np.float32).reshape(self.nsed, -1)
                self.prop = {k.lower(): np.array(h[k].data) for k in
                             ('INTSFH', 'MREMAIN', 'METS', 'M300', 'M1000')}
                self.prop['m50'] = None
            self.layout = 'table'
            self.scale = 1.
            return
        nsed, nwave, self.layout, m50, seed, wmin, wmax, dt = TSPEC[name]
        rs = np.random.RandomState(1000 + seed)
        u = np.linspace(0., 1., nwave)
        wave = wmin * (wmax / wmin)**u
        flux = np.zeros((nsed, nwave))
        for i in range(nsed):
            slope = rs.uniform(-2.2, 0.6)
            f = (wave / 5000.)**slope
            f *= 1. + 0.35 * np.sin(np.log(wave) * rs.uniform(2., 7.) + rs.uniform(0, 6.))
            for _ in range(3):
                c = rs.uniform(3500., 12000.)
                f += rs.uniform(0.2, 2.) * np.exp(-0.5 * (np.log(wave / c) / 0.08)**2)
            if rs.rand() < 0.5:
                f *= 1. / (1. + np.exp(-(wave - 3900.) / 250.)) * 0.8 + 0.2
            flux[i] = f * 10.**rs.uniform(-0.5, 0.5)
        self.scale = [1.e-9, 3.e-8][seed % 2]
        flux *= self.scale
        # keep what the file will hold
        self.wave = wave.astype('f4') if dt == 'f4' else wave
        self.flux = flux.astype('f4') if dt == 'f4' else flux
        self.nsed = nsed
        self.prop = {k: rs.uniform(0.3, 2., size=nsed).astype('f4')
                     for k in ('intsfh', 'mremain', 'mets', 'm300', 'm1000')}
        self.prop['mets'] *= 0.02
        self.prop['m300'] *= 0.1
        self.prop['m1000'] *= 0.2
        self.prop['m50'] = rs.uniform(0.005, 0.05, size=nsed).astype('f4') if m50 else None

    def m50(self):
        return self.prop['m50'] if self.prop['m50'] is not None else self.prop['m300'] * 0.


_T = {}


def tdata(name):
    if name not in _T:
        _T[name] = TData(name)
    return _T[name]


def write_template(name, path, order=None):
    """Write template set `name` in the documented FITS layout."""
    t = tdata(name)
    hl = fits.HDUList([fits.PrimaryHDU()])
    if t.layout == 'image':
        hl.append(fits.ImageHDU(t.wave, name='WAVE'))
        hl.append(fits.ImageHDU(t.flux, name='FLUX'))
    else:
        out = np.zeros(1, dtype=[('wave', t.wave.dtype, t.wave.shape),
                                 ('flux', t.flux.dtype, t.flux.shape)])
        out['wave'] = t.wave
        out['flux'] = t.flux
        hl.append(fits.BinTableHDU(out, name='FLUX'))
    for k in ('intsfh', 'mremain', 'mets', 'm300', 'm50', 'm1000'):
        if t.prop[k] is not None:
            hl.append(fits.ImageHDU(t.prop[k], name=k.upper()))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        hl.writeto(path, overwrite=True)


_load_resp()
