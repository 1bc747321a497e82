"""Things that live in files: spectra, template sets, responses, K-correction
setups.  For each: how to make, save, load, and compare it with the reference
model."""
import numpy as np

import fixtures as fx
import model
from checks.common import *


class SData:
    """Reference content of a spectrum set."""

    def __init__(self, wave, flux, image=False):
        self.wave = np.asarray(wave)
        self.flux = np.atleast_2d(np.asarray(flux))
        self.image = image


def sed_data(tmpl, one=None):
    """one: index of a single spectrum of the set (a 1-D flux array)."""
    T = fx.tdata(tmpl)
    f = T.flux if one is None else T.flux[one]
    return SData(T.wave, f, T.layout == 'image' and one is None)


@model.guard
def sed_error(s, D, what='spectrum ', z=0.0):
    e = (model.close(s.restframe_wave, np.asarray(D.wave, 'f8'), 1e-6, 0, what + 'wavelengths') or
         model.close(s.restframe_flux, np.asarray(D.flux, 'f8'), 1e-6, 0, what + 'fluxes'))
    if e:
        return e
    if s.nsed != D.flux.shape[0] or s.nwave != len(D.wave):
        return '%snsed/nwave %r/%r, expected %r/%r' % (what, s.nsed, s.nwave, D.flux.shape[0],
                                                      len(D.wave))
    if bool(s.binimage) != D.image:
        return '%sbinimage is %r' % (what, s.binimage)
    return sed_state_error(s, z, what)


@model.guard
def kc_error(c, node, k, M, what='', queries=1, seed=0, z=0.0):
    """Full comparison of a K-correction object with its model."""
    e = config_error(k, M, what) or table_error(k, M, what) or \
        template_error(k.templates, M.t, what + 'templates: ', z)
    if e:
        return e
    import random
    rng = random.Random('kcq-%s' % seed)
    for _ in range(queries):
        q = gen_query(rng, 1, KCQ)
        q.pop('cat', None)
        try:
            e = run_query(c, node, k, M, q)
        except CodeRaised as x:
            e = 'raised %s' % x
        if e:
            return '%s%s: %s' % (what, q['o'], e)
    return None


KCQ = [('fit', 4), ('kcorrect', 4), ('absmag', 4), ('derived', 4), ('reconstruct', 2),
       ('reconstruct_out', 2), ('to_ab', 0.7)]


# ------------------------------------------------------------------- things
def gen_thing(rng, kinds=None, small=False):
    k = weighted(rng, kinds or [('sed', 1), ('template', 2), ('response', 1.5), ('kc', 3)])
    if k == 'sed':
        t = pick(rng, fx.SMALL)
        one = None
        if rng.random() < 0.25:
            one = rng.randrange(fx.tdata(t).nsed)
        return dict(k='sed', tmpl=t, one=one, interp=rng.random() < 0.5)
    if k == 'template':
        return dict(k='template', tmpl=pick(rng, fx.SMALL), interp=rng.random() < 0.4)
    if k == 'response':
        return dict(k='response', r=pick(rng, fx.ALLRESP), v=pick(rng, [0, 0, 1, 2]),
                    shared=rng.random() < 0.3, mix=pick(rng, [None, None, None, 'int', 'r4']))
    spec = gen_spec(rng, cls=weighted(rng, [('Kcorrect', 8), ('KcorrectSDSS', 1.5),
                                            ('KcorrectGST', 0.5)]),
                    maxband=3 if small else 4)
    return dict(k='kc', spec=spec)


def make(c, node, th):
    if th['k'] == 'sed':
        if th['one'] is None:
            return node.template.SED(filename=c.pool(th['tmpl']), interpolate=th['interp'])
        T = fx.tdata(th['tmpl'])
        return node.template.SED(wave=T.wave.copy(), flux=T.flux[th['one']].copy(),
                                 interpolate=th['interp'])
    if th['k'] == 'template':
        return node.template.Template(filename=c.pool(th['tmpl']), interpolate=th['interp'])
    if th['k'] == 'response':
        b = model.band(th['r'], th['v'])
        if th['v'] == 0 and not th.get('shared'):
            return node.response.Response(filename=th['r'] + '.dat')
        if th['v'] == 0:
            f = node.rdict()
            f.load_response(th['r'])
            return f[th['r']]
        w, r = b.wave.copy(), b.resp.copy()
        if th.get('mix') == 'int' and np.array_equal(w, np.round(w)):
            w = w.astype('i4')
        elif th.get('mix') == 'r4':
            r = r.astype('f4')
        return node.response.Response(wave=w, response=r)
    return build(c, node, th['spec'])


def save(node, th, obj, path, clobber=None, ext=None):
    kw = dict(filename=path)
    if th['k'] != 'kc' and clobber is not None:
        kw['clobber'] = clobber
    if th['k'] == 'sed' and ext is not None:
        kw['ext'] = ext
    obj.tofits(**kw)


def blank(c, node, th):
    """An object to restore onto (SDSS/GST classes have no file argument)."""
    spec = th['spec']
    resp = model.SDSS5 if spec['cls'] == 'KcorrectSDSS' else model.GST10
    return getattr(node.kc, spec['cls'])(
        responses=list(resp), nredshift=2, redshift_range=[0., 0.2],
        templates=node.template.Template(filename=c.pool('t1')),
        cosmo=model.COSMO[spec.get('cosmo')])


def load(c, node, th, path, onto=None, ext=None):
    if th['k'] == 'sed':
        kw = {} if ext is None else dict(ext=ext)
        if onto is not None:
            onto.fromfits(path, **kw)
            return onto
        return node.template.SED(filename=path, interpolate=th['interp'], **kw)
    if th['k'] == 'template':
        if onto is not None:
            onto.fromfits(path)
            return onto
        return node.template.Template(filename=path, interpolate=th['interp'])
    if th['k'] == 'response':
        r = onto if onto is not None else node.response.Response()
        r.fromfits(filename=path)
        return r
    spec = th['spec']
    if onto is not None:
        onto.fromfits(filename=path)
        return onto
    if spec['cls'] == 'Kcorrect':
        return node.kc.Kcorrect(filename=path, cosmo=model.COSMO[spec.get('cosmo')])
    b = blank(c, node, th)
    b.fromfits(filename=path)
    return b


@model.guard
def error(c, node, th, obj, seed=0, z=0.0, queries=1, what=''):
    """None if obj is exactly the thing described by th."""
    if th['k'] == 'sed':
        return sed_error(obj, sed_data(th['tmpl'], th['one']), what + 'spectrum ', z)
    if th['k'] == 'template':
        return template_error(obj, fx.tdata(th['tmpl']), what + 'template ', z)
    if th['k'] == 'response':
        e = model.check_response(obj, th['r'], th['v'])
        return None if e is None else what + 'response: ' + e
    return kc_error(c, node, obj, model.kmodel(th['spec']), what, queries, seed, z)


def fingerprint(th, obj):
    """Exact in-memory content (to see whether an operation changed it)."""
    def h(x):
        return None if x is None else np.array(x, copy=True)
    if th['k'] in ('sed', 'template'):
        d = dict(rw=h(obj.restframe_wave), rf=h(obj.restframe_flux), w=h(obj.wave), f=h(obj.flux),
                 z=float(obj.redshift), b=bool(obj.binimage), i=obj.interp is None)
        if th['k'] == 'template':
            for p in ('intsfh', 'mremain', 'mets', 'm300', 'm50', 'm1000'):
                d[p] = h(getattr(obj, p))
        return d
    if th['k'] == 'response':
        return dict(w=h(obj.wave), r=h(obj.response), l=float(obj.lambda_eff),
                    s=obj.solar_magnitude, v=obj.vega2ab, f=float(obj.fwhm))
    d = dict(zr=h(obj.redshift_range), z=h(obj.redshifts), r=list(map(str, obj.responses)),
             ro=list(map(str, obj.responses_out)), rm=list(map(str, obj.responses_map)),
             im=h(obj.imap), ab=bool(obj.abcorrect), n=int(obj.nredshift),
             A=h(obj.Amatrix(obj.redshifts)), AO=h(obj.AmatrixOut(obj.redshifts)))
    d.update({'t_' + k: v for k, v in
              fingerprint(dict(k='template'), obj.templates).items()})
    return d


def record(th, obj):
    """What must come back from a file this object was saved to."""
    d = fingerprint(th, obj)
    for k in ('w', 'f', 'z', 'i', 'b', 't_w', 't_f', 't_z', 't_i', 't_b'):
        if th['k'] != 'response' and not (th['k'] == 'kc' and k == 'z'):
            d.pop(k, None)
    if th['k'] == 'response':
        d.update(lo=float(obj.fwhm_low), hi=float(obj.fwhm_high))
    return d


@model.guard
def record_error(th, rec, obj, what=''):
    """None if obj has exactly the recorded content (single precision allowed
    where the file layout is documented to be single precision)."""
    got = record(th, obj)
    for k in rec:
        if k not in got:
            continue
        x, y = rec[k], got[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if x is None or y is None or np.shape(x) != np.shape(y):
                return '%s%s has shape %r, saved %r' % (what, k, np.shape(y), np.shape(x))
            x = np.asarray(x)
            y = np.asarray(y)
            if k in ('A', 'AO'):
                bad = ~(np.abs(y - x) <= 1e-6 * np.abs(x))
            elif th['k'] == 'response':
                bad = ~(x == y)
            else:
                x4 = x.astype('f4') if x.dtype.kind == 'f' else x
                bad = ~((x == y) | (x4 == y))
            if bad.any():
                i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.shape else ()
                return '%s%s%s is %r, %r was saved' % (what, k, list(map(int, i)), y[i].item(), x[i].item())
        elif th['k'] == 'response':
            if (x is None) != (y is None) or (x is not None and not abs(x - y) <= 1e-5 * (1. + abs(x))):
                return '%s%s is %r, %r was saved' % (what, k, y, x)
        elif x != y:
            return '%s%s is %r, %r was saved' % (what, k, y, x)
    return None


def differs(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if x is None or y is None or not np.array_equal(x, y, equal_nan=True):
                return k
        elif x != y:
            return k
    return None
