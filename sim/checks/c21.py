"""C21: long sessions run in bounded memory."""
import copy
import gc
import os
import pickle
import sys
import threading
import types
import urllib.parse
import warnings

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import c14, objs

LOOPS = ('fit', 'fitmc', 'kcorrect', 'absmag', 'absmag_mc', 'derived', 'derived_mc', 'reconstruct', 'reconstruct_out',
         'shift', 'project', 'to_ab', 'sed', 'response', 'outside', 'refused', 'plot', 'listbad', 'listother',
         'utils', 'nofile')
RERR = ('eio', 'enoent', 'emfile', 'enospc')


STOP = (type(sys), types.FrameType, types.CodeType, types.BuiltinFunctionType, threading.Thread)


def held(roots):
    """Size of everything reachable from `roots` that no other module holds."""
    seen = set()
    todo = list(roots)
    total = 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, STOP):
            continue
        if isinstance(x, type) and not x.__module__.startswith('kcorrect'):
            continue
        if isinstance(x, types.FunctionType) and not (x.__module__ or '').startswith('kcorrect'):
            continue
        seen.add(id(x))
        if isinstance(x, (dict, set)):
            total += 64 * len(x)      # not its allocation, which comes in steps
        else:
            total += sys.getsizeof(x)
        todo.extend(gc.get_referents(x))
    return total


def grows(x):
    return min(b - a for a, b in zip(x, x[1:])) >= 2


class C21(Check):
    id = 'C21'
    rule = ('A case is a session of equal rounds: 1-5 makes, saves, loads, restores, builds, projections, dictionary '
            'loads, listings, queries or copies (some failing with I/O errors, failed allocations or '
            'interrupts), and a loop of one kind of call with ever new arguments; everything made is dropped and collected at the end '
            'of a round and what the package still holds (and the number of collectable objects of the process) is measured. Growth that goes on is followed for '
            'more rounds. Non-trivial when something was '
            'measured in at least four rounds. Distinct = distinct event logs.')
    probes = ('round', 'failed_call', 'interrupted_call', 'allocation_failed', 'loop_call', 'copied', 'suspected',
              'k:make', 'k:load', 'k:onto', 'k:dict', 'k:reload', 'k:list', 'k:shift', 'k:build', 'k:query', 'k:project',
              'k:save', 'k:copy') + tuple('loop:' + x for x in LOOPS)
    assumptions = ('what grows and stops growing within the rounds followed is a cache of bounded size',)
    warm, measured, confirm = 3, 3, 24

    def gen(self, rng, i, tier):
        ops = self.session(rng, i, tier)
        for q in ops:
            q['seed'] = rng.randrange(10**6)
            q.pop('int', None)
            q.pop('mid', None)
        loop = None
        if rng.random() < 0.5 or not ops:
            loop = dict(o=pick(rng, LOOPS), n=40 if tier == 'quick' else 80, seed=rng.randrange(10**6),
                        spec=dict(gen_spec(rng, cls=weighted(rng, [('Kcorrect', 4), ('KcorrectSDSS', 1)]), maxband=3,
                                           far=0.), nz=3))
            if loop['o'] == 'listbad':
                return dict(ops=[], loop=loop)
        return dict(ops=ops if loop is None or rng.random() < 0.2 else [], loop=loop)

    def session(self, rng, i, tier):
        """Work that is done again and again."""
        def fail(q, p=0.7):
            if rng.random() < p:
                q['fault'] = pick(rng, [['io', pick(rng, RERR)], ['line'], ['call']]) + [rng.random()]
            return q
        how = weighted(rng, [('file', 4), ('dict', 1), ('build', 1), ('list', 0.3), ('query', 1), ('copy', 0.7),
                             ('mixed', 1.5)])
        if how == 'mixed':
            ops = [q for q in c14.CHECK.gen(rng, i, tier)['ops'] if q['o'] != 'list']
            mk = [q for q in ops if q['o'] == 'make'][:2]
            rest = [q for q in ops if q not in mk]
            rng.shuffle(rest)
            return [fail(q, 0.3) for q in mk + rest[:rng.randint(1, 3)]]
        if how == 'dict':
            return [fail(dict(o=pick(rng, ['dict', 'reload']), r=pick(rng, fx.ALLRESP), s='a'))
                    for _ in range(rng.randint(1, 3))]
        if how == 'list':
            return [fail(dict(o='list', s='a', valid=rng.random() < 0.8))]
        th = objs.gen_thing(rng, small=True)
        if how == 'query' or how == 'copy' and rng.random() < 0.5:
            th = dict(k='kc', spec=gen_spec(rng, cls=weighted(rng, [('Kcorrect', 4), ('KcorrectSDSS', 1)]), maxband=3,
                                            far=0.))
        if how == 'build':
            th = dict(k='template', tmpl=pick(rng, fx.SMALL), interp=rng.random() < 0.5)
        ops = [fail(dict(o='make', s='a', th=th), 0.15)]
        if how == 'copy':
            return ops + [fail(dict(o='copy', s='a'), 0.3)]
        if how == 'build':
            return ops + [fail(dict(o='build', s='a', t='b', spec=gen_spec(rng, cls='Kcorrect', maxband=2, far=0.)))
                          for _ in range(rng.randint(1, 2))]
        if how == 'query':
            for _ in range(rng.randint(1, 2)):
                q = gen_query(rng, 1, c14.QUERIES)
                q.pop('cat', None)
                ops.append(fail(dict(o='query', s='a', q=q)))
            return ops
        ops.append(fail(dict(o='save', s='a'), 0.2))
        for _ in range(rng.randint(1, 2)):
            ops.append(fail(dict(o=pick(rng, ['load', 'onto', 'save']), s='a', t='a')))
        return ops

    def valid(self, scn):
        return bool(scn['ops']) or bool(scn['loop'])

    # ------------------------------------------------------------------
    def measure(self, c, node):
        """(bytes the package and the objects in use hold on to, collectable objects of the process)"""
        h = c.hash()
        c.sim.log[:] = [('log', h)]
        for _ in range(3):
            gc.collect()
        n = len(gc.get_objects())
        roots = [m.__dict__ for k, m in sorted(sys.modules.items()) if k.split('.')[0] == 'kcorrect'] + [self.loopobj]
        return held(roots), n

    def run(self, c, scn):
        with warnings.catch_warnings():
            warnings.simplefilter('default')
            warnings.showwarning = lambda *a, **k: None
            self.session_run(c, scn)

    def session_run(self, c, scn):
        inst = None
        if scn['loop'] and scn['loop']['o'] == 'listbad':
            inst = c.private_install()
            with c.quiet():
                for n in ('broken', 'broken2'):
                    with open(os.path.join(inst, 'data', 'responses', n + '.dat'), 'wb') as fp:
                        fp.write(b'this is not a response\n')
        node = c.boot('p0', inst) if inst else c.boot('p0')
        self.lengths = {}
        self.loopobj = None
        if scn['loop']:
            L = scn['loop']
            M = model.kmodel(L['spec'])
            k = c.must(lambda: build(c, node, L['spec']), 'build')
            t = c.must(lambda: node.template.Template(filename=c.pool('t2'), interpolate=bool(L['seed'] % 2)), 'make')
            r = c.must(lambda: node.response.Response(filename='sdss_g0.dat'), 'make')
            self.loopobj = (k, t, r, M)
        sizes = []
        rounds = self.warm + self.measured
        n = 0
        followed = False
        while n < rounds:
            self.round(c, node, scn, n)
            n += 1
            c.stats['probe:round'] += 1
            sizes.append(self.measure(c, node))
            if n == rounds and not followed:
                if any(grows(x) for x in zip(*sizes[self.warm - 1:])):
                    # is it a cache that fills up?
                    followed = True
                    c.stats['probe:suspected'] += 1
                    rounds += self.confirm
        if followed:
            for what, x in zip(('bytes held by the package', 'collectable objects'), zip(*sizes[-9:])):
                if grows(x):
                    c.fail('memory-grows', 'every round of the same work leaves %d more %s behind (%d rounds, %s%s)'
                           % (min(b - a for a, b in zip(x, x[1:])), what, n, ' '.join(q['o'] for q in scn['ops']),
                              '' if not scn['loop'] else '%s%d x %s' % (' ' if scn['ops'] else '', scn['loop']['n'],
                                                                        scn['loop']['o'])))
        self.loopobj = None
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')

    def round(self, c, node, scn, n):
        w = c14.World(c, node, 'f')
        for j, q in enumerate(scn['ops']):
            a = self.action(c, node, w, q)
            if a is None:
                continue
            f, v, modified = a
            kw = {}
            if q.get('fault'):
                how, where = q['fault'][0], q['fault'][-1]
                if j not in self.lengths:
                    r = c.op(f, 'length', count_calls=how == 'call')
                    if not r.ok:
                        c.fail('unexpected-error', 'undisturbed %s %s' % (q['o'], r.describe()))
                    self.lengths[j] = (r.steps, r.calls, r.counts['any'])
                    r = None
                    a = self.action(c, node, w, q)
                    f, v, modified = a
                m = self.lengths[j]
                if how == 'line':
                    kw['kbd_at'] = 1 + int(where * max(1, m[0]))
                elif how == 'call':
                    kw['call_at'] = 1 + int(where * max(1, m[1]))
                else:
                    kw['faults'] = [dict(kind=q['fault'][1], at='any', k=int(where * max(1, m[2])))]
            r = c.op(f, q['o'], **kw)
            c.stats['probe:k:' + q['o']] += 1
            iofired = bool(kw.get('faults')) and not r.unfired
            if r.ok:
                e = None if q['o'] == 'list' and iofired else v()
                if e:
                    c.fail('wrong-result', 'round %d, %s: %s' % (n, q['o'], e))
            else:
                if not kw:
                    c.fail('unexpected-error', 'round %d, %s %s' % (n, q['o'], r.describe()))
                c.stats['probe:' + ('interrupted_call' if isinstance(r.exc, KeyboardInterrupt) else 'allocation_failed'
                                    if isinstance(r.exc, MemoryError) else 'failed_call')] += 1
                for s in modified:
                    w.slots.pop(s, None)
                if q['o'] == 'save':
                    w.files.pop(q['s'], None)
            r = a = f = v = None
        if scn['loop']:
            self.loop(c, node, scn['loop'], n)

    def action(self, c, node, w, q):
        if q['o'] != 'copy':
            return w.action(dict(q))
        if q['s'] not in w.slots:
            return None
        have = w.slots[q['s']]
        box = {}

        def f():
            box['x'] = copy.deepcopy(have[0])
            box['y'] = pickle.loads(pickle.dumps(have[0]))

        def v():
            c.stats['probe:copied'] += 1
            return objs.error(c, node, have[1], box['x'], z=have[2] if have[1]['k'] != 'kc' else 0.)
        return f, v, ()

    def loop(self, c, node, L, n):
        """Calls of one kind, with arguments never used before."""
        k, t, r, M = self.loopobj
        rs = np.random.RandomState((L['seed'] + 7919 * n) % (2**32 - 1))
        o = L['o']
        ns, nb = M.nsed, len(M.resp)
        lo, hi = max(0.01, float(M.zr[0])), float(M.zr[1]) * 0.7
        np.random.seed(n)

        n_ = L['n']
        if o == 'plot':
            import matplotlib.pyplot as plt
            fig = plt.figure()
            n_ = 3
        elif o == 'listbad':
            n_ = 1
        elif o == 'nofile':
            n_ = 8
            if n == 0:
                for x in range(400):        # astropy looks at file names through this bounded cache: full at once
                    urllib.parse.urlsplit('none%d' % x)

        def calls():
            for _ in range(n_):
                z = np.float32(rs.uniform(lo, hi))
                m = np.float32(10.**rs.uniform(-10., -8., nb))
                iv = np.float32(400. / m**2)
                co = np.float32(rs.uniform(0.1, 1., ns))
                if o == 'fit':
                    k.fit_coeffs(redshift=z, maggies=m, ivar=iv)
                elif o == 'fitmc':
                    k.fit_coeffs(redshift=z, maggies=m, ivar=iv, mc=1)
                elif o == 'kcorrect':
                    k.kcorrect(redshift=z, coeffs=co)
                elif o == 'absmag':
                    k.absmag(redshift=z, maggies=m, ivar=iv, coeffs=co)
                elif o == 'absmag_mc':
                    k.absmag_mc(redshift=z, maggies_mc=m[:, None], ivar=iv, coeffs_mc=co[:, None])
                elif o == 'derived':
                    k.derived(redshift=z, coeffs=co)
                elif o == 'derived_mc':
                    k.derived_mc(redshift=z, coeffs_mc=co[:, None])
                elif o == 'reconstruct':
                    k.reconstruct(redshift=z, coeffs=co)
                elif o == 'reconstruct_out':
                    k.reconstruct_out(redshift=z, coeffs=co)
                elif o == 'shift':
                    t.set_redshift(redshift=z)
                elif o == 'project':
                    r.project(wave=t.restframe_wave, flux=t.restframe_flux * (1. + z))
                elif o == 'to_ab':
                    k.to_ab(maggies=m, ivar=iv)
                elif o == 'sed':
                    node.template.SED(wave=t.restframe_wave, flux=t.restframe_flux[0] * (1. + z))
                elif o == 'response':
                    node.response.Response(wave=r.wave * (1. + z), response=r.response)
                elif o == 'plot':
                    t.plot()
                    plt.clf()
                elif o == 'listbad':
                    node.response.all_responses(check_validity=True)
                elif o == 'listother':
                    try:
                        node.response.all_responses(response_dir=c.path('x%d' % rs.randint(10**9)) if rs.rand() < 0.3
                                                    else os.path.join(node.install, 'data', 'basel'))
                    except OSError:
                        pass
                elif o == 'utils':
                    node.utils.maggies2flambda(maggies=m, ivar=iv, responses=list(M.resp))
                    node.utils.error_floor(floor=rs.rand(nb), maggies=m, ivar=iv)
                    node.utils.sdss_ab_correct(maggies=np.resize(m, 5), ivar=np.resize(iv, 5), abfix=rs.rand(5))
                    node.utils.sdss_asinh_to_maggies(mag=rs.uniform(14, 24, 5), mag_err=rs.rand(5))
                elif o == 'nofile':
                    for x in (k, t, r):
                        try:
                            x.fromfits(filename=c.path('none%d.fits' % rs.randint(10**9)))
                        except OSError:
                            pass
                elif o == 'outside':
                    try:
                        k.fit_coeffs(redshift=np.float32(M.zr[1] + z), maggies=m, ivar=iv)
                        k.kcorrect(redshift=np.float32(M.zr[1] + z), coeffs=co)
                    except ValueError:
                        pass
                else:
                    try:
                        node.rdict().load_response('absent_%f' % z)
                    except ValueError:
                        pass
                c.stats['probe:loop_call'] += 1
        c.must(calls, 'round %d, %d x %s' % (n, L['n'], o))
        if o == 'plot':
            plt.close(fig)
        c.stats['probe:loop:' + o] += 1

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['probe:round'] >= 4


CHECK = C21()
