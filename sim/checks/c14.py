"""C14: an interrupted call can simply be run again."""
import gc
import os

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs

SQUERIES = [('fit', 3), ('asinh', 5), ('to_ab', 2), ('kcorrect', 2), ('absmag', 3), ('fitmc', 1), ('derived', 1)]
QUERIES = [('fit', 4), ('fitmc', 2), ('kcorrect', 4), ('absmag', 4), ('derived', 4), ('reconstruct', 2),
           ('reconstruct_out', 2), ('absmag_mc', 1.5), ('derived_mc', 1.5), ('to_ab', 1), ('asinh', 1)]


class World:
    """One process with the objects of the scenario."""

    def __init__(self, c, node, tag):
        self.c, self.node, self.tag = c, node, tag
        self.slots = {}         # slot -> [object, thing, redshift]
        self.files = {}         # slot -> (path, thing)
        self.dirty = set()      # slots whose last modification was interrupted
        self.nf = 0

    def path(self, s):
        return self.c.path('%s%s.fits' % (self.tag, s))

    def action(self, q):
        """(callable, verification after success, modified slots) or None."""
        c, node, slots = self.c, self.node, self.slots
        o, s = q['o'], q['s']
        have = slots.get(s)
        if have is not None and s in self.dirty:
            return None
        if o == 'make':
            box = {}

            def f():
                box['x'] = objs.make(c, node, q['th'])

            def v():
                slots[s] = [box['x'], q['th'], 0.0]
                return objs.error(c, node, q['th'], box['x'], seed=q['seed'])
            return f, v, ()
        if o == 'list':
            box = {}

            def f():
                box['x'] = node.response.all_responses(check_validity=q['valid'])

            def v():
                if sorted(box['x']) != sorted(fx.ALLRESP):
                    return 'the listing is wrong: missing %r, extra %r' % (
                        sorted(set(fx.ALLRESP) - set(box['x'])),
                        sorted(set(box['x']) - set(fx.ALLRESP)))
                if q['valid']:
                    rd = node.rdict()
                    for n in box['x']:
                        if n not in rd:
                            return 'after the listing %s is not loaded' % n
            return f, v, ()
        if o in ('dict', 'reload'):
            def f():
                node.rdict().load_response(q['r'], reload=(o == 'reload'))

            def v():
                rd = node.rdict()
                if q['r'] not in rd:
                    return 'after loading, %s is not in the dictionary' % q['r']
                return model.check_response(rd[q['r']], q['r'])
            return f, v, ()
        if o == 'basel':
            box = {}
            p = os.path.join(node.install, 'data', 'basel', q['star'])

            def f():
                box['x'] = node.utils.read_basel(p)

            def v():
                w, fl = model.basel(q['star'])
                return (model.check_star_info(box['x'][0], q['star']) or
                        model.close(box['x'][1], w, 1e-5, 0, 'model wavelengths') or
                        model.close(np.asarray(box['x'][2])[0], fl, 1e-5, 0, 'model fluxes'))
            return f, v, ()
        if o == 'build':
            box = {}
            spec = q['spec']
            T = have[0] if have is not None and have[1]['k'] == 'template' else None
            if T is not None:
                spec = dict(spec, tmpl=have[1]['tmpl'], interp=have[1]['interp'])
                if model.kmodel(spec).nsed != fx.tdata(spec['tmpl']).nsed:
                    return None

            def f():
                box['x'] = build(c, node, spec, T)

            def v():
                if T is not None:
                    have[2] = 0.0
                slots[q['t']] = [box['x'], dict(k='kc', spec=spec), 0.0]
                return objs.kc_error(c, node, box['x'], model.kmodel(spec), '', 2, q['seed'])
            return f, v, ((s,) if T is not None and have[2] != 0. else ())
        if have is None:
            return None
        k, th, z = have
        if o == 'save':
            def f():
                objs.save(node, th, k, self.path(s))

            def v():
                self.files[s] = (self.path(s), th)
                r = objs.load(c, node, th, self.path(s))
                return objs.error(c, node, th, r, seed=q['seed'], what='what was saved: ')
            return f, v, ()
        if o in ('load', 'onto'):
            if q['t'] not in self.files:
                return None
            p, ft = self.files[q['t']]
            if o == 'load':
                box = {}

                def f():
                    box['x'] = objs.load(c, node, ft, p)

                def v():
                    slots[s] = [box['x'], ft, 0.0]
                    return objs.error(c, node, ft, box['x'], seed=q['seed'])
                return f, v, ()
            if ft['k'] != th['k']:
                return None
            if th['k'] == 'kc' and (ft['spec']['cls'] != th['spec']['cls'] or
                                    ft['spec'].get('cosmo') != th['spec'].get('cosmo')):
                return None
            if th['k'] == 'response' and th.get('shared'):
                return None
            if self.kin(s) - {s}:
                return None         # somebody else holds this object

            def f():
                objs.load(c, node, ft, p, onto=k)

            def v():
                slots[s] = [k, dict(ft, interp=th.get('interp')) if th['k'] in ('sed', 'template') else ft, 0.0]
                return objs.error(c, node, slots[s][1], k, seed=q['seed'])
            return f, v, (s,)
        if o == 'shift':
            if th['k'] not in ('sed', 'template'):
                return None
            others = self.kin(s) - {s}
            if any(slots[x][1]['k'] == 'kc' for x in others):
                return None

            def f():
                k.set_redshift(redshift=q['z'])

            def v():
                have[2] = q['z']
                return objs.error(c, node, th, k, z=q['z'])
            return f, v, (s,)
        if o == 'project':
            if th['k'] not in ('sed', 'template'):
                return None
            box = {}

            def f():
                r = node.response.Response(filename=q['r'] + '.dat')
                box['x'] = r.project(wave=k.wave, flux=k.flux)

            def v():
                w, fl = np.asarray(k.wave, 'f8'), np.atleast_2d(np.asarray(k.flux, 'f8'))
                b = model.band(q['r'])
                if w[0] > b.wave[0] or w[-1] < b.wave[-1]:
                    return None
                return model.close(np.atleast_1d(box['x']), b.project(w, fl), 2e-3,
                                   2e-3 * np.abs(b.project(w, fl)).max(), 'projection')
            return f, v, ()
        if o == 'plot':
            if th['k'] not in ('sed', 'template'):
                return None
            import matplotlib.pyplot as plt
            plt.close('all')
            fig = plt.figure()          # the client's; plots go into the current figure

            def f():
                k.plot()

            def v():
                ls = fig.gca().lines
                n = len(ls)
                if n < k.nsed:
                    return '%d curves were plotted for %d spectra' % (n, k.nsed)
                return None
            return f, v, ()
        if o == 'query':
            if th['k'] != 'kc':
                return None
            M = model.kmodel(th['spec'])
            box = {}

            def f():
                box['e'] = run_query(c, node, k, M, q['q'])

            def v():
                return box['e']
            return f, v, ()
        raise AssertionError(o)

    def kin(self, s):
        """Slots sharing state with slot s."""
        k = self.slots[s][0]
        out = set()
        for x, (y, _, _) in self.slots.items():
            if y is k or getattr(y, 'templates', None) is k:
                out.add(x)
        return out

    def fingerprints(self, skip):
        return {s: (k, objs.fingerprint(th, k)) for s, (k, th, z) in self.slots.items()
                if s not in skip and s not in self.dirty}


class C14(Check):
    id = 'C14'
    rule = ('A case is a history of 4-12 makes, loads, restores, saves, dictionary loads and reloads, '
            'listings, redshift changes, projections, table builds (from shared templates too) and all '
            'queries; a first, undisturbed execution in another process gives the number of source lines, '
            'library calls and system calls of each. In the second, an interrupt is raised at a chosen one '
            'of those, up to three times in a row, other calls follow, then the same call is repeated. '
            'Non-trivial when an interrupt arrived. Distinct = distinct event logs.')
    probes = ('interrupted', 'at_line', 'in_library_call', 'in_system_call', 'interrupted_again',
              'other_calls_between', 'rerun_succeeded', 'i:make', 'i:save', 'i:load', 'i:onto', 'i:dict',
              'i:reload', 'i:list', 'i:shift', 'i:build', 'i:query', 'i:project', 'i:basel',
              'built_from_shared_template', 'bystander_compared', 'interrupted_in_thread', 'survey_session')
    assumptions = ('an interrupt arrives between source lines, at a library call or at a system call of the '
                   'package\'s own code paths',)

    def gen(self, rng, i, tier):
        ops = []
        slots = ['a', 'b', 'c']
        survey = rng.random() < 0.15     # work with the survey classes
        for s in slots[:1 if survey else rng.randint(1, 3)]:
            th = objs.gen_thing(rng, small=True)
            if survey:
                th = dict(k='kc', spec=gen_spec(rng, cls=weighted(rng, [('KcorrectSDSS', 5), ('KcorrectGST', 1)]),
                                                maxband=3, far=0.))
            ops.append(dict(o='make', s=s, th=th))
        for s in slots:
            if rng.random() < 0.5:
                ops.append(dict(o='save', s=s))
        for _ in range(rng.randint(3, 8 if tier == 'quick' else 16)):
            o = weighted(rng, [('make', 1.5), ('save', 2), ('load', 2), ('onto', 2), ('dict', 1), ('reload', 1),
                               ('list', 0.6), ('shift', 2), ('build', 2.5), ('query', 4), ('project', 0.8),
                               ('basel', 0.3), ('plot', 0.25)])
            if survey and rng.random() < 0.6:
                o = 'query'
            q = dict(o=o, s=pick(rng, slots) if not survey or o != 'query' else 'a')
            if o == 'make':
                q['th'] = objs.gen_thing(rng, small=True)
            if o in ('load', 'onto', 'build'):
                q['t'] = pick(rng, slots) if o != 'onto' or rng.random() < 0.4 else q['s']
            if o == 'build':
                q['spec'] = gen_spec(rng, cls=weighted(rng, [('Kcorrect', 8), ('KcorrectSDSS', 1)]), maxband=3, far=0.)
            if o == 'query':
                q['q'] = gen_query(rng, 1, SQUERIES if survey else QUERIES)
                q['q'].pop('cat', None)
            if o == 'shift':
                q['z'] = pick(rng, [0., 0.3, 1.2, 0.05])
            if o in ('dict', 'reload', 'project'):
                q['r'] = pick(rng, fx.ALLRESP)
            if o == 'list':
                q['valid'] = rng.random() < 0.8
            if o == 'basel':
                q['star'] = pick(rng, ['lcbsun.ori', 'lcbvega.ori'])
            ops.append(q)
        for q in ops:
            q['seed'] = rng.randrange(10**6)
            if q['o'] == 'make' and q['th']['k'] == 'kc' and q['th']['spec']['cls'] == 'KcorrectGST':
                q['th']['spec'] = dict(q['th']['spec'], nz=2)
            q['int'] = []
            if rng.random() < (0.35 if q['o'] == 'make' else 0.75):
                for _ in range(weighted(rng, [(1, 5), (2, 2), (3, 1)])):
                    q['int'].append([weighted(rng, [('line', 5), ('call', 2), ('io', 2)]), rng.random()])
            q['mid'] = []
            if q['int'] and rng.random() < 0.4:
                q['mid'] = [rng.randrange(len(ops)) for _ in range(rng.randint(1, 2))]
        scn = dict(ops=ops)
        if survey:
            scn['survey'] = True
        if rng.random() < 0.12:
            scn['threads'] = True
            scn['sched'] = dict(seed=rng.randrange(10**9), p=pick(rng, [0.02, 0.1, 0.3]))
        return scn

    def valid(self, scn):
        return bool(scn['ops'])

    def shrinks(self, scn):
        for i, q in enumerate(scn['ops']):
            for f in ('mid', 'int'):
                if q.get(f):
                    s = dict(scn, ops=[dict(x) for x in scn['ops']])
                    s['ops'][i][f] = q[f][1:]
                    yield s

    def dictionary(self, c, node, what):
        rd = node.rdict()
        for n in list(rd.keys()):
            if n not in fx.ALLRESP:
                x = rd[n]
                if not isinstance(x, node.response.Response) or x.interp is None or x.wave is None or \
                        x.fwhm is None or x.lambda_eff is None or x.nwave != len(x.wave):
                    c.fail('incomplete-entry', what + 'the dictionary entry of %s is incomplete' % n)
                continue
            e = model.check_response(rd[n], n)
            if e:
                c.fail('incomplete-entry', what + 'dictionary entry %s: %s' % (n, e))

    def bystanders(self, c, w, fps, what):
        for s, (k, fp) in fps.items():
            if s not in w.slots or w.slots[s][0] is not k:
                continue
            d = objs.differs(fp, objs.fingerprint(w.slots[s][1], k))
            if d:
                c.fail('changed-by-interrupted-call', what + 'object %s (%s) changed: %s'
                       % (s, w.slots[s][1]['k'], d))
            c.stats['probe:bystander_compared'] += 1

    def run(self, c, scn):
        if scn.get('survey'):
            c.stats['probe:survey_session'] += 1
        # how many lines, calls and system calls each operation makes
        w = World(c, c.boot('dry'), 'd')
        counts = []
        for j, q in enumerate(scn['ops']):
            a = w.action(q)
            if a is None:
                counts.append(None)
                continue
            f, v, _ = a
            r = c.op(f, 'dry %d' % j, count_calls=any(x[0] == 'call' for x in q['int']))
            if not r.ok:
                c.fail('unexpected-error', 'undisturbed step %d (%s) %s' % (j, q['o'], r.describe()))
            counts.append((r.steps, r.calls, r.counts['any'] - r.counts['close'] - r.counts['close_w'],
                           r.counts['any']))
            e = v()
            if e:
                c.fail('wrong-result', 'undisturbed step %d (%s): %s' % (j, q['o'], e))
        w = World(c, c.boot('p0'), 'f')
        if scn.get('threads'):
            return self.threads(c, scn, w, counts)
        for j, q in enumerate(scn['ops']):
            what = 'step %d (%s): ' % (j, q['o'])
            for n, (how, where) in enumerate(q['int'] + [(None, 0.)]):
                a = w.action(dict(q)) if how or n == 0 else self.again(w, q)
                if n > 0:
                    a = self.again(w, q)
                if a is None:
                    break
                f, v, modified = a
                kw = {}
                if how and counts[j]:
                    st, ca, _, sy = counts[j]
                    if how == 'line':
                        kw['kbd_at'] = 1 + int(where * max(1, st))
                    elif how == 'call':
                        kw['call_at'] = 1 + int(where * max(1, ca))
                        kw['call_exc'] = KeyboardInterrupt
                    else:
                        kw['faults'] = [dict(kind='interrupt', at='any', k=int(where * max(1, sy)))]
                skip = set()
                for s in modified:
                    skip |= {s}
                fps = w.fingerprints(skip)
                fired0 = c.stats['fault:keyboard_interrupt']
                r = c.op(f, q['o'], **kw)
                fired = c.stats['fault:keyboard_interrupt'] - fired0
                if r.ok:
                    if fired:
                        c.fail('interrupt-swallowed', what + 'the interrupt was lost: the call returned')
                    for s in modified:
                        w.dirty.discard(s)
                    e = v()
                    if e:
                        c.fail('wrong-result', what + ('after an interrupted attempt: ' if n else '') + e)
                    if n:
                        c.stats['probe:rerun_succeeded'] += 1
                    break
                if not fired:
                    c.fail('unexpected-error', what + ('run again after an interrupt: ' if n else '') + r.describe())
                if not isinstance(r.exc, KeyboardInterrupt):
                    c.fail('interrupt-swallowed', what + 'the interrupt was turned into: ' + r.describe())
                r = None
                c.stats['probe:interrupted'] += 1
                c.stats['probe:i:' + q['o']] += 1
                c.stats['probe:' + {'line': 'at_line', 'call': 'in_library_call', 'io': 'in_system_call'}[how]] += 1
                if n:
                    c.stats['probe:interrupted_again'] += 1
                if q['o'] == 'build' and q['s'] in w.slots and w.slots[q['s']][1]['k'] == 'template':
                    c.stats['probe:built_from_shared_template'] += 1
                for s in modified:
                    w.dirty.add(s)
                self.dictionary(c, w.node, what + 'after the interrupt: ')
                self.bystanders(c, w, fps, what)
                for m in q['mid'] if n == 0 else ():
                    p = scn['ops'][m % len(scn['ops'])]
                    if p['o'] in ('make', 'load', 'onto', 'build', 'shift'):
                        continue        # would change what the repeated call is about
                    b = w.action(p)
                    if b is None:
                        continue
                    c.stats['probe:other_calls_between'] += 1
                    fps2 = w.fingerprints(set())
                    r = c.op(b[0], 'between')
                    if not r.ok:
                        c.fail('unexpected-error', '%sthen %s %s' % (what, p['o'], r.describe()))
                    e = b[1]()
                    if e:
                        c.fail('wrong-result', '%sthen %s: %s' % (what, p['o'], e))
                    self.bystanders(c, w, fps2, what + 'then %s: ' % p['o'])
        self.final(c, w)

    def again(self, w, q):
        """The same call on the same objects, dirty or not."""
        d, w.dirty = w.dirty, set()
        try:
            return w.action(q)
        finally:
            w.dirty = d

    def final(self, c, w):
        self.dictionary(c, w.node, 'at the end: ')
        for s, (k, th, z) in sorted(w.slots.items()):
            if s in w.dirty:
                continue
            if th['k'] == 'kc':
                # the templates may have been moved since
                zt = [x for x in w.slots.values() if x[0] is k.templates]
                z = zt[0][2] if zt else z
            e = objs.error(c, w.node, th, k, seed=17, z=z, queries=3)
            if e:
                c.fail('object-damaged', 'at the end, object %s: %s' % (s, e))

    def threads(self, c, scn, w, counts):
        """The main thread is interrupted while another one works."""
        node = w.node
        bad = []
        # objects of the other thread
        spec = dict(cls='Kcorrect', tmpl='t2', resp=['sdss_g0', 'sdss_r0'], zr=[0., 0.5], nz=3, ab=False)
        M = model.kmodel(spec)
        other = c.must(lambda: build(c, node, spec), 'other')
        qs = [q['q'] for q in scn['ops'] if q['o'] == 'query'][:4] or [dict(o='fit', n=2, seed=5, form='f4')]
        names = [q['r'] for q in scn['ops'] if q.get('r')][:3] or ['sdss_g0']

        def main():
            for j, q in enumerate(scn['ops']):
                for n, (how, where) in enumerate(q['int'][:1] + [(None, 0.)]):
                    a = w.action(q) if n == 0 else self.again(w, q)
                    if a is None:
                        break
                    f, v, modified = a
                    f0 = c.stats['fault:keyboard_interrupt']
                    try:
                        if how and counts[j]:
                            c.sim.current.kbd_in = 1 + int(where * max(1, counts[j][0]))
                        try:
                            f()
                        finally:
                            c.sim.tasks[0].kbd_in = None
                    except KeyboardInterrupt as x:
                        x.__traceback__ = None
                        if c.stats['fault:keyboard_interrupt'] == f0:
                            raise
                        c.stats['probe:interrupted_in_thread'] += 1
                        for s in modified:
                            w.dirty.add(s)
                        continue
                    except Exception as x:
                        bad.append('step %d (%s) raised %r' % (j, q['o'], x))
                        return
                    if c.stats['fault:keyboard_interrupt'] != f0:
                        bad.append('step %d (%s): the interrupt was lost' % (j, q['o']))
                        return
                    for s in modified:
                        w.dirty.discard(s)
                    e = v()
                    if e:
                        bad.append('step %d (%s): %s' % (j, q['o'], e))
                        return
                    break

        def worker():
            for q in qs:
                try:
                    e = run_query(c, node, other, M, q)
                    rd = node.rdict()
                    for n in names:
                        rd.load_response(n)
                        e = e or model.check_response(rd[n], n)
                except Exception as x:
                    e = 'raised %r' % (x,)
                if e:
                    bad.append('other thread, %s: %s' % (q['o'], e))
                    return
        tasks = c.sim.run_tasks([main, worker])
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        c.sim.tasks = []
        if bad:
            c.fail('wrong-result', bad[0])
        self.final(c, w)
        e = objs.kc_error(c, node, other, M, 'the other thread\'s object: ', 2, 3)
        if e:
            c.fail('object-damaged', e)

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['fault:keyboard_interrupt'] > 0


CHECK = C14()
