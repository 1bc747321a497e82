"""C06: building tables, alone, concurrently, and with failures."""
import os

import numpy as np

import model
from engine import Check, Violation
from checks.common import *
from checks import objs

RERR = ('eio', 'enoent', 'emfile', 'estale')


class C06(Check):
    id = 'C06'
    rule = ('A case is either 2-3 threads building K-correction objects from, reading, and projecting '
            'shared template sets under a seeded schedule, or a history of 2-6 builds with redshifts in '
            'between and an allocation failure at a random library call or an I/O error at a random '
            'system call; non-trivial when a pre-emption landed inside a build or a fault fired. Distinct '
            '= distinct pre-emption sequences / event logs.')
    probes = ('threads', 'same_template_two_builders', 'reader_during_build', 'template_was_redshifted',
              'failed_build', 'rebuilt_after_failure', 'more_than_1000_templates',
              'exactly_1000_templates', 'interpolated_templates', 'output_table', 'nearly_equal_setups',
              'band_file_changed', 'long_redshift_grid', 'fitter_alone', 'table_built_again', 'failed_rebuild',
              'band_changed_during_build')
    assumptions = ()

    def gen(self, rng, i, tier):
        big = rng.random() < 0.12
        threads = not big and rng.random() < 0.5
        if big:
            tm = [dict(t=pick(rng, ['many', 'kilo', 'kilo1']), interp=rng.random() < 0.15)]
        else:
            tm = [dict(t=pick(rng, fx.SMALL), interp=rng.random() < 0.5) for _ in range(rng.randint(1, 2))]
        ops = []
        nt = rng.randint(2, 3)
        for j in range(rng.randint(2, 3) if big else rng.randint(2, 6)):
            a = rng.randrange(len(tm))
            o = weighted(rng, [('build', 6), ('read', 2), ('project', 1)] if threads else
                         [('build', 6), ('shift', 2), ('band', 1), ('again', 0.8)])
            if j == 0:
                o = 'build'
            q = dict(o=o, t=j % nt, tm=a)
            if o == 'build':
                q['spec'] = gen_spec(rng, cls='Kcorrect', tmpl=tm[a]['t'], maxband=2 if big else 3)
                q['spec']['interp'] = tm[a]['interp']
                old = [x['spec'] for x in ops if x['o'] == 'build' and x['tm'] == a]
                if old and not big and rng.random() < 0.5:
                    q['spec'] = twist(rng, pick(rng, old))
                    q['spec'].pop('fitter', None)
                    q['twin'] = True
                elif not big and not threads and rng.random() < 0.02:
                    q['spec'].update(resp=[pick(rng, fx.OPTICAL)], out=None, map=None,
                                     nz=pick(rng, [999, 1000, 1001, 1300]))
                elif rng.random() < 0.12:
                    q['spec'].update(fitter=True, out=None, map=None, cosmo=None)
                if big:
                    q['spec'].update(nz=2 if rng.random() < 0.5 else 3, out=None, map=None)
                if not threads and q['spec']['nz'] < 100:
                    u = rng.random()
                    if u < 0.4:
                        q['call'] = rng.random()
                    elif u < 0.55:
                        q['fault'] = dict(kind=pick(rng, RERR), at='any', where=rng.random())
            elif o == 'again':
                q['k'] = rng.randrange(8)
                if rng.random() < 0.5:
                    q['call'] = rng.random()
            elif o == 'shift':
                q['z'] = pick(rng, [0.2, -0.1, 0.9])
            elif o == 'band':
                q['r'] = pick(rng, rng.choice([x for x in ops if x['o'] == 'build'])['spec']['resp'])
                q['v'] = pick(rng, [1, 2])
            elif o == 'project':
                q['r'] = pick(rng, fx.OPTICAL)
            ops.append(q)
        scn = dict(tm=tm, ops=ops, warm=rng.random() < 0.6,
                   z0=[pick(rng, [0., 0., 0.3]) for _ in tm])
        if threads and rng.random() < 0.35:
            # meanwhile one of the threads replaces the file of a band and reloads it
            r = pick(rng, pick(rng, [x for x in ops if x['o'] == 'build'])['spec']['resp'])
            t = rng.randrange(nt)
            for v in (3, 6)[:rng.randint(1, 2)]:
                ops.insert(rng.randrange(len(ops) + 1), dict(o='band', t=t, tm=0, r=r, v=v))
            for q in ops:
                if q['o'] == 'build' and rng.random() < 0.5 and r not in q['spec']['resp']:
                    q['spec']['resp'] = q['spec']['resp'][:-1] + [r]
                    q['spec']['map'] = q['spec']['out'] = None
            scn['warm'] = True
        if threads:
            scn['sched'] = dict(seed=rng.randrange(2**31), p=pick(rng, [0.02, 0.1, 0.4]),
                                instr=rng.random() < 0.1)
        return scn

    def valid(self, scn):
        return any(q['o'] == 'build' for q in scn['ops'])

    def run(self, c, scn):
        self.inst = None
        if any(q['o'] == 'band' for q in scn['ops']):
            self.inst = c.private_install()
        node = c.boot('p0', self.inst)
        tms = []
        for a, d in enumerate(scn['tm']):
            t = c.must(lambda: node.template.Template(filename=c.pool(d['t']), interpolate=d['interp']),
                       'load templates')
            if scn['z0'][a]:
                c.must(lambda: t.set_redshift(redshift=scn['z0'][a]), 'redshift')
                c.stats['probe:template_was_redshifted'] += 1
            tms.append(t)
            n = fx.tdata(d['t']).nsed
            if n > 1000:
                c.stats['probe:more_than_1000_templates'] += 1
            elif n == 1000:
                c.stats['probe:exactly_1000_templates'] += 1
            if d['interp']:
                c.stats['probe:interpolated_templates'] += 1
        if scn['warm']:
            for q in scn['ops']:
                for r in q.get('spec', {}).get('resp', []) + [q.get('r')]:
                    if r:
                        c.must(lambda: node.rdict().load_response(r), 'load')
        if 'sched' in scn or 'preempts' in scn:
            self.concurrent(c, node, scn, tms)
        else:
            self.history(c, node, scn, tms)

    def good(self, c, node, k, spec, what):
        M = model.kmodel(spec)
        if spec.get('fitter'):
            return self.fitter(c, node, k, M, what)
        if M.out != M.resp:
            c.stats['probe:output_table'] += 1
        return config_error(k, M, what) or table_error(k, M, what)

    def fitter(self, c, node, k, M, what):
        c.stats['probe:fitter_alone'] += 1
        if [str(x) for x in k.responses] != M.resp or int(k.nredshift) != len(M.z) or \
                bool(k.abcorrect) != bool(M.ab):
            return what + 'configuration of the fitter %r' % ((k.responses, k.nredshift, k.abcorrect),)
        e = (model.close(k.redshift_range, M.zr, 1e-6, 1e-7, what + 'redshift_range') or
             model.close(k.redshifts, M.z, 1e-6, 1e-6, what + 'redshift grid') or self.input_table(k, M, what))
        if e or c.sim.current is not None or abs(float(k.templates.redshift)) > 1e-9:
            return e
        for o in ('fit', 'reconstruct'):
            e = run_query(c, node, k, M, dict(o=o, kc=0, n=2, seed=len(what), form='f4', bs=0.1 * (o != 'fit')))
            if e:
                return what + o + ': ' + e
        return None

    @staticmethod
    def input_table(k, M, what):
        return model.close(k.Amatrix(np.asarray(M.z)), M.A, 1e-4, 1e-6 * np.abs(M.A).max(), what + 'band table')

    def replace(self, c, q):
        with c.quiet():
            p = os.path.join(self.inst, 'data', 'responses', q['r'] + '.dat')
            with open(p + '.new', 'w') as fp:
                fp.write(fx.variant_dat(q['r'], q['v']))
            os.replace(p + '.new', p)

    @staticmethod
    def versioned(k, spec, may, what):
        """Every band of every table is one of the versions it had during the build."""
        base = model.kmodel(spec)
        for nm, interp, names, A0 in (('input', k.Amatrix, base.resp, base.A),
                                      ('output', getattr(k, 'AmatrixOut', None), base.out, base.AO)):
            if interp is None:
                continue
            got = np.asarray(interp(np.asarray(base.z)))
            if got.shape != np.shape(A0):
                return '%s%s table has shape %r' % (what, nm, got.shape)
            for i, r in enumerate(names):
                es = []
                for v in sorted(may.get(r, {0})):
                    M = model.kmodel(dict(spec, versions={r: v}))
                    A = (M.A if nm == 'input' else M.AO)[:, i]
                    es.append(model.close(got[:, i], A, 1e-4, 1e-6 * np.abs(A).max(), 'band %s' % r))
                    if not es[-1]:
                        break
                else:
                    return '%s%s table: %s belongs to none of the versions %r: %s' % (
                        what, nm, r, sorted(may.get(r, {0})), es[0])
        return None

    @staticmethod
    def make(c, node, spec, t):
        if not spec.get('fitter'):
            return build(c, node, spec, t)
        k = node.fitter.Fitter(responses=list(spec['resp']), templates=t, redshift_range=list(spec['zr']),
                               nredshift=spec['nz'], abcorrect=spec['ab'])
        k.set_Amatrix()
        return k

    def settled(self, c, tms, scn, what, z=0.0):
        for a, t in enumerate(tms):
            e = template_error(t, fx.tdata(scn['tm'][a]['t']), what + 'template %d: ' % a,
                               z[a] if isinstance(z, list) else z)
            if e:
                c.fail('templates-damaged', e)

    # --------------------------------------------------------- concurrency
    def concurrent(self, c, node, scn, tms):
        c.stats['probe:threads'] += 1
        built, bad = [], []
        active = set()
        now = {}            # band -> versions its entry may have at present
        during = {}         # build -> band -> versions since it began
        changing = {q['r'] for q in scn['ops'] if q['o'] == 'band'}
        for r in changing:
            now[r] = {0}
        z0 = scn['z0']

        def look(a, what):
            """A template nobody moves away from z=0 is seen at z=0."""
            if z0[a]:
                return
            if active - {c.sim.current.id if c.sim.current else -1}:
                c.stats['probe:reader_during_build'] += 1
            e = sed_state_error(tms[a], 0.0, what)
            if e:
                bad.append(('seen-moving', 'task reading a template while others build from it: ' + e))

        def client(t, tid):
            def body():
                for j, q in enumerate(scn['ops']):
                    if q['t'] != t or bad:
                        continue
                    a = q['tm']
                    what = 'task %d, operation %d: ' % (t, j)
                    if q['o'] == 'build':
                        if any(x != tid for x in active):
                            c.stats['probe:same_template_two_builders'] += 1
                        active.add(tid)
                        mine = during[tid] = {r: set(v) for r, v in now.items()}
                        try:
                            k = self.make(c, node, q['spec'], tms[a])
                        except Exception as e:
                            bad.append(('unexpected-error', what + 'build raised %s: %s' % (type(e).__name__, e)))
                            return
                        finally:
                            active.discard(tid)
                        if changing & set(k.responses) | changing & set(q['spec'].get('out') or ()):
                            c.stats['probe:band_changed_during_build'] += any(len(x) > 1 for x in mine.values())
                            e = self.versioned(k, q['spec'], mine, what)
                        else:
                            built.append((k, q['spec'], what))
                            e = self.good(c, node, k, q['spec'], what)
                        if e:
                            bad.append(('wrong-table', e))
                    elif q['o'] == 'band':
                        for m in [now] + list(during.values()):
                            m.setdefault(q['r'], set()).add(q['v'])
                        self.replace(c, q)
                        node.rdict().load_response(q['r'], reload=True)
                        now[q['r']] = {q['v']}
                    elif q['o'] == 'read':
                        look(a, what)
                    elif q['o'] == 'project':
                        if z0[a] or q['r'] in changing:
                            continue
                        f = node.rdict()
                        f.load_response(q['r'])
                        if tms[a].interpolate:
                            got = f[q['r']].project(sed=tms[a])
                        else:
                            got = f[q['r']].project(wave=tms[a].wave, flux=tms[a].flux)
                        T = fx.tdata(scn['tm'][a]['t'])
                        exp = model.band(q['r']).project(T.wave, T.flux)
                        e = model.close(np.atleast_1d(got), exp, 1e-4, 1e-6 * exp.max(), 'projection')
                        if e:
                            bad.append(('wrong-projection', what + e))
                    look(a, what)
            return body
        tasks = sorted({q['t'] for q in scn['ops']})
        done = c.sim.run_tasks([client(t, i) for i, t in enumerate(tasks)])
        for t in done:
            if t.exc is not None:
                raise t.exc
        if bad:
            raise Violation(*bad[0])
        for k, spec, what in built:
            e = self.good(c, node, k, spec, 'later, ' + what)
            if e:
                c.fail('wrong-table', e)
        used = {q['tm'] for q in scn['ops'] if q['o'] == 'build'}
        self.settled(c, tms, scn, 'afterwards ', [0. if a in used else z0[a] for a in range(len(tms))])

    # ------------------------------------------------------------- history
    def history(self, c, node, scn, tms):
        z = list(scn['z0'])
        built = []
        vers = {}
        for j, q in enumerate(scn['ops']):
            a = q['tm']
            t = tms[a]
            what = 'step %d (%s): ' % (j, q['o'])
            if q['o'] == 'shift':
                c.must(lambda: t.set_redshift(redshift=q['z']), what)
                z[a] = q['z']
                continue
            if q['o'] == 'band':
                # the response file gets other content and is reloaded
                self.replace(c, q)
                c.must(lambda: node.rdict().load_response(q['r'], reload=True), what)
                vers[q['r']] = q['v']
                c.stats['probe:band_file_changed'] += 1
                continue
            if q['o'] == 'again':
                mine = [x for x in built if x[2] == a]
                if mine:
                    b = mine[q['k'] % len(mine)]
                    if not self.again(c, node, b, q, vers, what):
                        built = [x for x in built if x is not b]
                    z[a] = 0.
                    self.settled(c, tms, scn, what + 'after the build ', z)
                continue
            if q['o'] != 'build':
                continue
            q = dict(q, spec=dict(q['spec']))
            if any(vers.values()):
                q['spec']['versions'] = {k: v for k, v in sorted(vers.items()) if v}
            if q.get('twin'):
                c.stats['probe:nearly_equal_setups'] += 1
            if q['spec']['nz'] > 900:
                c.stats['probe:long_redshift_grid'] += 1
            kw = {}
            if 'call' in q or q.get('fault'):
                kw = self.placed(c, node, scn, q)
            r = c.op(lambda: self.make(c, node, q['spec'], t), 'build', **kw)
            fired = 'call' in q or (q.get('fault') and len(r.unfired) < len(kw.get('faults', ())))
            if not r.ok:
                if not fired:
                    c.fail('unexpected-error', what + r.describe())
                c.stats['probe:failed_build'] += 1
                # templates: unchanged data, self-consistent at whatever redshift they claim
                zz = float(t.redshift)
                e = template_error(t, fx.tdata(scn['tm'][a]['t']), what + 'after a failed build, templates: ', zz)
                if e:
                    c.fail('templates-damaged', e)
                self.bystanders(c, node, built, what)
                for n in sorted(node.rdict()):
                    e = model.check_response(node.rdict()[n], n, vers.get(n, 0))
                    if e:
                        c.fail('dictionary-damaged', '%safter a failed build, %s: %s' % (what, n, e))
                k = c.must(lambda: self.make(c, node, q['spec'], t), what + 'building again')
                c.stats['probe:rebuilt_after_failure'] += 1
            else:
                k = r.value
            r = None
            z[a] = 0.
            e = self.good(c, node, k, q['spec'], what)
            if e:
                c.fail('wrong-table', e)
            built.append((k, q['spec'], a))
            self.settled(c, tms, scn, what + 'after the build ', z)
        self.bystanders(c, node, built, 'at the end: ')

    def again(self, c, node, entry, q, vers, what):
        """The input table of an existing object is built once more."""
        k, spec, _ = entry
        new = dict(spec)
        new.pop('versions', None)
        if any(vers.values()):
            new['versions'] = {i: v for i, v in sorted(vers.items()) if v}
        M = model.kmodel(new)
        if 'call' in q:
            r = c.op(k.set_Amatrix, 'set_Amatrix', call_at=1 + int(q['call'] * 40))
            if not r.ok:
                c.stats['probe:failed_rebuild'] += 1
                e = self.input_table(k, model.kmodel(spec), what + 'after a failed rebuild ')
                if e:
                    c.fail('other-object-damaged', e)
                c.must(k.set_Amatrix, what)
        else:
            c.must(k.set_Amatrix, what)
        c.stats['probe:table_built_again'] += 1
        e = self.input_table(k, M, what)
        if e:
            c.fail('wrong-table', e)
        old, now = spec.get('versions') or {}, new.get('versions') or {}
        # with bands of two versions in its tables the object is not judged any more
        return all(old.get(r, 0) == now.get(r, 0) for r in M.resp)

    def placed(self, c, node, scn, q):
        """Where in the build the fault goes: a fault-free build in another process."""
        other = c.boot('dry', self.inst)
        if scn['warm']:
            for r in q['spec']['resp']:
                c.must(lambda: other.rdict().load_response(r), 'load')
        d = scn['tm'][q['tm']]
        t2 = c.must(lambda: other.template.Template(filename=c.pool(d['t']), interpolate=d['interp']), 'dry')
        r = c.op(lambda: self.make(c, other, q['spec'], t2), 'dry build', count_calls=True)
        if not r.ok:
            c.fail('unexpected-error', 'fault-free build ' + r.describe())
        node.activate()
        if 'call' in q:
            return dict(call_at=1 + int(q['call'] * r.calls))
        f = dict(q['fault'])
        n = max(1, r.counts[f['at']])
        f['k'] = min(n - 1, int(f.pop('where') * n))
        return dict(faults=[f])

    def bystanders(self, c, node, built, what):
        for k, spec, _ in built:
            e = objs.kc_error(c, node, k, model.kmodel(spec), what + 'another object: ', 1, what) \
                if not spec.get('fitter') and self.inst is None and spec['tmpl'] in fx.SMALL and abs(float(k.templates.redshift)) < 1e-9 else \
                self.good(c, node, k, spec, what + 'another object: ')
            if e:
                c.fail('other-object-damaged', e)

    def nontrivial(self, ctx, scn):
        return any(k.startswith('fault:') or k == 'preemptions' for k in ctx.sim.stats)


CHECK = C06()
