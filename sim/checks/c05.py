"""C05: the response dictionary under concurrency, failures and changing files."""
import os

import numpy as np

import model
from engine import Check, Violation
from checks.common import *

RERR = ('eio', 'enoent', 'eacces', 'emfile', 'estale')


class C05(Check):
    id = 'C05'
    rule = ('A case is 2-4 threads doing 2-6 operations each on the response dictionary (first access, '
            'load, reload, read, table build, project) while files are replaced by other versions of equal '
            'size and modification time and reads fail or an interrupt arrives, under a seeded line- or '
            'instruction-level schedule; non-trivial when a pre-emption landed inside an operation. '
            'Distinct = distinct pre-emption sequences.')
    probes = ('concurrent_load_same_name', 'concurrent_reload', 'reload_after_change', 'failed_load',
              'failed_reload', 'interrupted', 'first_access_race', 'read_during_load', 'seen_old_then_new',
              'new_content_same_size_and_time', 'built_from_dictionary', 'flux_conversion', 'partly_covered_band',
              'one_spectrum_projected', 'sed_projected')
    assumptions = ('other programs replace response files atomically (rename)',)

    def gen(self, rng, i, tier):
        names = sample(rng, fx.ALLRESP, rng.randint(1, 3))
        nt = rng.randint(2, 4)
        ops = []
        for t in range(nt):
            for _ in range(rng.randint(2, 6)):
                o = weighted(rng, [('load', 5), ('reload', 3), ('read', 3), ('dict', 1), ('use', 1.6),
                                   ('replace', 1.2), ('build', 0.5), ('flambda', 1.)])
                q = dict(o=o, t=t, n=pick(rng, names))
                if o == 'use':
                    q['part'] = pick(rng, [None, None, 'blue', 'red'])
                    q['form'] = pick(rng, ['2d', '1d', '1xn', 'list', 'sed', 'f8', 'be'])
                if o == 'replace':
                    q['v'] = rng.randint(1, 3)
                elif o in ('load', 'reload', 'build', 'flambda') and rng.random() < 0.15:
                    q['fault'] = dict(kind=pick(rng, RERR), at=pick(rng, ['any', 'read', 'open', 'stat']),
                                      k=rng.randrange(7))
                elif t == 0 and o in ('load', 'reload', 'build', 'flambda') and rng.random() < 0.2:
                    q['kbd'] = rng.randint(1, 160) if rng.random() < 0.6 else rng.randint(1, 12)
                ops.append(q)
        return dict(names=names, ops=ops, pre=[n for n in names if rng.random() < 0.3],
                    touch=rng.random() < 0.4,
                    sched=dict(seed=rng.randrange(2**31), p=pick(rng, [0.02, 0.1, 0.3, 0.7]),
                               instr=rng.random() < 0.25))

    def valid(self, scn):
        return bool(scn['ops'])

    def put(self, c, inst, name, v):
        p = os.path.join(inst, 'data', 'responses', name + '.dat')
        with c.quiet():
            with open(p + '.tmp', 'w') as fp:
                fp.write(fx.variant_dat(name, v))      # same size whatever v
            os.utime(p + '.tmp', (1.6e9, 1.6e9))
            os.replace(p + '.tmp', p)

    def run(self, c, scn):
        inst = c.private_install([n for n in scn['names']])
        for n in scn['names']:
            self.put(c, inst, n, 1)
        node = c.boot('p0', inst)
        self.files = {n: [(0, 1)] for n in scn['names']}       # (step, version)
        self.ops = []
        self.seen = []            # (step, name, id, version)
        self.ids = {}             # id -> (obj, name, version)
        self.bad = []
        self.rds = []
        self.now = 0
        if scn['pre'] or scn['touch']:
            rd = node.rdict()
            self.rds.append(rd)
            for n in scn['pre']:
                op = self.begin(c, node, 'load', n)
                c.must(lambda: rd.load_response(n), 'load')
                self.finish(c, node, op, True)
        tasks = sorted({q['t'] for q in scn['ops']})
        done = c.sim.run_tasks([self.client(c, node, inst, scn, t, i) for i, t in enumerate(tasks)])
        for t in done:
            if t.exc is not None:
                raise t.exc
        if self.bad:
            raise Violation(*self.bad[0])
        # quiescent: everything loads, and reload shows the present content
        rd = c.must(node.rdict, 'ResponseDict()')
        self.rds.append(rd)
        if any(r is not self.rds[0] for r in self.rds):
            c.fail('several-dictionaries', 'ResponseDict() returned different objects')
        self.observe(c, node, 'end')
        for n in scn['names']:
            op = self.begin(c, node, 'load', n)
            c.must(lambda: rd.load_response(n), 'load %s at the end' % n)
            self.finish(c, node, op, True)
            op = self.begin(c, node, 'reload', n)
            c.must(lambda: rd.load_response(n, reload=True), 'reload %s at the end' % n)
            self.finish(c, node, op, True)
            if n not in rd:
                c.fail('entry-missing', '%s loaded but not in the dictionary' % n)
            e = model.check_response(rd[n], n, self.files[n][-1][1])
            if e:
                c.fail('stale-after-reload', '%s after a reload: %s' % (n, e))
        if self.bad:
            raise Violation(*self.bad[0])
        self.judge(c, scn)

    # ------------------------------------------------------------ history
    def tick(self, c):
        self.now += 1
        return self.now

    def begin(self, c, node, kind, name):
        self.observe(c, node, 'before %s' % kind)
        rd = self.current(node)
        op = dict(kind=kind, name=name, inv=self.tick(c), ret=None, ok=None,
                  absent=rd is None or not dict.__contains__(rd, name))
        for o in self.ops:
            if o['ret'] is None and o['name'] == name:
                if kind == o['kind'] == 'load':
                    c.stats['probe:concurrent_load_same_name'] += 1
                elif 'reload' in (kind, o['kind']):
                    c.stats['probe:concurrent_reload'] += 1
        self.ops.append(op)
        return op

    def finish(self, c, node, op, ok):
        op['ret'] = self.tick(c)
        op['ok'] = ok
        self.observe(c, node, 'after %s' % op['kind'])
        rd = self.current(node)
        if ok and (rd is None or not dict.__contains__(rd, op['name'])):
            self.bad.append(('entry-missing', '%s of %s returned but the dictionary lacks it'
                             % (op['kind'], op['name'])))

    def current(self, node):
        """The dictionary as any thread would see it, without creating it."""
        return self.rds[0] if self.rds else None

    def observe(self, c, node, when):
        rd = self.current(node)
        if rd is None or self.bad:
            return
        t = self.tick(c)
        for n in list(dict.keys(rd)):
            r = dict.__getitem__(rd, n)
            if id(r) not in self.ids:
                self.ids[id(r)] = (r, n, self.version(r, n, when))
                if any(o['ret'] is None for o in self.ops):
                    c.stats['probe:read_during_load'] += 1
            elif self.ids[id(r)][1] != n:
                self.bad.append(('wrong-name', 'the object stored under %s is the one of %s'
                                 % (n, self.ids[id(r)][1])))
            self.seen.append((t, n, id(r), self.ids[id(r)][2]))
        for n in self.files:
            if not dict.__contains__(rd, n):
                self.seen.append((t, n, None, None))

    def version(self, r, n, when):
        errs = []
        if n not in self.files:
            self.bad.append(('unknown-entry', 'entry %r appeared' % (n,)))
            return None
        for v in (1, 2, 3):
            e = model.check_response(r, n, v)
            if e is None:
                return v
            errs.append(e)
        self.bad.append(('incomplete-entry', '%s: dictionary entry %s is not a completely loaded response: %s'
                         % (when, n, errs[0])))
        return None

    def client(self, c, node, inst, scn, t, tid):
        def body():
            for q in scn['ops']:
                if q['t'] != t or self.bad:
                    continue
                self.one(c, node, inst, q, tid)
        return body

    def one(self, c, node, inst, q, tid):
        o, n = q['o'], q['n']
        sim = c.sim
        if o == 'replace':
            self.put(c, inst, n, q['v'])
            self.files[n].append((self.tick(c), q['v']))
            if len(self.files[n]) > 1:
                c.stats['probe:new_content_same_size_and_time'] += 1
            return
        if o == 'read':
            self.observe(c, node, 'read')
            return
        if o == 'dict':
            if not self.rds:
                c.stats['probe:first_access_race'] += 1
            self.rds.append(node.rdict())
            if any(r is not self.rds[0] for r in self.rds):
                self.bad.append(('several-dictionaries', 'ResponseDict() returned different objects'))
            self.observe(c, node, 'dict')
            return
        if o == 'use':
            rd = self.current(node)
            if rd is None or not dict.__contains__(rd, n):
                return
            r = dict.__getitem__(rd, n)
            T = fx.tdata('far2')
            wave, flux = np.asarray(T.wave, 'f8'), np.asarray(T.flux, 'f8')
            if q.get('part'):
                # a spectrum that covers a part of the band
                mid = model.band(n, 1).lambda_eff
                keep = wave < mid if q['part'] == 'blue' else wave > mid
                wave, flux = wave[keep], flux[:, keep]
                c.stats['probe:partly_covered_band'] += 1
            form = q.get('form', '2d')
            w_, f_ = wave, flux
            if form in ('1d', 'list'):
                flux, f_ = flux[:1], flux[0]
                c.stats['probe:one_spectrum_projected'] += 1
            elif form == '1xn':
                flux = f_ = flux[:1]
            if form == 'list':
                w_, f_ = w_.tolist(), f_.tolist()
            elif form == 'be':
                w_, f_ = w_.astype('>f4'), f_.astype('>f4')
            w0, f0 = np.array(w_), np.array(f_)
            if form == 'sed':
                s = node.template.SED(wave=wave.astype('f4'), flux=flux.astype('f4'), interpolate=True)
                got = r.project(sed=s)
                c.stats['probe:sed_projected'] += 1
            else:
                got = r.project(wave=w_, flux=f_)
            if not (np.array_equal(w0, w_) and np.array_equal(f0, f_)):
                self.bad.append(('arguments-changed', 'projecting through %s changed the spectrum given to it' % n))
            v = self.ids[id(r)][2] if id(r) in self.ids else self.version(r, n, 'use')
            if v is not None:
                exp = np.squeeze(model.band(n, v).project(wave, flux))
                e = model.close(got, exp, 1e-4, 1e-30, 'projection through %s' % n)
                if e:
                    self.bad.append(('wrong-projection', e))
            return
        if not self.rds:
            c.stats['probe:first_access_race'] += 1
        op = self.begin(c, node, 'load' if o != 'reload' else 'reload', n)
        if q.get('fault'):
            c.disk.arm_task(tid, [q['fault']])
        if q.get('kbd'):
            sim.current.kbd_in = q['kbd']
        ok, exc = False, None
        try:
            if o == 'build':
                M = model.kmodel(self.bspec(n))
                k = build(c, node, self.bspec(n))
                ok = True
            elif o == 'flambda':
                w, f, fi = node.utils.maggies2flambda(maggies=np.array([2e-9]), ivar=np.array([1e20]), responses=[n])
                ok = True
                self.flambda(c, n, op, w, f, fi)
            else:
                rd = node.rdict()
                self.rds.append(rd)
                rd.load_response(n, reload=(o == 'reload'))
                ok = True
        except (Exception, KeyboardInterrupt) as e:
            exc = e
            e.__traceback__ = None
            e.__context__ = None
        finally:
            if sim.current is not None:
                sim.current.kbd_in = None
        fired = c.disk.disarm_task(tid) if q.get('fault') else []
        if not self.rds:
            # the dictionary exists if a build got that far
            inst_ = getattr(type(node.response.ResponseDict), '_instances', None)
            if isinstance(inst_, dict) and node.response.ResponseDict in inst_:
                self.rds.append(inst_[node.response.ResponseDict])
            elif ok:
                self.rds.append(node.rdict())
        self.finish(c, node, op, ok)
        if ok and o == 'build':
            c.stats['probe:built_from_dictionary'] += 1
        if ok and fired and op['kind'] == 'reload':
            pass            # a fault that did not prevent the (re)load
        if not ok:
            if isinstance(exc, KeyboardInterrupt):
                c.stats['probe:interrupted'] += 1
            elif fired:
                c.stats['probe:failed_' + op['kind']] += 1
            else:
                self.bad.append(('load-failed', '%s of %s raised %s: %s without a fault'
                                 % (o, n, type(exc).__name__, exc)))

    def flambda(self, c, n, op, w, f, fi):
        c.stats['probe:flux_conversion'] += 1
        # entries that were visible at the beginning, or appeared meanwhile
        t0 = max([s[0] for s in self.seen if s[1] == n and s[0] <= op['inv']], default=0)
        vs = {s[3] for s in self.seen if s[1] == n and s[3] is not None and s[0] >= t0}
        a = min(o['inv'] for o in self.ops if o['name'] == n and (o['ret'] is None or o['ret'] >= op['inv']))
        vs |= self.versions(n, a, self.tick(c))
        es = []
        for v in sorted(vs):
            lam = float(np.float32(model.band(n, v).lambda_eff))
            m2f = 3.631e-2 * 2.99792 / lam**2
            e = (model.close(w, np.array([lam]), 1e-4, 0, 'effective wavelength') or
                 model.close(f, np.array([2e-9 * m2f]), 3e-4, 0, 'flux') or
                 model.close(fi, np.array([1e20 / m2f**2]), 6e-4, 0, 'flux inverse variance'))
            if e is None:
                return
            es.append(e)
        self.bad.append(('wrong-conversion', 'maggies2flambda with %s: %s' % (n, es[0])))

    def bspec(self, n):
        return dict(cls='Kcorrect', tmpl='t2', resp=[n], out=None, map=None, zr=[0., 0.4], nz=3,
                    ab=False, interp=False, cosmo=None)

    # ------------------------------------------------------------ judgement
    def versions(self, n, a, b):
        """Versions the file had at some time in [a, b]."""
        h = self.files[n]
        out = set()
        for i, (t, v) in enumerate(h):
            end = h[i + 1][0] if i + 1 < len(h) else float('inf')
            if t <= b and end >= a:
                out.add(v)
        return out

    def judge(self, c, scn):
        inf = float('inf')
        for n in scn['names']:
            ops = [o for o in self.ops if o['name'] == n]
            pubs = [o for o in ops if o['ok'] and (o['kind'] == 'reload' or o['absent'])]
            hist = [s for s in self.seen if s[1] == n]
            prev = None
            for (t, _, oid, v) in hist:
                if oid is None:
                    if prev is not None:
                        c.fail('entry-vanished', '%s was in the dictionary and is gone' % n)
                    continue
                # a build or interrupted load may have published before it failed
                cand = [o for o in ops if o['inv'] < t and (o['kind'] == 'reload' or o['absent'])
                        and v in self.versions(n, o['inv'], min(o['ret'] or inf, t))]
                done = [o for o in ops if o['ok'] and o['kind'] == 'reload' and o['ret'] < t]
                last = max((o['inv'] for o in done), default=-1)
                if not any((o['ret'] or inf) > last for o in cand):
                    c.fail('stale-entry', '%s shows version %r at event %d; file history %r, operations %r'
                           % (n, v, t, self.files[n], [(o['kind'], o['inv'], o['ret'], o['ok']) for o in ops]))
                if prev is not None and prev[1] != oid:
                    c.stats['probe:seen_old_then_new'] += 1
                    if not any((o['ret'] or inf) > prev[0] and o['inv'] < t for o in pubs) and \
                            not any(o['ok'] is False and (o['ret'] or inf) > prev[0] and o['inv'] < t
                                    and o['absent'] for o in ops):
                        c.fail('entry-replaced', '%s was replaced although nothing (re)loaded it' % n)
                if prev is not None and prev[1] != oid and prev[2] != v:
                    c.stats['probe:reload_after_change'] += 1
                prev = (t, oid, v)

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['preemptions'] > 0


CHECK = C05()
