"""C13: no file stays open or mapped after a call."""
import gc
import os

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs

RERR = ('eio', 'enoent', 'eacces', 'emfile', 'estale', 'enomem')
WERR = ('eio', 'enospc', 'edquot', 'enomem', 'eacces')


class C13(Check):
    id = 'C13'
    collect_first = True
    rule = ('A case is a history of 5-16 loads, restores, saves, refused saves, dictionary loads and reloads, '
            'listings, builds and queries, from one or two threads, many of them with an error return, a full '
            'disk, a damaged file or an interrupt at some system call or line. After every call that returned, '
            'the kernel\'s list of open and mapped files must be empty (without garbage collection); after '
            'one that raised, once its exception is discarded. Non-trivial when a file was opened. Distinct = '
            'distinct event logs.')
    probes = ('load', 'save', 'restore', 'listing', 'dictionary', 'build', 'model_spectra', 'failed_load',
              'failed_save', 'failed_listing_entry', 'refused_overwrite', 'interrupted', 'object_kept_alive',
              'repeated_many_times', 'two_threads', 'damaged_file', 'failed_build')
    assumptions = ('the list of open files is read from /proc/self/fd and /proc/self/maps',)

    def gen(self, rng, i, tier):
        things = [objs.gen_thing(rng, small=True) for _ in range(rng.randint(1, 3))]
        for th in things:
            if th['k'] == 'kc' and th['spec']['cls'] == 'KcorrectGST':
                th['spec'] = dict(th['spec'], nz=2)
        ops = []
        for _ in range(rng.randint(5, 12 if tier == 'quick' else 20)):
            o = weighted(rng, [('load', 5), ('onto', 1.5), ('save', 4), ('refuse', 0.7), ('dict', 2), ('reload', 1),
                               ('list', 1), ('dat', 1), ('build', 1), ('basel', 1), ('query', 0.7), ('default', 0.3)])
            q = dict(o=o, th=rng.randrange(len(things)), r=pick(rng, fx.ALLRESP), seed=rng.randrange(10**6),
                     valid=rng.random() < 0.7)
            u = rng.random()
            if u < 0.3:
                q['fault'] = dict(kind=pick(rng, RERR + WERR), at=pick(rng, ['any', 'any', 'read', 'open', 'write',
                                                                            'create', 'close', 'close_w']),
                                  k=rng.randrange(40) if rng.random() < 0.5 else rng.randrange(6))
            elif u < 0.36:
                q['fault'] = dict(kind='quota', at='any', k=0, bytes=rng.randrange(40000))
            elif u < 0.48:
                q['kbd'] = rng.randint(1, 40) if rng.random() < 0.5 else rng.randint(1, 300)
            elif u < 0.58 and o in ('load', 'onto', 'dat'):
                q['damage'] = rng.random()
            elif u < 0.66:
                q['times'] = rng.randint(3, 12)
            ops.append(q)
        scn = dict(things=things, ops=ops)
        if rng.random() < 0.15:
            scn['threads'] = True
            scn['sched'] = dict(seed=rng.randrange(10**9), p=pick(rng, [0.02, 0.1, 0.3]))
        return scn

    def valid(self, scn):
        return bool(scn['ops'])

    def call(self, c, node, things, files, objects, q, inst, tag=''):
        """The callable of one operation."""
        o = q['o']
        i = q['th'] % len(things)
        th = things[i]
        if o == 'load':
            return lambda: objects.__setitem__(('l' + tag, i), objs.load(c, node, th, files[i]))
        if o == 'onto':
            if th['k'] == 'template':
                return lambda: objs.load(c, node, th, files[i])
            k = objects.get(('onto' + tag, i))
            if k is None:
                return None
            return lambda: objs.load(c, node, th, files[i], onto=k)
        if o == 'save':
            return lambda: objs.save(node, th, objects[('m', i)], c.path('s%d%s.fits' % (i, tag)))
        if o == 'refuse':
            if th['k'] == 'kc':
                return None
            return lambda: objs.save(node, th, objects[('m', i)], files[i], clobber=False)
        if o == 'dict':
            return lambda: node.rdict().load_response(q['r'])
        if o == 'reload':
            return lambda: node.rdict().load_response(q['r'], reload=True)
        if o == 'list':
            return lambda: node.response.all_responses(
                response_dir=os.path.join(inst, 'data', 'responses'), check_validity=q['valid'])
        if o == 'dat':
            p = os.path.join(inst, 'data', 'responses', q['r'] + '.dat')
            return lambda: node.response.Response(filename=p)
        if o == 'basel':
            p = os.path.join(inst, 'data', 'basel', pick(__import__('random').Random(q['seed']),
                                                        ['lcbsun.ori', 'lcbvega.ori']))
            return lambda: node.utils.read_basel(p)
        if o == 'build':
            s = [t['spec'] for t in things if t['k'] == 'kc']
            s = s[0] if s else dict(cls='Kcorrect', tmpl='t2', resp=['sdss_g0', 'sdss_r0'], zr=[0., 0.5], nz=2,
                                    ab=False)
            return lambda: objects.__setitem__(('b' + tag, 0), build(c, node, s))
        if o == 'default':
            return lambda: node.kc.Kcorrect(responses=['sdss_g0', 'sdss_r0'], redshift_range=[0., 0.4], nredshift=2)
        if o == 'query':
            if th['k'] != 'kc':
                return None
            M = model.kmodel(th['spec'])

            def f():
                k = objects[('m', i)]
                rs = np.random.RandomState(q['seed'])
                z, m, iv = M.photometry(rs, 2, zlo=max(0.004, float(M.zr[0])))
                co = M.coeffs(rs, 2)
                k.fit_coeffs(redshift=z, maggies=m, ivar=iv)
                k.derived(redshift=z, coeffs=co)
                k.absmag(redshift=z, maggies=m, ivar=iv, coeffs=co)
            return f

    def check(self, c, what, collect):
        if collect:
            gc.collect()
        a, b = c.disk.open_fds(), c.disk.maps()
        if a or b:
            c.fail('file-left-open', '%s: still open %r, still mapped %r%s'
                   % (what, a, b, ' after garbage collection' if collect else ''))

    def run(self, c, scn):
        inst = c.private_install(None, templates=True)
        with c.quiet():
            with open(os.path.join(inst, 'data', 'responses', 'bad_one.dat'), 'w') as fp:
                fp.write('this is not a table\n| nor | this\n')
        node = c.boot('p0', inst)
        things = scn['things']
        files, objects = {}, {}
        for i, th in enumerate(things):
            objects[('m', i)] = c.must(lambda: objs.make(c, node, th), 'make')
            self.check(c, 'after making a %s' % th['k'], False)
            files[i] = c.path('f%d.fits' % i)
            c.must(lambda: objs.save(node, th, objects[('m', i)], files[i]), 'save')
            self.check(c, 'after saving a %s' % th['k'], False)
            if any(q['o'] == 'onto' and q['th'] % len(things) == i for q in scn['ops']):
                if th['k'] == 'kc':
                    objects[('onto', i)] = c.must(lambda: objs.blank(c, node, th), 'blank')
                elif th['k'] == 'sed':
                    objects[('onto', i)] = c.must(lambda: node.template.SED(filename=c.pool('b1')), 'blank')
                elif th['k'] == 'response':
                    objects[('onto', i)] = c.must(lambda: node.response.Response(filename='syn_tri.dat'), 'blank')
            self.check(c, 'after making objects', False)
        if scn.get('threads'):
            return self.threads(c, scn, node, things, files, objects, inst)
        for j, q in enumerate(scn['ops']):
            f = self.call(c, node, things, files, objects, q, inst)
            if f is None:
                continue
            o = q['o']
            th = things[q['th'] % len(things)]
            nm = o if o not in ('load', 'onto', 'save', 'refuse') else '%s of a %s' % (o, th['k'])
            what = 'step %d (%s)' % (j, nm)
            kw = {}
            if q.get('fault'):
                kw['faults'] = [dict(q['fault'])]
            if q.get('kbd'):
                kw['kbd_at'] = q['kbd']
            back = None
            if q.get('damage'):
                path = files[q['th'] % len(things)] if o != 'dat' else \
                    os.path.join(inst, 'data', 'responses', q['r'] + '.dat')
                back = (path, open_bytes(c, path))
                with c.quiet():
                    with open(path + '.new', 'wb') as fp:
                        fp.write(back[1][:int(q['damage'] * len(back[1]))])
                    os.replace(path + '.new', path)
                c.stats['probe:damaged_file'] += 1
                c.stats['fault:file_damaged'] += 1
            for n in range(q.get('times', 1)):
                r = c.op(f, nm, **kw)
                ok = r.ok
                if ok:
                    self.check(c, what + ' returned', False)
                else:
                    exp = kw or back or o == 'refuse'
                    if not exp:
                        c.fail('unexpected-error', what + ' ' + r.describe())
                    if isinstance(r.exc, KeyboardInterrupt):
                        c.stats['probe:interrupted'] += 1
                    c.stats['probe:' + {'save': 'failed_save', 'refuse': 'refused_overwrite',
                                        'build': 'failed_build', 'default': 'failed_build'}.get(o, 'failed_load')] += 1
                    d = r.describe()
                    r = None
                    self.check(c, what + ' ' + d, True)
            if q.get('times'):
                c.stats['probe:repeated_many_times'] += 1
            if back:
                with c.quiet():
                    with open(back[0] + '.new', 'wb') as fp:
                        fp.write(back[1])
                    os.replace(back[0] + '.new', back[0])
            r = None
            c.stats['probe:' + {'load': 'restore' if th['k'] == 'kc' else 'load', 'onto': 'restore',
                                'save': 'save', 'refuse': 'save', 'dict': 'dictionary', 'reload': 'dictionary',
                                'list': 'listing', 'dat': 'load', 'build': 'build', 'default': 'build',
                                'basel': 'model_spectra', 'query': 'build'}[o]] += 1
            if o == 'list' and q['valid']:
                c.stats['probe:failed_listing_entry'] += 1
            if objects.get(('l', q['th'] % len(things))) is not None:
                c.stats['probe:object_kept_alive'] += 1

    def threads(self, c, scn, node, things, files, objects, inst):
        bad = []

        def client(t):
            def f():
                for q in scn['ops'][t::2]:
                    g = self.call(c, node, things, files, dict(objects), q, inst, tag='t%d' % t)
                    if g is None or q['o'] in ('query',):
                        continue
                    try:
                        g()
                    except Exception as e:
                        if q['o'] != 'refuse':
                            bad.append('%s raised %r' % (q['o'], e))
                        e = None
            return f
        tasks = c.sim.run_tasks([client(0), client(1)])
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        tasks = c.sim.tasks = []
        c.stats['probe:two_threads'] += 1
        if bad:
            c.fail('unexpected-error', bad[0])
        failed = any(q['o'] == 'refuse' for q in scn['ops'])
        self.check(c, 'after two threads finished', failed)

    def nontrivial(self, ctx, scn):
        return ctx.disk.counts['open'] > 0


def open_bytes(c, path):
    with c.quiet():
        with open(path, 'rb') as fp:
            return fp.read()


CHECK = C13()
