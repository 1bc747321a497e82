"""C20: simultaneous saves and loads of different files are independent."""
import os

import numpy as np

import model
from engine import Check, Violation
from checks.common import *
from checks import objs

IOERR = ('eio', 'enospc', 'emfile', 'edquot', 'enoent')
NAMES = ('a.fits', 'b.fits', 'a.fits.tmp.fits', 'ab.fits', 'A.fits', 'a_1.fits')


class C20(Check):
    id = 'C20'
    rule = ('A case is 2-4 clients (threads of 1-2 processes) that save own and shared objects to files of their '
            'own (equal names in different directories, similar names in one), save them over again, load common files and files '
            'others finished, restore onto own objects, and query and build from shared objects, under a '
            'seeded line-, instruction- and system-call-level schedule, some with error returns. Non-trivial when a '
            'pre-emption happened between two system calls of a save or load. Distinct = distinct event logs.')
    probes = ('save', 'save_shared', 'save_over', 'load_common', 'load_of_other', 'onto', 'query', 'build', 'dict',
              'failed', 'retried', 'two_processes', 'saves_overlapped', 'load_during_save', 'same_object_twice',
              'same_name')
    assumptions = ('no file is written by one client while another one reads or writes it',)

    def gen(self, rng, i, tier):
        nt = rng.randint(2, 4)
        npr = 1 if rng.random() < 0.6 else 2
        nsh = rng.randint(1, 2)
        kinds = [('sed', 1.5), ('template', 3), ('response', 1.5), ('kc', 3)]
        suffix = rng.random() < 0.3
        if suffix and rng.random() < 0.7:
            kinds = [(pick(rng, ('sed', 'sed', 'template', 'response', 'kc')), 1)]
        shared = []
        for _ in range(nsh):
            th = objs.gen_thing(rng, kinds, small=True)
            shared.append(th)
        own = []
        for t in range(nt):
            th = dict(pick(rng, shared)) if rng.random() < 0.35 else objs.gen_thing(rng, kinds, small=True)
            if th['k'] == 'kc' and rng.random() < 0.4:
                th = dict(th, spec=twist(rng, th['spec']))
            own.append(th)
        for th in shared + own:
            th.pop('shared', None)
            if th['k'] == 'kc' and th['spec']['cls'] == 'KcorrectGST':
                th['spec'] = dict(th['spec'], nz=2)
        ops = []
        for t in range(nt):
            for _ in range(rng.randint(2, 4 if tier == 'quick' else 6)):
                q = dict(t=t, o=weighted(rng, [('save', 4), ('saves', 3), ('load', 3), ('other', 2), ('onto', 1), ('query', 1),
                                               ('build', 1), ('dict', 0.7)]),
                         s=rng.randrange(nsh), name=rng.randrange(len(NAMES)), r=pick(rng, fx.ALLRESP),
                         seed=rng.randrange(10**6))
                if rng.random() < 0.15:
                    q['fault'] = [pick(rng, IOERR), rng.random()]
                ops.append(q)
        return dict(shared=shared, own=own, ops=ops, proc=[rng.randrange(npr) for _ in range(nt)],
                    samedir=suffix or rng.random() < 0.5, suffix=suffix, nstem=pick(rng, (1, 1, 2, 6)),
                    sched=dict(seed=rng.randrange(2**31), p=pick(rng, [0.02, 0.1, 0.3, 0.6]),
                               instr=rng.random() < 0.1))

    def valid(self, scn):
        return bool(scn['ops'])

    def run(self, c, scn):
        nodes = {p: c.boot('p%d' % p) for p in sorted(set(scn['proc']))}
        if len(nodes) > 1:
            c.stats['probe:two_processes'] += 1
        nt = len(scn['own'])
        common = []
        maker = c.boot('m')
        for i, th in enumerate(scn['shared']):
            x = c.must(lambda: objs.make(c, maker, th), 'make')
            p = c.path('common%d.fits' % i)
            c.must(lambda: objs.save(maker, th, x, p), 'save')
            common.append((p, objs.record(th, x)))
        shared = {}
        for p in nodes:
            nodes[p].activate()
            for i, th in enumerate(scn['shared']):
                shared[p, i] = c.must(lambda: objs.make(c, nodes[p], th), 'make')
        own = []
        for t, th in enumerate(scn['own']):
            n = nodes[scn['proc'][t]]
            n.activate()
            own.append(c.must(lambda: objs.make(c, n, th), 'make'))
        prints = {k: objs.fingerprint(scn['shared'][k[1]], shared[k]) for k in shared}
        done = {}           # path -> (thing, record), complete and not being written
        found = []
        active = {}         # task -> what it is doing
        self.overlap = False
        for t in range(nt):
            os.makedirs(c.path('d%d' % t))

        def where(t, q):
            if scn['samedir'] and scn.get('suffix'):
                return c.path(NAMES[q['name'] % scn.get('nstem', 6)][:-5] + ('.fits', '.fit', '.fts', '_.fits')[t])
            if scn['samedir']:
                return c.path('%d%s' % (t, NAMES[q['name']]))
            c.stats['probe:same_name'] += 1
            return c.path('d%d/%s' % (t, NAMES[q['name']]))

        def guarded(t, q, fn):
            """(True, value) or (False, None) when its own fault made it fail."""
            tid = c.sim.current.id
            plan = []
            if q.get('fault'):
                plan = [dict(kind=q['fault'][0], at='any', k=int(q['fault'][1] * 25))]
            c.disk.arm_task(tid, plan)
            fired = ()
            try:
                try:
                    v = fn()
                finally:
                    fired = c.disk.disarm_task(tid)
            except Exception as x:
                if fired:
                    c.stats['probe:failed'] += 1
                    return False, None
                raise CodeRaised(x)
            return True, v

        def note_overlap(t, kind):
            for u in active:
                if u != t and active[u]:
                    if kind == 'save' and active[u] == 'save':
                        c.stats['probe:saves_overlapped'] += 1
                    elif 'save' in (kind, active[u]):
                        c.stats['probe:load_during_save'] += 1
                    self.overlap = True

        def step(t, q):
            node = nodes[scn['proc'][t]]
            pr = scn['proc'][t]
            o = q['o']
            th, obj = own_th[t], own[t]
            sth, sobj = scn['shared'][q['s'] % len(scn['shared'])], shared[pr, q['s'] % len(scn['shared'])]
            if o in ('save', 'saves'):
                if o == 'saves':
                    th, obj = sth, sobj
                    c.stats['probe:save_shared'] += 1
                p = where(t, q)
                if p in done:
                    c.stats['probe:save_over'] += 1
                    if reading.get(p):
                        return None
                done.pop(p, None)
                rec = objs.record(th, obj)
                active[t] = 'save'
                if id(obj) in saving.values():
                    c.stats['probe:same_object_twice'] += 1
                saving[t] = id(obj)
                ok, _ = guarded(t, q, lambda: objs.save(node, th, obj, p))
                note_overlap(t, 'save')
                saving.pop(t, None)
                active[t] = None
                if not ok:
                    c.stats['probe:retried'] += 1
                    call(objs.save, node, th, obj, p)
                c.stats['probe:save'] += 1
                r = call(objs.load, c, node, th, p)
                e = objs.record_error(th, rec, r)
                if e:
                    return 'the file just saved: ' + e
                if not (o == 'save' and q['name'] % 2):
                    done[p] = (th, rec)
                else:
                    done.pop(p, None)
                    final[p] = (th, rec)
                    return None
                final[p] = (th, rec)
            elif o in ('load', 'other'):
                if o == 'load':
                    p, rec = common[q['s'] % len(common)]
                    th = sth
                    c.stats['probe:load_common'] += 1
                else:
                    ps = sorted(done)
                    if not ps:
                        return None
                    p = ps[q['seed'] % len(ps)]
                    th, rec = done[p]
                    c.stats['probe:load_of_other'] += 1
                reading[p] = reading.get(p, 0) + 1
                active[t] = 'load'
                try:
                    ok, r = guarded(t, q, lambda: objs.load(c, node, th, p))
                    note_overlap(t, 'load')
                    active[t] = None
                    if not ok:
                        r = call(objs.load, c, node, th, p)
                finally:
                    reading[p] -= 1
                return objs.record_error(th, rec, r, 'a loaded file: ')
            elif o == 'onto':
                p, rec = common[q['s'] % len(common)]
                if sth['k'] != th['k'] or (th['k'] == 'kc' and (sth['spec']['cls'] != th['spec']['cls'] or
                                                                sth['spec'].get('cosmo') != th['spec'].get('cosmo'))):
                    return None
                c.stats['probe:onto'] += 1
                ok, r = guarded(t, q, lambda: objs.load(c, node, sth, p, onto=obj) if th['k'] != 'template'
                                else obj.fromfits(p))
                if not ok:
                    e = objs.error(c, node, th, obj, seed=q['seed'])
                    return e and 'after a failed read: ' + e
                own_th[t] = sth
                return objs.record_error(sth, rec, obj, 'an object read into: ')
            elif o == 'query':
                c.stats['probe:query'] += 1
                return objs.error(c, node, sth, sobj, seed=q['seed'])
            elif o == 'build':
                if sth['k'] != 'template':
                    return None
                c.stats['probe:build'] += 1
                spec = dict(cls='Kcorrect', tmpl=sth['tmpl'], interp=sth['interp'], resp=[q['r']] if q['r'] in fx.OPTICAL
                            else ['sdss_g0'], out=None, map=None, zr=[0., 0.4], nz=3, ab=False, cosmo=None)
                k = call(build, c, node, spec, sobj)
                return objs.kc_error(c, node, k, model.kmodel(spec), '', 1, q['seed'])
            else:
                c.stats['probe:dict'] += 1
                call(node.rdict().load_response, q['r'], reload=bool(q['name'] % 2))
                return model.check_response(node.rdict()[q['r']], q['r'])

        reading, final, saving = {}, {}, {}
        own_th = list(scn['own'])

        def client(t):
            def body():
                for j, q in enumerate(scn['ops']):
                    if q['t'] != t or found:
                        continue
                    c.sim.note('invoke', t, j, q['o'])
                    kind = 'wrong-content'
                    try:
                        e = step(t, q)
                    except CodeRaised as x:
                        e, kind = 'raised %s' % x, 'unexpected-error'
                    if e:
                        found.append((kind, 'client %d, step %d (%s): %s' % (t, j, q['o'], e)))
                        return
            return body
        ts = c.sim.run_tasks([client(t) for t in range(nt)])
        for t in ts:
            if t.exc is not None:
                raise t.exc
        c.sim.tasks = []
        if found:
            raise Violation(*found[0])
        # what every file holds in the end, seen by a new process
        node = c.boot('end')
        for p in sorted(final):
            th, rec = final[p]
            r = c.must(lambda: objs.load(c, node, th, p), 'loading %s at the end' % c.disk.rel(p))
            e = objs.record_error(th, rec, r)
            if e:
                c.fail('wrong-content', 'at the end %s: %s' % (c.disk.rel(p), e))
        for k in sorted(shared):
            d = objs.differs(prints[k], objs.fingerprint(scn['shared'][k[1]], shared[k]))
            if d:
                c.fail('object-changed', 'the shared %s: %s changed' % (scn['shared'][k[1]]['k'], d))

    def nontrivial(self, ctx, scn):
        return self.overlap


CHECK = C20()
