"""C03: saves that fail or are killed."""
import gc
import os

import numpy as np

import model
from engine import Check
from simsched import SimCrash
from checks.common import *
from checks import objs

ERR = ('eio', 'enospc', 'edquot', 'eacces', 'enomem')


def parts(th):
    """What else a file holding th is: [(kind, thing)]."""
    out = [(th['k'], th)]
    if th['k'] == 'kc':
        out.append(('template', dict(k='template', tmpl=th['spec']['tmpl'], interp=False)))
        out.append(('sed', dict(k='sed', tmpl=th['spec']['tmpl'], one=None, interp=True)))
    if th['k'] == 'template':
        out.append(('sed', dict(k='sed', tmpl=th['tmpl'], one=None, interp=True)))
    return out


class C03(Check):
    id = 'C03'
    rule = ('A case is a history of 1-4 saves of random objects to one file; in each a fault is placed at '
            'a system call of the save (position chosen uniformly among those a fault-free save makes): '
            'kill with a torn write, error return, disk full after n bytes, close error with lost data. '
            'Non-trivial when the fault fired. Distinct = distinct event logs.')
    probes = ('kill', 'error', 'disk_full', 'close_error', 'save_survived_fault', 'load_raised',
              'load_gave_old', 'load_gave_new', 'retry_succeeded', 'collected_garbage_after_failure',
              'failed_over_old_file')
    assumptions = ('process-kill model: data handed to the operating system stay, in order; a torn write '
                   'keeps a prefix (no power loss, no reordering, no silent corruption at rest)',)

    def gen(self, rng, i, tier):
        n = rng.randint(1, 3)
        kinds = [('sed', 1), ('template', 1.6), ('response', 1), ('kc', 2.4)]
        if rng.random() < 0.7:
            kinds = [(pick(rng, ['sed', 'template', 'template', 'response', 'kc', 'kc']), 1)]
        things = [objs.gen_thing(rng, kinds, small=True) for _ in range(n)]
        for th in things:
            if th['k'] == 'kc' and th['spec']['cls'] == 'KcorrectGST':
                th['spec'] = dict(th['spec'], nz=2)
        ops = []
        if rng.random() < 0.65:
            ops.append(dict(o='save', th=rng.randrange(n), fault=None))
        for _ in range(rng.randint(1, 3)):
            u = rng.random()
            if u < 0.4:
                f = dict(kind='crash', at='mutation', where=rng.random(),
                         frac=pick(rng, [0., 0.3, 0.97, rng.random()]))
            elif u < 0.62:
                f = dict(kind=pick(rng, ERR), at=pick(rng, ['mutation', 'mutation', 'write', 'any', 'open']),
                         where=rng.random())
            elif u < 0.85:
                f = dict(kind='quota', at='mutation', where=0., full=rng.random())
            else:
                f = dict(kind='close_error', at='close_w', where=rng.random(),
                         lose=pick(rng, [None, 0., 0.5, 0.999, rng.random()]))
            ops.append(dict(o='save', th=rng.randrange(n), fault=f, gc=rng.random() < 0.5))
        return dict(things=things, ops=ops)

    def valid(self, scn):
        return bool(scn['ops'])

    def shrinks(self, scn):
        for i, q in enumerate(scn['ops']):
            if q.get('gc'):
                s = dict(scn, ops=[dict(x) for x in scn['ops']])
                s['ops'][i]['gc'] = False
                yield s
        for i, th in enumerate(scn['things']):
            if th['k'] == 'kc' and (th['spec'].get('out') or th['spec']['nz'] > 3):
                s = dict(scn, things=list(scn['things']))
                s['things'][i] = dict(th, spec=dict(th['spec'], out=None, map=None, nz=3))
                yield s

    def run(self, c, scn):
        node = c.boot()
        path = c.path('it.fits')
        dry = c.path('dry.fits')
        objects = {}
        allowed = []                 # things the file may hold
        for j, q in enumerate(scn['ops']):
            th = scn['things'][q['th']]
            what = 'save %d (%s, %s): ' % (j, th['k'], (q['fault'] or {}).get('kind'))
            if q['th'] not in objects:
                objects[q['th']] = c.must(lambda: objs.make(c, node, th), 'make')
            k = objects[q['th']]
            faults = []
            if q['fault']:
                # how many system calls does this save make?
                with c.quiet():
                    if os.path.exists(path):
                        import shutil
                        shutil.copyfile(path, dry)
                    elif os.path.exists(dry):
                        os.remove(dry)
                r = c.op(lambda: objs.save(node, th, k, dry), 'dry run')
                if not r.ok:
                    c.fail('unexpected-error', what + 'fault-free save %s' % r.describe())
                f = dict(q['fault'])
                n = max(1, r.counts[f['at']])
                f['k'] = min(n - 1, int(f.pop('where') * n))
                if f['kind'] == 'quota':
                    with c.quiet():
                        f['bytes'] = int(f.pop('full') * os.path.getsize(dry))
                faults = [f]
            before = objs.fingerprint(th, k)
            had = os.path.exists(path)
            r = c.op(lambda: objs.save(node, th, k, path), 'save', faults=faults)
            if r.exc is not None and isinstance(r.exc, SimCrash):
                c.stats['probe:kill'] += 1
                r = k = None
                objects = {}
                node = c.boot()
                allowed = allowed + [th]
            elif not r.ok:
                if not faults or r.unfired:
                    c.fail('unexpected-error', what + r.describe())
                c.stats['probe:' + {'quota': 'disk_full', 'close_error': 'close_error'}.get(
                    q['fault']['kind'], 'error')] += 1
                if had:
                    c.stats['probe:failed_over_old_file'] += 1
                allowed = allowed + [th]
                d = objs.differs(before, objs.fingerprint(th, k))
                if d:
                    c.fail('object-damaged', what + 'the failed save changed %s' % d)
                e = objs.error(c, node, th, k, seed=j, what='after the failed save: ')
                if e:
                    c.fail('object-damaged', what + e)
            else:
                if faults and not r.unfired:
                    c.stats['probe:save_survived_fault'] += 1
                allowed = [th]
            acked = r is not None and r.ok
            r = None
            if q.get('gc'):
                c.stats['probe:collected_garbage_after_failure'] += 1
                gc.collect()
            self.look(c, node, path, allowed, acked, what)
        # once the trouble is over
        th = scn['things'][scn['ops'][-1]['th']]
        i = scn['ops'][-1]['th']
        if i not in objects:
            objects[i] = c.must(lambda: objs.make(c, node, th), 'make')
        k = objects[i]
        c.must(lambda: objs.save(node, th, k, path), 'saving again')
        c.stats['probe:retry_succeeded'] += 1
        self.look(c, node, path, [th], True, 'after saving again: ')
        node = c.boot()
        gc.collect()
        self.look(c, node, path, [th], True, 'after saving again, fresh process: ')

    def look(self, c, node, path, allowed, acked, what):
        """Every loader gives an old or the new object, or raises."""
        for kind in ('sed', 'template', 'response', 'kc'):
            cand = []
            for a in reversed(allowed):
                for kk, th in parts(a):
                    if kk == kind and th not in cand:
                        cand.append(th)
            if not cand:
                continue
            must = acked and allowed[-1]['k'] == kind
            got = None
            errs = []
            loaded = False
            for th in cand:
                # class and layout do not change what is read
                r = c.op(lambda: objs.load(c, node, th, path), 'load')
                if not r.ok:
                    c.stats['probe:load_raised'] += 1
                    errs.append(r.describe())
                    continue
                loaded = True
                e = objs.error(c, node, th, r.value, what='')
                if e is None:
                    got = th
                    break
                errs.append(e)
            if got is not None:
                if kind == allowed[-1]['k']:
                    c.stats['probe:load_gave_' + ('new' if got == allowed[-1] else 'old')] += 1
                continue
            if must:
                c.fail('saved-but-lost', what + 'the save returned, but loading the file: %s' % errs[0])
            if loaded:
                c.fail('torn-accepted', what + 'loading the file as %s returned an object that is none of '
                       'those saved: %s' % (kind, '; '.join(errs)[:300]))

    def nontrivial(self, ctx, scn):
        return any(k.startswith('fault:') for k in ctx.sim.stats)


CHECK = C03()
