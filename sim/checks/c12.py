"""C12: loaded objects are snapshots of their files."""
import os

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs


class C12(Check):
    id = 'C12'
    rule = ('A case is a history of 8-24 operations over 1-3 data files (each with two alternative contents, '
            'mostly of equal size) and the bandpass files: loads by absolute or relative path, dictionary '
            'loads and reloads, builds, uses, changes of loaded objects, saves over loaded files, and changes '
            'of the files by somebody else (overwritten in place, replaced, deleted, cut, filled with junk; '
            'modification time kept or not), between operations or at a system call of an operation on '
            'another file, and directory changes. Non-trivial when a file changed after an object was loaded '
            'from it. Distinct = distinct event logs.')
    probes = ('changed_in_place', 'replaced', 'deleted', 'cut', 'junk', 'same_size_and_time', 'changed_inside_call',
              'loaded_new_content', 'dictionary_kept_old', 'dictionary_reloaded_new', 'directory_changed',
              'relative_path', 'checked_after_change', 'twin_loads', 'saved_over', 'object_modified',
              'load_of_missing_refused', 'first_look_after_change', 'kc_answered_after_change')
    assumptions = ('a file is not changed during a load of that same file',)

    def gen(self, rng, i, tier):
        files = []
        for f in range(rng.randint(1, 3)):
            k = weighted(rng, [('template', 2), ('sed', 1.3), ('response', 1), ('kc', 1.6)])
            if k in ('template', 'sed'):
                t = pick(rng, sorted(fx.TWIN)) if rng.random() < 0.8 else pick(rng, fx.SMALL)
                u = fx.TWIN.get(t) or pick(rng, fx.SMALL)
                a = dict(k=k, tmpl=t, interp=rng.random() < 0.5)
                if k == 'sed':
                    a['one'] = None
                b = dict(a, tmpl=u)
            elif k == 'response':
                a = dict(k='response', r=pick(rng, fx.ALLRESP), v=1)
                b = dict(a, v=2)
            else:
                s = gen_spec(rng, cls='Kcorrect', tmpl=pick(rng, ['t2', 't3', 'b4']), maxband=2)
                s['versions'] = {r: 1 for r in s['resp'] + (s['out'] or [])}
                a = dict(k='kc', spec=s)
                b = dict(k='kc', spec=dict(s, tmpl=fx.TWIN[s['tmpl']]))
            files.append([a, b])
        names = sorted({r for ab in files for th in ab if th['k'] == 'kc'
                        for r in th['spec']['resp'] + (th['spec']['out'] or [])})
        names += [n for n in sample(rng, fx.ALLRESP, rng.randint(1, 2)) if n not in names]
        ops = []
        for _ in range(rng.randint(8, 18 if tier == 'quick' else 28)):
            o = weighted(rng, [('load', 6), ('change', 5), ('dat', 2), ('dload', 1.5), ('dreload', 1.5), ('chdir', 1),
                               ('use', 3), ('modify', 1), ('save', 0.7), ('build', 0.8)])
            q = dict(o=o, f=rng.randrange(len(files)), s=rng.randrange(5), n=pick(rng, names),
                     rel=rng.random() < 0.4, seed=rng.randrange(10**6))
            if o in ('change', 'dat'):
                q['ch'] = self.change(rng, o)
            elif o in ('load', 'build', 'save', 'dload') and rng.random() < 0.3:
                # somebody changes another file meanwhile
                q['env'] = dict(f=rng.randrange(len(files)), ch=self.change(rng, 'change'), k=rng.randrange(60)
                                if rng.random() < 0.5 else rng.randrange(8))
            if o == 'load' and rng.random() < 0.5:
                q['blind'] = True       # not looked at before something changes
            ops.append(q)
        return dict(files=files, names=names, ops=ops, blind=rng.random() < 0.4)

    def change(self, rng, o):
        return dict(how=weighted(rng, [('inplace', 5), ('replace', 3), ('delete', 1), ('cut', 0.7), ('junk', 0.7)])
                    if o == 'change' else pick(rng, ['inplace', 'replace']),
                    to=rng.randrange(2), keep=rng.random() < 0.6, v=rng.randint(1, 3))

    def valid(self, scn):
        return bool(scn['ops'])

    # ------------------------------------------------------------------
    def do_change(self, c, f, ch):
        p = self.paths[f]
        how = ch['how']
        st = None
        if os.path.exists(p):
            st = os.stat(p)
        shrinks = how == 'cut' or (how == 'inplace' and st and st.st_size > len(self.bytes[f][ch['to']]))
        if shrinks and c.mapped(p):
            c.fail('snapshot-changed', 'file %d is still mapped into a loaded object: truncating it (not done '
                   'here) kills the process' % f)
        with c.quiet():
            data = self.bytes[f][ch['to']]
            if how == 'delete':
                if st:
                    os.remove(p)
                self.cur[f] = None
            elif how == 'cut':
                if not st:
                    return
                with open(p, 'r+b') as fp:
                    fp.truncate(st.st_size // 3)
                self.cur[f] = 'cut'
            elif how == 'junk':
                if not st:
                    return
                with open(p, 'r+b') as fp:
                    fp.write(b'\xa5' * st.st_size)
                self.cur[f] = 'junk'
            elif how == 'replace' or not st:
                with open(p + '.new', 'wb') as fp:
                    fp.write(data)
                os.replace(p + '.new', p)
                self.cur[f] = ch['to']
            else:
                with open(p, 'r+b') as fp:
                    fp.write(data)
                    fp.truncate(len(data))
                self.cur[f] = ch['to']
            if st and ch['keep'] and os.path.exists(p):
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
                if os.stat(p).st_size == st.st_size:
                    c.stats['probe:same_size_and_time'] += 1
        c.stats['probe:' + {'inplace': 'changed_in_place', 'replace': 'replaced', 'delete': 'deleted',
                            'cut': 'cut', 'junk': 'junk'}[how]] += 1
        c.stats['fault:file_changed_by_other'] += 1
        for s in self.slots.values():
            if s['f'] == f:
                self.after_load = True
                s['blind'] = False
        c.sim.note('change', f, how, ch['to'])

    def put_dat(self, c, name, ch):
        p = os.path.join(self.inst, 'data', 'responses', name + '.dat')
        with c.quiet():
            st = os.stat(p)
            txt = fx.variant_dat(name, ch['v'])
            if ch['how'] == 'inplace':
                with open(p, 'r+') as fp:
                    fp.write(txt)
                    fp.truncate()
            else:
                with open(p + '.tmp', 'w') as fp:
                    fp.write(txt)
                os.replace(p + '.tmp', p)
            if ch['keep']:
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
                c.stats['probe:same_size_and_time'] += 1
        self.fver[name] = ch['v']
        c.stats['fault:file_changed_by_other'] += 1
        if name in self.dver:
            self.after_load = True

    def run(self, c, scn):
        self.inst = c.private_install(scn['names'])
        self.fver, self.dver = {}, {}
        self.slots, self.cur, self.bytes, self.paths = {}, {}, {}, {}
        self.after_load = False
        self.blind = scn.get('blind')
        for n in scn['names']:
            self.put_dat(c, n, dict(how='replace', v=1, keep=False))
        d1, d2 = c.path('here'), c.path('there')
        with c.quiet():
            os.makedirs(d1)
            os.makedirs(d2)
        # both contents of every file, made by another process
        node = c.boot('maker', self.inst)
        for f, ab in enumerate(scn['files']):
            self.bytes[f] = []
            for j, th in enumerate(ab):
                k = c.must(lambda: objs.make(c, node, th), 'make')
                p = c.path('v%d-%d.fits' % (f, j))
                c.must(lambda: objs.save(node, th, k, p), 'save')
                with c.quiet():
                    with open(p, 'rb') as fp:
                        self.bytes[f].append(fp.read())
            self.paths[f] = os.path.join(d1, 'f%d.fits' % f)
            self.do_change(c, f, dict(how='replace', to=0, keep=False))
        c.stats.clear()
        node = c.boot('p0', self.inst)
        c.disk.counts.clear()
        os.chdir(d1)
        for j, q in enumerate(scn['ops']):
            self.step(c, node, scn, q, 'step %d (%s): ' % (j, q['o']), d1, d2)
            for s in sorted(self.slots):
                if self.slots[s].get('blind'):
                    continue
                self.check(c, node, s, 'step %d (%s): ' % (j, q['o']), 0, j)
            self.check_dict(c, node, 'step %d (%s): ' % (j, q['o']))
        self.blind = False
        self.check_dict(c, node, 'at the end: ')
        for s in sorted(self.slots):
            self.check(c, node, s, 'at the end: ', 2, scn.get('seed', 0))
        for f in sorted(self.paths):
            if self.cur[f] in (0, 1):
                self.load(c, node, scn, dict(f=f, s=9, rel=False), 'last load: ', d1)

    def check(self, c, node, s, what, queries, seed):
        x = self.slots[s]
        if x.pop('blind', None) is False:
            c.stats['probe:first_look_after_change'] += 1
        e = objs.error(c, node, x['th'], x['obj'], seed='%s-%s' % (seed, s), z=x['z'], queries=queries)
        if e:
            c.fail('snapshot-changed', '%sobject loaded from file %s (%s): %s'
                   % (what, x['f'], 'changed since' if x['f'] is not None and self.cur[x['f']] != x['src']
                      else 'unchanged', e))
        if self.after_load:
            c.stats['probe:checked_after_change'] += 1
            if x['th']['k'] == 'kc' and queries:
                c.stats['probe:kc_answered_after_change'] += 1

    def check_dict(self, c, node, what):
        rd = node.rdict()
        for n, v in sorted(self.dver.items()):
            if self.fver[n] == v and self.blind:
                continue
            if n not in rd:
                c.fail('snapshot-changed', '%sresponse %s vanished from the dictionary' % (what, n))
            e = model.check_response(rd[n], n, v)
            if e:
                c.fail('snapshot-changed', '%sresponse %s: %s' % (what, n, e))
            if self.fver[n] != v:
                c.stats['probe:dictionary_kept_old'] += 1

    def uses(self, th):
        if th['k'] != 'kc':
            return []
        return th['spec']['resp'] + (th['spec']['out'] or [])

    def note_loaded(self, names):
        for r in names:
            self.dver.setdefault(r, self.fver[r])

    def env(self, c, q, own):
        e = q.get('env')
        if not e or e['f'] == own:
            return [], None
        ran = []

        def action():
            ran.append(1)
            self.do_change(c, e['f'], e['ch'])
            c.stats['probe:changed_inside_call'] += 1
        return [dict(kind='env', at='any', k=e['k'], action=action)], (lambda: ran or self.do_change(c, e['f'], e['ch']))

    def load(self, c, node, scn, q, what, d1):
        f = q['f']
        cur = self.cur[f]
        p = self.paths[f]
        if q.get('rel'):
            p = os.path.relpath(p, os.getcwd())
            c.stats['probe:relative_path'] += 1
        th = scn['files'][f][cur] if cur in (0, 1) else scn['files'][f][0]
        if cur in (0, 1) and any(self.dver.get(r, self.fver[r]) != 1 for r in self.uses(th)):
            return          # solar magnitudes of other bandpass versions
        faults, later = self.env(c, q, f)
        r = c.op(lambda: objs.load(c, node, th, p), what, faults=faults)
        if later:
            later()
        if cur not in (0, 1):
            if r.ok:
                c.fail('missing-file-loaded', '%sfile %d is %s, but loading it returned' % (
                    what, f, {None: 'deleted'}.get(cur, cur)))
            c.stats['probe:load_of_missing_refused'] += 1
            return
        if not r.ok:
            c.fail('unexpected-error', what + r.describe())
        if any(x['f'] == f for x in self.slots.values()):
            c.stats['probe:twin_loads'] += 1
        if cur == 1:
            c.stats['probe:loaded_new_content'] += 1
        self.note_loaded(self.uses(th))
        self.slots[q['s']] = dict(obj=r.value, th=th, z=0., f=f, src=cur)
        if q.get('blind'):
            self.slots[q['s']]['blind'] = True
            return
        e = objs.error(c, node, th, r.value)
        if e:
            c.fail('stale-load', '%snew load of file %d: %s' % (what, f, e))

    def step(self, c, node, scn, q, what, d1, d2):
        o, f, s, n = q['o'], q['f'], q['s'], q['n']
        if o == 'load':
            self.load(c, node, scn, q, what, d1)
        elif o == 'change':
            self.do_change(c, f, q['ch'])
        elif o == 'dat':
            self.put_dat(c, n, q['ch'])
        elif o == 'chdir':
            os.chdir(d2 if os.path.realpath(os.getcwd()) == os.path.realpath(d1) else d1)
            c.stats['probe:directory_changed'] += 1
            for x in self.slots.values():
                x.pop('blind', None)
        elif o in ('dload', 'dreload'):
            if o == 'dreload' and n in self.dver and self.fver[n] != self.dver[n] and \
                    any(n in self.uses(x['th']) for x in self.slots.values()):
                return
            faults, later = self.env(c, q, None)
            rd = node.rdict()
            c.must(lambda: rd.load_response(n, reload=(o == 'dreload')), what, faults=faults)
            if later:
                later()
            if o == 'dreload':
                if n in self.dver and self.dver[n] != self.fver[n]:
                    c.stats['probe:dictionary_reloaded_new'] += 1
                self.dver[n] = self.fver[n]
            else:
                self.note_loaded([n])
        elif o == 'build':
            kc = [x for ab in scn['files'] for x in ab if x['k'] == 'kc']
            if not kc:
                return
            th = kc[q['seed'] % len(kc)]
            v = {r: self.dver.get(r, self.fver[r]) for r in self.uses(th)}
            th = dict(th, spec=dict(th['spec'], versions=v))
            faults, later = self.env(c, q, None)
            k = c.must(lambda: build(c, node, th['spec']), what, faults=faults)
            if later:
                later()
            self.note_loaded(self.uses(th))
            self.slots[s] = dict(obj=k, th=th, z=0., f=None, src=None)
        elif s in self.slots:
            x = self.slots[s]
            if o == 'use':
                if x['th']['k'] in ('sed', 'template'):
                    x['z'] = pick(__import__('random').Random(q['seed']), [0., 0.4, -0.1])
                    c.must(lambda: x['obj'].set_redshift(redshift=x['z']), what)
                self.check(c, node, s, what, 1, q['seed'])
            elif o == 'modify':
                # the client changes its own copy in place and forgets it
                k = x['obj']
                arrs = {'sed': ('restframe_flux', 'restframe_wave', 'flux'), 'response': ('response', 'wave'),
                        'template': ('restframe_flux', 'intsfh', 'm300', 'm50'), 'kc': ()}[x['th']['k']]
                for a in arrs:
                    v = getattr(k, a, None)
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v *= 3.
                if arrs:
                    del self.slots[s]
                    c.stats['probe:object_modified'] += 1
            elif o == 'save':
                if x['f'] is not None and x['f'] != f and x['th']['k'] != scn['files'][f][0]['k']:
                    return
                if scn['files'][f][0]['k'] != x['th']['k']:
                    return
                # save over a file other objects were loaded from
                opt = [j for j in (0, 1) if scn['files'][f][j] == x['th']]
                if not opt:
                    return
                faults, later = self.env(c, q, f)
                c.must(lambda: objs.save(node, x['th'], x['obj'], self.paths[f]), what, faults=faults)
                if later:
                    later()
                self.cur[f] = opt[0]
                c.stats['probe:saved_over'] += 1

    def nontrivial(self, ctx, scn):
        return self.after_load


CHECK = C12()
