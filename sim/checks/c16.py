"""C16: copied and pickled objects are complete and independent."""
import copy
import io
import pickle

import numpy as np

import model
from engine import Check
from checks.common import *
from checks import objs

ARRAYS = {'sed': ('restframe_wave', 'restframe_flux', 'wave', 'flux'),
          'template': ('restframe_wave', 'restframe_flux', 'wave', 'flux', 'intsfh', 'mremain', 'mets', 'm50',
                       'm300', 'm1000'),
          'response': ('wave', 'response'), 'kc': ('redshifts', 'imap')}
READ = ('eio', 'emfile', 'enoent', 'eacces')


def scribble(th, obj):
    """The client ruins its own copy in place, as far as numpy lets it."""
    n = 0
    for a in ARRAYS[th['k']]:
        v = getattr(obj, a, None)
        if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
            v *= 0
            v -= 7
            n += 1
    if th['k'] in ('sed', 'template'):
        if isinstance(getattr(obj, 'info', None), dict):
            obj.info['ruined'] = True
            n += 1
    if th['k'] == 'response':
        for a in ('solar_sed', 'vega_sed'):
            v = getattr(obj, a, None)
            if v is not None and hasattr(v, 'set_redshift'):
                v.set_redshift(redshift=0.4)
                n += 1 + scribble(dict(k='sed'), v)
    if th['k'] == 'kc':
        n += scribble(dict(k='template'), obj.templates)
        for m in (obj.Amatrix, obj.AmatrixOut):
            y = getattr(m, 'y', None)
            if isinstance(y, np.ndarray) and y.flags.writeable:
                y *= 0
                n += 1
        for a in ('responses', 'responses_out', 'responses_map'):
            v = getattr(obj, a, None)
            if isinstance(v, list):
                v.append('none')
                n += 1
    return n


class C16(Check):
    id = 'C16'
    rule = ('A case is a history over 1-3 simulated processes: making spectra, templates, responses and '
            'K-correction setups, moving them in redshift, deep-copying them, sending them pickled (any '
            'protocol) to another process - messages are delayed, lost, repeated, reordered and outlive '
            'their sender -, restarting processes, restoring a file onto a copy, saving a copy, ruining one '
            'copy in place, and queries, sometimes with a read error in the receiving process. Non-trivial '
            'when a copy was used. Distinct = distinct event logs.')
    probes = ('deepcopied', 'delivered', 'delivered_to_fresh_process', 'delivered_after_sender_died',
              'delivered_again', 'copy_of_copy', 'restarted', 'ruined_one_copy', 'restored_onto_copy',
              'saved_copy', 'moved_copy', 'moved_before_copy', 'queried_in_fresh_process', 'built_from_copy',
              'failed_then_repeated', 'pickled_together', 'lost_message')
    assumptions = ('all processes run the same version of the package',)

    def gen(self, rng, i, tier):
        nproc = rng.randint(1, 3)
        ops = []
        full = {}               # slot -> (kind, process), roughly what will be there
        nmsg = []
        for s in range(rng.randint(1, 3)):
            th = objs.gen_thing(rng, [('sed', 1), ('template', 1.5), ('response', 1), ('kc', 4)], small=True)
            p = rng.randrange(nproc)
            full[s] = (th['k'], p)
            ops.append(dict(o='make', s=s, p=p, th=th))
        for _ in range(rng.randint(6, 16 if tier == 'quick' else 28)):
            o = weighted(rng, [('make', 0.4), ('copy', 1.5), ('send', 4), ('deliver', 6 if nmsg else 0), ('restart', 0.8),
                               ('ruin', 1.2), ('onto', 1), ('save', 1), ('shift', 1.5), ('query', 5), ('build', 0.7)])
            q = dict(o=o, s=rng.randrange(6), t=rng.randrange(6), p=rng.randrange(nproc))
            want = {'shift': ('sed', 'template'), 'build': ('template',), 'query': ('kc', 'kc', 'response')}.get(o)
            good = [x for x in sorted(full) if want is None or full[x][0] in want]
            if good and o not in ('make', 'deliver', 'restart'):
                q['s'] = pick(rng, good)
            if o == 'make':
                q['th'] = objs.gen_thing(rng, small=True)
                full[q['s']] = (q['th']['k'], q['p'])
            elif o == 'copy' and q['s'] in full:
                full[q['t']] = full[q['s']]
            elif o == 'send':
                q['proto'] = rng.randint(2, 5)
                if rng.random() < 0.2:
                    q['with'] = rng.randrange(6)
                if q['s'] in full:
                    nmsg.append(full[q['s']][0])
            elif o == 'deliver':
                q['m'] = rng.random()
                q['keep'] = rng.random() < 0.35
                i = int(q['m'] * len(nmsg))
                full[q['t']] = (nmsg[i] if q['keep'] else nmsg.pop(i), q['p'])
            elif o == 'restart':
                full = {x: v for x, v in full.items() if v[1] != q['p']}
            elif o == 'ruin':
                full.pop(q['s'], None)
            elif o == 'shift':
                q['z'] = pick(rng, [0., 0.3, 1.1, -0.1])
            elif o in ('onto', 'build'):
                q['spec'] = gen_spec(rng, cls='Kcorrect', maxband=3, far=0.)
                q['th'] = objs.gen_thing(rng, [('sed', 1), ('response', 1)])
            elif o == 'query':
                q['q'] = gen_query(rng, 1, objs.KCQ)
                q['q'].pop('cat', None)
                if rng.random() < 0.5:
                    q['fault'] = [pick(rng, READ), rng.randrange(9)]
            q['seed'] = rng.randrange(10**6)
            ops.append(q)
        return dict(ops=ops, nproc=nproc)

    def valid(self, scn):
        return bool(scn['ops'])

    # ------------------------------------------------------------------
    def proc(self, c, p):
        if self.nodes.get(p) is None:
            self.nodes[p] = c.boot('p%d' % p)
            self.fresh.add(p)
        self.nodes[p].activate()
        return self.nodes[p]

    def look(self, c, s, what, queries=0, seed=0):
        x = self.slots[s]
        node = self.proc(c, x['p'])
        e = objs.error(c, node, x['th'], x['obj'], seed='%s-%s' % (seed, s), z=x['z'], queries=queries)
        if e:
            c.fail('copy-differs' if x['gen'] else 'original-changed', '%sobject %d (generation %d, process %d): %s'
                   % (what, s, x['gen'], x['p'], e))

    def exact(self, c, s, fp, what):
        x = self.slots[s]
        d = objs.differs(fp, objs.fingerprint(x['th'], x['obj']))
        if d:
            c.fail('copy-differs', '%sthe copy differs from the original in %s' % (what, d))
        if x['th']['k'] == 'kc':
            # the same cosmology
            z = np.array([0.05, 0.4])
            a = np.asarray(x['obj'].cosmo.distmod(z).value, 'f8')
            b = np.asarray(model.COSMO[x['th']['spec'].get('cosmo')].distmod(z).value, 'f8')
            if not np.allclose(a, b, rtol=1e-9):
                c.fail('copy-differs', what + 'the copy has another cosmology')
        if type(x['obj']) is not x['cls'](self.nodes[x['p']]):
            c.fail('copy-differs', '%sthe copy is a %r' % (what, type(x['obj'])))

    def cls(self, th):
        k = th['k']
        if k == 'kc':
            return lambda node: getattr(node.kc, th['spec']['cls'])
        return lambda node: {'sed': node.template.SED, 'template': node.template.Template,
                             'response': node.response.Response}[k]

    def everyone(self, c, what, but=()):
        for s in sorted(self.slots):
            if s not in but:
                self.look(c, s, what)

    def run(self, c, scn):
        self.nodes, self.slots, self.msgs, self.fresh = {}, {}, [], set()
        self.used = False
        nf = 0
        for j, q in enumerate(scn['ops']):
            o, s, t, p = q['o'], q['s'], q['t'] if 't' in q else 0, q['p']
            what = 'step %d (%s): ' % (j, o)
            x = self.slots.get(s)
            if o == 'make':
                node = self.proc(c, p)
                k = c.must(lambda: objs.make(c, node, q['th']), what)
                self.fresh.discard(p)
                self.slots[s] = dict(obj=k, th=q['th'], p=p, z=0., gen=0, cls=self.cls(q['th']),
                                     sh=q['th']['k'] == 'response' and q['th'].get('shared'))
            elif o == 'deliver':
                if not self.msgs:
                    continue
                i = int(q['m'] * len(self.msgs))
                m = self.msgs[i] if q['keep'] else self.msgs.pop(i)
                c.stats['fault:message_' + ('duplicated' if q['keep'] else 'reordered' if i else 'delivered')] += 1
                node = self.proc(c, p)
                if m['times']:
                    c.stats['probe:delivered_again'] += 1
                m['times'] += 1
                if p in self.fresh:
                    c.stats['probe:delivered_to_fresh_process'] += 1
                if self.nodes.get(m['from'][0]) is not m['from'][1]:
                    c.stats['probe:delivered_after_sender_died'] += 1
                r = c.must(lambda: pickle.loads(m['data']), what + 'unpickling')
                for n, (y, k) in enumerate(zip(m['what'], r)):
                    self.slots[(t + n) % 6] = dict(y, obj=k, p=p, sh=False)
                    self.exact(c, (t + n) % 6, m['fp'][n], what)
                c.stats['probe:delivered'] += 1
            elif o == 'restart':
                for y in [y for y in self.slots if self.slots[y]['p'] == p]:
                    del self.slots[y]
                self.nodes[p] = None
                self.fresh.discard(p)
                c.stats['probe:restarted'] += 1
                c.stats['fault:process_killed'] += 1
                continue
            elif x is None:
                continue
            elif o == 'copy':
                node = self.proc(c, x['p'])
                fp = objs.fingerprint(x['th'], x['obj'])
                k = c.must(lambda: copy.deepcopy(x['obj']), what)
                if k is x['obj']:
                    c.fail('copy-shared', what + 'the copy is the original')
                self.note(c, x)
                self.slots[t] = dict(x, obj=k, gen=x['gen'] + 1, sh=False)
                self.exact(c, t, fp, what)
                c.stats['probe:deepcopied'] += 1
                if t != s:
                    self.look(c, s, what + 'after being copied: ')
            elif o == 'send':
                node = self.proc(c, x['p'])
                xs = [x]
                y = self.slots.get(q.get('with'))
                if y is not None and y is not x and y['p'] == x['p']:
                    xs.append(y)
                    c.stats['probe:pickled_together'] += 1
                fps = [objs.fingerprint(y['th'], y['obj']) for y in xs]
                data = c.must(lambda: pickle.dumps([y['obj'] for y in xs], protocol=q['proto']), what + 'pickling')
                for y in xs:
                    self.note(c, y)
                self.msgs.append(dict(data=data, fp=fps, times=0, what=[dict(y, obj=None, gen=y['gen'] + 1) for y in xs],
                                      **{'from': (x['p'], node)}))
                if len(self.msgs) > 6:
                    self.msgs.pop(0)
                    c.stats['fault:message_lost'] += 1
                    c.stats['probe:lost_message'] += 1
            elif o == 'ruin':
                if x['sh']:
                    continue        # the dictionary's own entry
                if scribble(x['th'], x['obj']):
                    c.stats['probe:ruined_one_copy'] += 1
                if any(y is not x and y['obj'] is x['obj'] for y in self.slots.values()):
                    c.fail('copy-shared', what + 'two copies are one object')
                del self.slots[s]
                self.everyone(c, what + 'another copy was overwritten in place: ')
            elif o == 'shift':
                if x['th']['k'] not in ('sed', 'template'):
                    continue
                self.proc(c, x['p'])
                c.must(lambda: x['obj'].set_redshift(redshift=q['z']), what)
                x['z'] = q['z']
                if x['gen']:
                    c.stats['probe:moved_copy'] += 1
            elif o == 'save':
                node = self.proc(c, x['p'])
                nf += 1
                path = c.path('s%d.fits' % nf)
                c.must(lambda: objs.save(node, x['th'], x['obj'], path), what)
                r = c.must(lambda: objs.load(c, node, x['th'], path), what + 'loading it: ')
                e = objs.error(c, node, x['th'], r, seed=q['seed'])
                if e:
                    c.fail('copy-differs', '%swhat was saved from generation %d: %s' % (what, x['gen'], e))
                if x['gen']:
                    c.stats['probe:saved_copy'] += 1
            elif o == 'onto':
                k = x['th']['k']
                if k == 'template' or x['sh'] or (k == 'kc' and x['th']['spec']['cls'] != 'Kcorrect'):
                    continue
                node = self.proc(c, x['p'])
                if k == 'kc':
                    th = dict(k='kc', spec=dict(q['spec'], cosmo=x['th']['spec'].get('cosmo')))
                elif q['th']['k'] == k:
                    th = dict(q['th'], shared=False)
                    if k == 'sed':
                        th['interp'] = x['th']['interp']
                else:
                    continue
                nf += 1
                path = c.path('o%d.fits' % nf)
                src = c.must(lambda: objs.make(c, node, th), what + 'make: ')
                c.must(lambda: objs.save(node, th, src, path), what + 'save: ')
                c.must(lambda: objs.load(c, node, th, path, onto=x['obj']), what)
                x.update(th=th, z=0.)
                if x['gen']:
                    c.stats['probe:restored_onto_copy'] += 1
            elif o == 'build':
                if x['th']['k'] != 'template':
                    continue
                node = self.proc(c, x['p'])
                spec = dict(q['spec'], tmpl=x['th']['tmpl'], interp=x['th']['interp'])
                b = c.must(lambda: build(c, node, spec, x['obj']), what)
                x['z'] = 0.
                e = objs.kc_error(c, node, b, model.kmodel(spec), '', 1, q['seed'])
                if e:
                    c.fail('copy-differs', '%sbuilt from template generation %d: %s' % (what, x['gen'], e))
                if x['gen']:
                    c.stats['probe:built_from_copy'] += 1
                    self.used = True
                self.fresh.discard(x['p'])
            elif o == 'query':
                node = self.proc(c, x['p'])
                if x['th']['k'] != 'kc':
                    self.look(c, s, what, 0)
                    if x['th']['k'] == 'response':
                        self.project(c, node, x, what)
                    continue
                M = model.kmodel(x['th']['spec'])
                if x['p'] in self.fresh:
                    c.stats['probe:queried_in_fresh_process'] += 1
                if q.get('fault'):
                    r = c.op(lambda: run_query(c, node, x['obj'], M, q['q']), what,
                             faults=[dict(kind=q['fault'][0], at='any', k=q['fault'][1])])
                    bad = r.value if r.ok else None
                    if bad:
                        c.fail('copy-differs', '%s%s: %s' % (what, q['q']['o'], bad))
                    if not r.ok and r.unfired:
                        c.fail('unexpected-error', what + r.describe())
                    if not r.ok:
                        c.stats['probe:failed_then_repeated'] += 1
                    r = None
                e = c.must(lambda: run_query(c, node, x['obj'], M, q['q']), what)
                if e:
                    c.fail('copy-differs', '%s%s of generation %d in process %d: %s'
                           % (what, q['q']['o'], x['gen'], x['p'], e))
                if x['gen']:
                    self.used = True
            if s in self.slots and o != 'deliver':
                self.look(c, s, what)
        for s in sorted(self.slots):
            self.look(c, s, 'at the end: ', 2, scn.get('seed', 0))
            self.used = self.used or self.slots[s]['gen'] > 0

    def note(self, c, x):
        if x['gen']:
            c.stats['probe:copy_of_copy'] += 1
        if x['z']:
            c.stats['probe:moved_before_copy'] += 1

    def project(self, c, node, x, what):
        b = model.band(x['th']['r'], x['th']['v'])
        w = np.linspace(b.wave[0] - 50., b.wave[-1] + 50., 400)
        f = np.array([1. + (w / w[0])**2, 3. - w / w[-1]]) * 1e-9
        r = c.must(lambda: x['obj'].project(wave=w, flux=f), what)
        ref = b.project(w, f)
        e = model.close(np.atleast_1d(r), ref, 1e-3, 1e-3 * np.abs(ref).max(), 'projection')
        if e:
            c.fail('copy-differs', what + e)

    def nontrivial(self, ctx, scn):
        return self.used


CHECK = C16()
