"""C15: the listing of responses."""
import os
import random

import numpy as np

import model
from engine import Check
from checks.common import *

RERR = ('eio', 'enoent', 'eacces', 'emfile', 'estale', 'enomem')
GOOD = fx.ALLRESP
ODD = ['my.filter', 'with space', 'UPPER', 'x', 'sdss_g0.v2', '-dash', 'ünicode']
BAD = ['empty', 'junk', 'onecol', 'words', 'binary', 'halfline', 'othernames', 'nan', 'latin', 'twice',
       'quoted']
_ROWS = (b'| lambda |  pass |\n| 4000.0 |   0.0 |\n| 4100.0 |   0.5 |\n| 4200.0 |   0.6 |\n| 4300.0 |   0.1 |\n'
         b'| 4400.0 |   0.0 |\n')
# one entry of a good file spoilt
GOODROWS = dict(nan=_ROWS.replace(b'0.5', b'nan'), latin=_ROWS + b'| 4500.0 |   \xb5.0 |\n',
                twice=_ROWS.replace(b'4100', b'4000'), quoted=_ROWS.replace(b'4000.0', b"'4000'"))
OTHER = ['README', 'notes.txt', 'a.dat~', 'b.DAT', 'c.dat.bak', 'd.data', 'e_dat', '.hidden', 'dat', 'f.dat.gz',
         '#g.dat#']


def bad_text(kind, seed):
    r = random.Random(seed)
    if kind == 'empty':
        return b''
    if kind == 'junk':
        return b'this is not a response\nat all\n'
    if kind == 'onecol':
        return b'|   lambda |\n| 4000.0 |\n| 4100.0 |\n| 4200.0 |\n| 4300.0 |\n| 4400.0 |\n'
    if kind == 'words':
        return b'| lambda | pass |\n| one    | two  |\n| three  | four |\n| five   | six  |\n| seven  | nine |\n'
    if kind == 'binary':
        return bytes([0xff, 0xfe, 0x00, 0x81]) + bytes(r.randrange(128, 256) for _ in range(200))
    if kind in GOODROWS:
        return GOODROWS[kind]
    if kind == 'halfline':
        return b'|      lam'
    return b'|     wave |    curve |\n| 4000.0 | 0.0 |\n| 4100.0 | 0.5 |\n| 4200.0 | 0.6 |\n| 4300.0 | 0.1 |\n| 4400.0 | 0.0 |\n'


class C15(Check):
    id = 'C15'
    rule = ('A case is a session of 4-14 listings (with and without the validity check, of the own and of '
            'other directories, from one or two threads), loads and reloads, between which response files '
            'of all kinds (good, empty, junk, binary, missing columns) and other entries (directories, '
            'links, backups) come, go, break and are repaired; the directory order is random, and during '
            'listings read errors, vanishing and appearing files are placed at any system call. Every '
            'listing is compared with the directory and the dictionary. Non-trivial when a validity '
            'listing was made. Distinct = distinct event logs.')
    probes = ('listed', 'listed_valid', 'listed_other_directory', 'malformed_left_out', 'read_fault',
              'left_out_after_fault', 'listed_again_after_fault', 'vanished_during', 'appeared_during',
              'already_loaded_and_broken', 'repaired_listed', 'directory_fault', 'two_threads', 'empty_directory',
              'other_entries', 'star_file_fault')
    assumptions = ('two kinds of entry are not judged: names beginning with a dot and .dat alone',)

    def gen(self, rng, i, tier):
        names = sample(rng, GOOD, rng.randint(1, 5)) + sample(rng, ODD, rng.randint(0, 2))
        files = {}
        for n in names:
            files[n] = self.kind(rng)
        ops = []
        for _ in range(rng.randint(4, 10 if tier == 'quick' else 20)):
            o = weighted(rng, [('valid', 6), ('list', 2), ('other', 0.7), ('put', 2), ('remove', 1), ('entry', 1),
                               ('load', 1), ('reload', 0.7), ('dir', 0.4), ('link', 0.5), ('clear', 0.1)])
            q = dict(o=o, n=pick(rng, names), seed=rng.randrange(10**6))
            if o == 'put':
                q['kind'] = self.kind(rng)
            if o == 'entry':
                q['e'] = pick(rng, OTHER)
            if o in ('valid', 'list'):
                u = rng.random()
                if u < 0.35:
                    q['fault'] = dict(kind=pick(rng, RERR), where=rng.random(),
                                      at=pick(rng, ['any', 'any', 'any', 'read', 'open', 'stat', 'listdir']))
                elif u < 0.5:
                    q['vanish'] = [pick(rng, names), rng.random()]
                elif u < 0.58:
                    q['appear'] = [pick(rng, names), rng.random()]
            ops.append(q)
        scn = dict(files=files, ops=ops)
        if rng.random() < 0.15:
            scn['threads'] = True
            scn['sched'] = dict(seed=rng.randrange(10**9), p=pick(rng, [0.02, 0.1, 0.4]))
        return scn

    def kind(self, rng):
        return 'good' if rng.random() < 0.65 else pick(rng, BAD)

    def valid(self, scn):
        return bool(scn['ops'])

    def shrinks(self, scn):
        for n in list(scn['files']):
            if len(scn['files']) > 1:
                f = dict(scn['files'])
                del f[n]
                yield dict(scn, files=f)

    # -- the directory ---------------------------------------------------------
    def put(self, c, n, kind, seed=0):
        p = os.path.join(self.dir, n + '.dat')
        with c.quiet():
            if os.path.isdir(p) and not os.path.islink(p):
                return
            if kind == 'good':
                if n in GOOD:
                    t = fx.variant_dat(n, 0) if n in fx.SYN else open(os.path.join(fx.DATA, 'responses', n + '.dat')).read()
                else:
                    t = fx.dat_text(*fx.SYN['syn_tri'])
                t = t.encode()
            else:
                t = bad_text(kind, seed)
            with open(p + '.tmp', 'wb') as fp:
                fp.write(t)
            os.replace(p + '.tmp', p)
        self.now[n] = kind

    def remove(self, c, n):
        with c.quiet():
            p = os.path.join(self.dir, n + '.dat')
            if os.path.isfile(p) or os.path.islink(p):
                os.remove(p)
                self.now.pop(n, None)

    def content(self, n, obj):
        return model.check_response(obj, n if n in GOOD else 'syn_tri')

    # -- judging one listing ------------------------------------------------------
    def judge(self, c, what, got, before, hit=(), maybe=(), valid=True, keys_may=()):
        """got: the listing; before: dictionary keys before it."""
        rd = self.node.rdict()
        if not isinstance(got, list) or any(not isinstance(x, str) for x in got):
            c.fail('wrong-listing', what + 'returned %r' % (got,))
        g = [x for x in got if not x.startswith('.') and x != '']
        if len(set(g)) != len(g):
            c.fail('wrong-listing', what + 'names are repeated: %r' % sorted(x for x in g if g.count(x) > 1))
        if valid:
            exp = {n for n, k in self.now.items() if k == 'good' or n in before}
        else:
            exp = set(self.now)
        free = set(hit) | set(maybe)
        extra = set(g) - exp - free
        missing = exp - set(g) - free
        if extra:
            c.fail('wrong-listing', what + 'lists %r, which %s' % (
                sorted(extra), 'cannot be loaded' if valid and extra & set(self.now) else 'do not exist'))
        if missing:
            c.fail('wrong-listing', what + 'does not list %r' % sorted(missing))
        if len(exp - set(g) - set(maybe)) > 1:
            c.fail('wrong-listing', what + 'one fault removed several responses: %r' % sorted(exp - set(g)))
        if valid:
            keys = set(rd.keys())
            for n in g:
                if n not in keys:
                    c.fail('listed-not-loaded', what + '%s is listed but not in the dictionary' % n)
            left = keys - set(before) - set(g) - set(keys_may)
            if left:
                c.fail('trace-of-invalid', what + 'the dictionary has %r, which are not listed' % sorted(left))
            for n in sorted(keys):
                e = self.content(n, rd[n])
                if e:
                    c.fail('incomplete-entry', what + 'dictionary entry %s: %s' % (n, e))

    def culprits(self, c, n0):
        """Names of the responses which the last fault can have hit."""
        log = c.sim.log
        last = None
        for e in log[n0:]:
            if e[0] == 'FAULT':
                break
            if e[0] == 'sys' and e[3] and e[3].endswith('.dat'):
                last = os.path.basename(e[3])[:-4]
        return last

    def run(self, c, scn):
        inst = c.private_install([], templates=False)
        self.dir = os.path.join(inst, 'data', 'responses')
        with c.quiet():
            os.makedirs(self.dir, exist_ok=True)
        self.now = {}
        for n, k in scn['files'].items():
            self.put(c, n, k)
        node = self.node = c.boot('p0', inst)
        if scn.get('threads'):
            return self.threads(c, scn, node)
        hurt = set()
        for j, q in enumerate(scn['ops']):
            o, n = q['o'], q['n']
            what = 'step %d (%s): ' % (j, o)
            rd = node.rdict()
            before = set(rd.keys())
            if o == 'put':
                if n in before and q['kind'] != 'good':
                    c.stats['probe:already_loaded_and_broken'] += 1
                if self.now.get(n) not in (None, 'good') and q['kind'] == 'good':
                    hurt.add(n)
                self.put(c, n, q['kind'], q['seed'])
            elif o == 'remove':
                self.remove(c, n)
            elif o == 'clear':
                for x in list(self.now):
                    self.remove(c, x)
            elif o == 'entry':
                with c.quiet():
                    with open(os.path.join(self.dir, q['e']), 'w') as fp:
                        fp.write(fx.dat_text(*fx.SYN['syn_tri']))
                c.stats['probe:other_entries'] += 1
            elif o == 'dir':
                with c.quiet():
                    p = os.path.join(self.dir, 'subdir%d.dat' % (q['seed'] % 3))
                    if not os.path.lexists(p):
                        if q['seed'] % 2:
                            os.makedirs(os.path.join(p, 'inner.dat'))
                        else:
                            os.symlink('nowhere', p)        # dangling
                c.stats['probe:other_entries'] += 1
            elif o == 'link':
                # a response file that is a symbolic link
                with c.quiet():
                    t = c.path('target.dat')
                    with open(t, 'w') as fp:
                        fp.write(fx.dat_text(*fx.SYN['syn_tri']))
                    p = os.path.join(self.dir, 'linked.dat')
                    if not os.path.lexists(p):
                        os.symlink(t, p)
                self.now['linked'] = 'good'
            elif o in ('load', 'reload'):
                r = c.op(lambda: rd.load_response(n, reload=(o == 'reload')), o)
                k = self.now.get(n)
                exp = k == 'good' or (o == 'load' and n in before)
                if r.ok != exp:
                    c.fail('wrong-listing' if r.ok else 'unexpected-error',
                           what + 'of %s (%s) %s' % (n, k, r.describe()))
                if not r.ok and (n in rd) != (n in before):
                    c.fail('trace-of-invalid', what + 'a failed load changed the dictionary entries')
            elif o == 'other':
                d = c.path('elsewhere')
                r0 = random.Random(q['seed'])
                exp = sample(r0, GOOD + ODD, r0.randrange(6))
                with c.quiet():
                    import shutil
                    shutil.rmtree(d, ignore_errors=True)
                    os.makedirs(os.path.join(d, 'deeper.dat'))
                    for x in exp:
                        with open(os.path.join(d, x + '.dat'), 'w') as fp:
                            fp.write('anything')
                    for x in sample(r0, OTHER, 3):
                        with open(os.path.join(d, x), 'w') as fp:
                            fp.write('anything')
                rel = pick(r0, [d, os.path.relpath(d), d + os.sep])
                got = c.must(lambda: node.response.all_responses(response_dir=rel), what)
                g = sorted(x for x in got if not x.startswith('.'))
                if g != sorted(exp):
                    c.fail('wrong-listing', what + 'gave %r, the directory has %r' % (g, sorted(exp)))
                if not exp:
                    c.stats['probe:empty_directory'] += 1
                c.stats['probe:listed_other_directory'] += 1
            else:
                self.listing(c, scn, node, j, q, hurt, what)
        # once the trouble is over, everything good is listed
        before = set(node.rdict().keys())
        got = c.must(lambda: node.response.all_responses(check_validity=True), 'last listing')
        self.judge(c, 'last listing: ', got, before)
        got = c.must(lambda: node.response.all_responses(), 'last listing')
        self.judge(c, 'last plain listing: ', got, before, valid=False)

    def listing(self, c, scn, node, j, q, hurt, what):
        rd = node.rdict()
        before = set(rd.keys())
        valid = q['o'] == 'valid'
        faults = []
        hit, maybe = set(), set()

        def place(f):
            # how many system calls would it make, in another process?
            other = c.boot('dry', c_inst)
            for x in before:
                if self.now.get(x) == 'good':
                    other.rdict().load_response(x)
            r = c.op(lambda: other.response.all_responses(check_validity=valid), 'dry')
            node.activate()
            return max(1, r.counts[f['at']])
        c_inst = node.install
        if q.get('fault'):
            f = dict(q['fault'])
            n = place(f)
            f['k'] = min(n - 1, int(f.pop('where') * n))
            faults = [f]
        elif q.get('vanish') or q.get('appear'):
            x, where = q.get('vanish') or q.get('appear')
            f = dict(at='any', kind='env')
            n = place(f)
            f['k'] = min(n - 1, int(where * n))
            if q.get('vanish'):
                f['action'] = lambda: self.remove(c, x)
                was = self.now.get(x)
            else:
                f['action'] = lambda: self.put(c, x, 'good')
            maybe = {x}
            faults = [f]
        n0 = len(c.sim.log)
        now0 = dict(self.now)
        r = c.op(lambda: node.response.all_responses(check_validity=valid), 'listing', faults=faults)
        f = faults[0] if faults and faults[0] not in r.unfired else None
        fired = bool(faults) and not r.unfired
        hitcls = None
        if fired and faults[0]['kind'] != 'env':
            x = self.culprits(c, n0)
            log = [e for e in c.sim.log[n0:] if e[0] in ('sys', 'FAULT')]
            i = [k for k, e in enumerate(log) if e[0] == 'FAULT'][0]
            hitcls, hitpath = log[i - 1][2], log[i - 1][3]
            if hitpath and hitpath.endswith('.dat'):
                x = os.path.basename(hitpath)[:-4]
            elif hitpath and 'basel' in hitpath:
                c.stats['probe:star_file_fault'] += 1
            hit = {x} if x else set()
            c.stats['probe:read_fault'] += 1
        if not r.ok:
            if hitcls == 'listdir':
                c.stats['probe:directory_fault'] += 1
                if not isinstance(r.exc, OSError):
                    c.fail('unexpected-error', what + 'the directory could not be read: ' + r.describe())
                return
            if hitcls == 'stat' and isinstance(r.exc, OSError) and not hit:
                return
            c.fail('listing-failed', what + r.describe() + (' after a fault at %s' % hitcls if hitcls else ''))
        if hitcls == 'listdir' and fired:
            if set(r.value) != set(self.now):
                c.fail('wrong-listing', what + 'the directory could not be read, and the listing is %r' % r.value)
        if fired and q.get('vanish') and was is not None:
            c.stats['probe:vanished_during'] += 1
        if fired and q.get('appear'):
            c.stats['probe:appeared_during'] += 1
        now1 = self.now
        self.now = dict(self.now)
        self.judge(c, what, r.value, before, hit, maybe, valid=valid)
        g = set(r.value)
        for x in hit:
            if x in now0 and x not in g and now0[x] == 'good' and valid:
                c.stats['probe:left_out_after_fault'] += 1
                hurt.add(x)
        for x in list(hurt):
            if x in g and x not in hit:
                c.stats['probe:listed_again_after_fault'] += 1
                c.stats['probe:repaired_listed'] += 1
                hurt.discard(x)
        self.now = now1
        c.stats['probe:listed_valid' if valid else 'probe:listed'] += 1
        if valid and any(k != 'good' for k in self.now.values()):
            c.stats['probe:malformed_left_out'] += 1

    def threads(self, c, scn, node):
        """Two threads list and load at the same time."""
        bad = []
        out = []
        ops = [q for q in scn['ops'] if q['o'] in ('valid', 'list', 'load', 'reload')]

        def client(t):
            def f():
                for q in ops[t::2]:
                    o, n = q['o'], q['n']
                    try:
                        if o in ('valid', 'list'):
                            out.append((o, node.response.all_responses(check_validity=(o == 'valid'))))
                        elif self.now.get(n) == 'good':
                            node.rdict().load_response(n, reload=(o == 'reload'))
                    except Exception as x:
                        bad.append('%s raised %r' % (o, x))
                        return
            return f
        tasks = c.sim.run_tasks([client(0), client(1)])
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        c.sim.tasks = []
        c.stats['probe:two_threads'] += 1
        if bad:
            c.fail('unexpected-error', bad[0])
        good = {n for n, k in self.now.items() if k == 'good'}
        for o, g in out:
            self.judge(c, 'two threads (%s): ' % o, g, set(), valid=(o == 'valid'), keys_may=good)

    def nontrivial(self, ctx, scn):
        return ctx.sim.stats['probe:listed_valid'] > 0 or ctx.sim.stats['probe:two_threads'] > 0


CHECK = C15()
