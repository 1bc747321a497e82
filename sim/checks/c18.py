"""C18: calls leave the rest of the process and the file system alone."""
import gc
import locale
import logging
import multiprocessing
import os
import random
import resource
import signal
import sys
import threading
import warnings

import astropy.io.fits
import numpy as np

import model
from engine import Check
from checks.common import *
from checks import c14, objs
from seams import S

RERR = ('eio', 'eacces', 'emfile', 'enoent', 'enospc', 'estale', 'enomem')
FITSCONF = ('use_memmap', 'lazy_load_hdus', 'enable_record_valued_keyword_cards', 'extension_name_case_sensitive',
            'strip_header_whitespace', 'use_fsspec' if hasattr(astropy.io.fits.conf, 'use_fsspec') else 'use_memmap')
SIGS = (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1, signal.SIGCHLD)


def process_state():
    """What other code in the process relies on and a library should not touch."""
    um = os.umask(0o22)
    os.umask(um)
    import matplotlib
    import matplotlib.pyplot
    import scipy.special
    s = {}
    s['numpy error handling'] = sorted(np.geterr().items())
    s['numpy error callback'] = id(np.geterrcall())
    s['numpy buffer size'] = np.getbufsize()
    s['numpy print options'] = sorted((k, repr(v)) for k, v in np.get_printoptions().items())
    s['scipy error handling'] = sorted(scipy.special.geterr().items())
    s['warning filters'] = [tuple(map(repr, f)) for f in warnings.filters]
    s['warning display'] = (id(warnings.showwarning), id(warnings.formatwarning))
    s['numpy random generator'] = rng_state()
    s['python random generator'] = hash(random.getstate())
    s['working directory'] = os.getcwd()
    s['environment'] = dict(os.environ)
    s['umask'] = um
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['signal handlers'] = [signal.getsignal(x) for x in SIGS]
    s['standard streams'] = [id(sys.stdout), id(sys.stderr), id(sys.stdin)]
    s['recursion limit'] = sys.getrecursionlimit()
    s['thread switch interval'] = sys.getswitchinterval()
    s['garbage collector'] = (gc.isenabled(), gc.get_threshold(), len(gc.callbacks))
    s['trace hooks'] = [id(sys.gettrace()), id(sys.getprofile()), id(sys.excepthook), id(sys.displayhook),
                        id(threading.excepthook)]
    s['import path'] = list(sys.path)
    s['import hooks'] = [id(x) for x in sys.meta_path] + [id(x) for x in sys.path_hooks]
    s['logging'] = [logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
                    logging.getLogger('astropy').level]
    s['matplotlib'] = (hash(repr(sorted(dict.items(matplotlib.rcParams), key=str))), matplotlib.get_backend(),
                       tuple(matplotlib.pyplot.get_fignums()))
    s['astropy.io.fits configuration'] = [getattr(astropy.io.fits.conf, k) for k in FITSCONF]
    s['process start method'] = multiprocessing.get_start_method(allow_none=True)
    s['resource limits'] = [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS,
                                                            resource.RLIMIT_FSIZE, resource.RLIMIT_STACK)]
    s['child processes'] = len(multiprocessing.active_children())
    s['threads'] = sorted(id(t) for t in threading.enumerate())
    return s


def rng_state():
    a = np.random.get_state()
    return (a[0], a[1].tobytes(), a[2:])


def files(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            try:
                st = os.lstat(p)
            except OSError:
                continue
            out[p] = (st.st_size, st.st_mtime_ns, st.st_ino, st.st_mode, st.st_nlink)
        out[d] = os.lstat(d).st_mode
    return out


class Exhausted:
    """The n-th least-squares problem does not converge, however often it is tried."""

    def __init__(self, c, n):
        self.c, self.n, self.seen = c, n, {}

    def __call__(self, i, A, b, maxiter):
        k = np.ascontiguousarray(A).tobytes() + np.ascontiguousarray(b).tobytes()
        if self.seen.setdefault(k, len(self.seen)) == self.n:
            self.c.stats['fault:solver_not_converged'] += 1
            self.c.sim.note('nnls', i)
            return RuntimeError('Maximum number of iterations reached.')
        return None


class C18(Check):
    id = 'C18'
    rule = ('A case is a process with unusual settings (numpy error handling, warning filters, environment, '
            'print options, generators, umask ...) that imports the package and makes, loads, saves, restores, '
            'lists, builds, moves, projects and queries, single-threaded or in 2-3 interleaved threads, with '
            'read and write errors, interrupts, failing allocations and solvers that do not converge; settings and all files are compared '
            'before and after every call. Non-trivial when a call failed or was interrupted, or threads '
            'interleaved. Distinct = distinct event logs.')
    probes = ('call_returned', 'call_failed', 'call_interrupted', 'allocation_failed', 'threads', 'import',
              'save_returned', 'save_failed', 'saved_over_existing', 'mc_query', 'k:make', 'k:load', 'k:onto', 'k:dict',
              'k:reload', 'k:list', 'k:shift', 'k:build', 'k:query', 'k:project', 'k:basel', 'k:save',
              'only_target_written', 'neighbour_files')
    assumptions = ('descriptors, mappings and memory are judged by C13; the response dictionary by C05',)

    def gen(self, rng, i, tier):
        scn = c14.CHECK.gen(rng, i, tier)
        scn.pop('survey', None)
        for q in scn['ops']:
            q.pop('int', None)
            q.pop('mid', None)
            u = rng.random()
            if u < 0.45:
                q['fault'] = pick(rng, [['io', pick(rng, RERR)], ['line'], ['line'], ['call']]) + [rng.random()]
            if q['o'] == 'query' and q['q']['o'] in ('fit', 'fitmc', 'asinh') and rng.random() < 0.6:
                q['fault'] = pick(rng, [['solver'], ['solver'], ['line']]) + [rng.random()]
                if q['fault'][0] == 'solver':
                    q['q']['seed'] = rng.randrange(10**6)
        scn.pop('threads', None)
        scn.pop('sched', None)
        if rng.random() < 0.25:
            scn['threads'] = rng.randint(2, 3)
            scn['sched'] = dict(seed=rng.randrange(10**9), p=pick(rng, [0.02, 0.1, 0.3]))
            scn['ops'] = [q for q in scn['ops'] if q['o'] != 'plot'] or scn['ops']
        elif rng.random() < 0.12:
            mk = [q for q in scn['ops'] if q['o'] == 'make' and q['th']['k'] in ('sed', 'template')]
            if mk:
                q = dict(o='plot', s=mk[-1]['s'], seed=1)
                if rng.random() < 0.5:
                    q['fault'] = pick(rng, [['line'], ['call']]) + [rng.random()]
                scn['ops'].insert(scn['ops'].index(mk[-1]) + 1, q)
        scn['mood'] = rng.randrange(10**6)
        return scn

    def valid(self, scn):
        return bool(scn['ops'])

    # ------------------------------------------------------------------
    def mood(self, seed):
        """Settings of the surrounding program."""
        r = random.Random(seed)
        np.seterrcall(_ignore)
        np.seterr(**{k: pick(r, ['ignore', 'warn', 'call']) for k in ('divide', 'over', 'under', 'invalid')})
        import scipy.special
        warnings.resetwarnings()
        warnings.simplefilter('ignore')
        warnings.filterwarnings('ignore', message='x%d' % r.randrange(9))
        warnings.filterwarnings('ignore', category=pick(r, [DeprecationWarning, RuntimeWarning, UserWarning]),
                                module='client')
        np.set_printoptions(precision=r.randint(4, 12), suppress=r.random() < 0.5)
        np.random.seed(r.randrange(1000))
        random.seed(r.randrange(1000))
        os.environ['OMP_NUM_THREADS'] = str(r.randint(2, 9))
        os.environ['MKL_NUM_THREADS'] = str(r.randint(2, 9))
        os.environ['OPENBLAS_NUM_THREADS'] = str(r.randint(2, 9))
        os.environ['CLIENT'] = 'x'
        os.environ.pop('KCORRECT_DIR', None)
        for k in ('HOME', 'XDG_CACHE_HOME', 'XDG_CONFIG_HOME', 'XDG_DATA_HOME', 'XDG_STATE_HOME', 'TMPDIR'):
            os.environ[k] = self.home
        import matplotlib
        matplotlib.rcdefaults()
        for k in FITSCONF:
            setattr(astropy.io.fits.conf, k, astropy.io.fits.conf.__class__.__dict__[k].defaultvalue)
        astropy.io.fits.conf.use_memmap = r.random() < 0.7
        os.umask(pick(r, [0o22, 0o27, 0o77]))
        sys.setrecursionlimit(1500 + r.randrange(500))

    def run(self, c, scn):
        keep = dict(err=np.geterr(), call=np.geterrcall(), filters=list(warnings.filters), po=np.get_printoptions(),
                    env=dict(os.environ), um=os.umask(0o22), rl=sys.getrecursionlimit(), cwd=os.getcwd(),
                    path=list(sys.path), sig=[signal.getsignal(x) for x in SIGS])
        os.umask(keep['um'])
        self.trouble = False
        self.home = c.path('home')
        with c.quiet():
            os.makedirs(self.home)
        try:
            self.mood(scn['mood'])
            self.go(c, scn)
        finally:
            if 'matplotlib.pyplot' in sys.modules:
                sys.modules['matplotlib.pyplot'].close('all')
            np.seterr(**keep['err'])
            np.seterrcall(keep['call'])
            warnings.filters[:] = keep['filters']
            warnings._filters_mutated() if hasattr(warnings, '_filters_mutated') else None
            np.set_printoptions(**keep['po'])
            os.environ.clear()
            os.environ.update(keep['env'])
            os.umask(keep['um'])
            sys.setrecursionlimit(keep['rl'])
            os.chdir(keep['cwd'])
            sys.path[:] = keep['path']
            for x, h in zip(SIGS, keep['sig']):
                if signal.getsignal(x) is not h and h is not None:
                    signal.signal(x, h)

    def settings(self, c, before, what, mc=False, but=(), threaded=False):
        now = process_state()
        for k in before:
            if k in but or (mc and k == 'numpy random generator'):
                continue
            if k == 'warning filters' and threaded:
                # astropy.io.fits sets a filter of its own while it makes a table, with
                # catch_warnings(), which Python documents not to be safe among threads
                now[k] = [f for f in now[k] if f in before[k] or 'contains NULL' not in f[1]]
            if before[k] != now[k]:
                d = ''
                if isinstance(before[k], dict):
                    d = sorted(set(before[k].items()) ^ set(now[k].items()))[:4]
                elif k in ('numpy error handling', 'warning filters', 'working directory', 'umask'):
                    d = '%r, was %r' % (now[k], before[k])
                c.fail('process-changed', '%s%s changed %s' % (what, k, str(d)[:300]))

    def written(self, c, before, target, what, returned):
        if c.disk.outside:
            c.fail('other-file-written', '%s%s was opened for writing' % (what, c.disk.outside[0]))
        with c.quiet():
            now = files(c.root)
        for p in sorted(set(before) | set(now)):
            if before.get(p) == now.get(p) or p in target:
                continue
            if isinstance(before.get(p), int) and isinstance(now.get(p), int):
                continue
            if p not in before:
                if returned:
                    c.fail('other-file-written', '%s%s was created' % (what, c.disk.rel(p)))
                d = os.path.dirname(p)
                if target and (d in [os.path.dirname(t) for t in target] or d == os.path.join(c.root, 'tmp')):
                    with c.quiet():     # what a failed save leaves behind is swept away
                        os.remove(p)
                    continue
                c.fail('other-file-written', '%s%s was created' % (what, c.disk.rel(p)))
            c.fail('other-file-written', '%s%s was %s' % (what, c.disk.rel(p), 'removed' if p not in now else 'changed'))
        if target and returned:
            c.stats['probe:only_target_written'] += 1

    def is_mc(self, q):
        return q['o'] == 'query' and (q['q']['o'] in ('fitmc', 'absmag_mc', 'derived_mc'))

    def go(self, c, scn):
        with c.quiet():
            for n in ('neighbour.fits', 'd.fits', 'fa.fits.bak', 'fa.fits.tmp'):
                with open(c.path(n), 'wb') as fp:
                    fp.write(b'somebody else')
            before = files(c.root)
        c.stats['probe:neighbour_files'] += 1
        st = process_state()
        node = c.boot('p0')
        self.settings(c, st, 'importing the package: ')
        self.written(c, before, (), 'importing the package: ', True)
        c.stats['probe:import'] += 1
        if scn.get('threads'):
            return self.threads(c, scn, node)
        w = c14.World(c, node, 'f')
        for j, q in enumerate(scn['ops']):
            what = 'step %d (%s): ' % (j, q['o'])
            kw = {}
            if q.get('fault'):
                # how long the call is, from a copy of the world
                n = self.lengths(c, node, scn, q, w)
                if n is None:
                    continue
                how, where = q['fault'][0], q['fault'][-1]
                if how == 'line':
                    kw['kbd_at'] = 1 + int(where * max(1, n[0]))
                elif how == 'call':
                    kw['call_at'] = 1 + int(where * max(1, n[1]))
                elif how == 'solver':
                    S.nnls_plan = Exhausted(c, int(where * max(1, n[3])))
                else:
                    kw['faults'] = [dict(kind=q['fault'][1], at='any', k=int(where * max(1, n[2])))]
            a = w.action(dict(q))
            if a is None:
                continue
            f, v, modified = a
            target = (w.path(q['s']),) if q['o'] == 'save' else ()
            if target and os.path.exists(target[0]):
                c.stats['probe:saved_over_existing'] += 1
            with c.quiet():
                before = files(c.root)
            st = process_state()
            r = c.op(f, q['o'], **kw)
            S.nnls_plan = None
            ok, exc = r.ok, type(r.exc)
            iofired = bool(kw.get('faults')) and not r.unfired
            desc = '%s%s: ' % (what, r.describe())
            r = None
            self.settings(c, st, desc, self.is_mc(q))
            self.written(c, before, target, desc, ok)
            c.stats['probe:k:' + q['o']] += 1
            if self.is_mc(q):
                c.stats['probe:mc_query'] += 1
            if ok:
                c.stats['probe:call_returned'] += 1
                if target:
                    c.stats['probe:save_returned'] += 1
                st = process_state()
                # a listing leaves out what could not be read (C15)
                e = None if q['o'] == 'list' and iofired else v()
                if e:
                    c.fail('wrong-result', what + e)
                self.settings(c, st, what + 'using the result: ', True)
            else:
                self.trouble = True
                c.stats['probe:' + ('call_interrupted' if exc is KeyboardInterrupt else 'allocation_failed'
                                    if exc is MemoryError else 'call_failed')] += 1
                if target:
                    c.stats['probe:save_failed'] += 1
                for s in modified:
                    w.slots.pop(s, None)
                if target:
                    w.files.pop(q['s'], None)      # half written

    def lengths(self, c, node, scn, q, w):
        """Lines, library calls and system calls of the call, by doing it once
        undisturbed (it is repeatable; objects it modifies are put back)."""
        a = w.action(dict(q))
        if a is None:
            return None
        f, v, modified = a
        if modified and q['o'] in ('onto',):
            return (400, 60, 40, 0)
        n0 = S.nnls_calls
        r = c.op(f, 'dry', count_calls=q['fault'][0] == 'call')
        if not r.ok:
            c.fail('unexpected-error', 'undisturbed %s %s' % (q['o'], r.describe()))
        for s in modified:
            if q['o'] == 'shift':
                w.slots[s][2] = q['z']
            elif q['o'] == 'build':
                w.slots[s][2] = 0.
        return (r.steps, r.calls, r.counts['any'], S.nnls_calls - n0)

    def threads(self, c, scn, node):
        """Each thread has objects and files of its own."""
        n = scn['threads']
        W = [c14.World(c, node, 't%d' % i) for i in range(n)]
        bad = []
        failed = []
        with c.quiet():
            before = files(c.root)
        st = process_state()
        ops = [[q for j, q in enumerate(scn['ops']) if j % n == i or q['o'] == 'make'] for i in range(n)]
        target = {W[i].path(q['s']) for i in range(n) for q in ops[i] if q['o'] == 'save'}

        def client(i):
            for j, q in enumerate(ops[i]):
                a = W[i].action(dict(q))
                if a is None:
                    continue
                fired = ()
                try:
                    if q.get('fault') and q['fault'][0] == 'io':
                        c.disk.arm_task(c.sim.current.id, [dict(kind=q['fault'][1], at='any',
                                                                k=int(q['fault'][2] * 30))])
                    try:
                        a[0]()
                    finally:
                        fired = c.disk.disarm_task(c.sim.current.id) if c.sim.current.id in c.disk.tasks else []
                except Exception as x:
                    if not fired:
                        bad.append('thread %d, %s raised %r' % (i, q['o'], x))
                        return
                    c.stats['probe:call_failed'] += 1
                    failed.append(q['o'])
                    for s in a[2]:
                        W[i].slots.pop(s, None)
                    if q['o'] == 'save':
                        W[i].files.pop(q['s'], None)
                    continue
                e = None if q['o'] == 'list' and fired else a[1]()
                if e:
                    bad.append('thread %d, %s: %s' % (i, q['o'], e))
                    return
        tasks = c.sim.run_tasks([lambda i=i: client(i) for i in range(n)])
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        c.sim.tasks = []
        c.stats['probe:threads'] += 1
        self.trouble = True
        if bad:
            c.fail('wrong-result', bad[0])
        self.settings(c, st, 'after %d threads: ' % n, True, threaded=True)
        self.written(c, before, target, 'after %d threads: ' % n,
                     'save' not in failed)

    def nontrivial(self, ctx, scn):
        return self.trouble


def _ignore(*a):
    return None


CHECK = C18()
