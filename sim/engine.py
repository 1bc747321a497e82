"""Runs: context of one simulated execution, worker initialisation, search,
minimisation, replay and evidence."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import contextlib
import copy
import gc
import hashlib
import importlib
import io
import json
import random
import shutil
import signal
import subprocess
import tempfile
import threading
import time
import traceback
import types
import warnings
from collections import Counter

import simsched as sched

VERIF = os.path.dirname(HERE)
CHECKS = ['C%02d' % i for i in range(1, 22)]


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class Outcome:
    """What one operation did."""
    __slots__ = ('ok', 'value', 'exc', 'steps', 'calls', 'unfired', 'counts')

    def describe(self):
        if self.ok:
            return 'returned'
        return 'raised %s(%s)' % (type(self.exc).__name__, str(self.exc)[:160])


_G = types.SimpleNamespace(root=None, inst=None, ready=False)


def worker_init():
    """Import the libraries, install the seams, build the installation."""
    if _G.ready:
        return
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import numpy as np
    import astropy.io.fits
    import astropy.io.ascii
    import astropy.table
    import astropy.cosmology
    import astropy.units
    import matplotlib.pyplot          # noqa
    import scipy.interpolate
    import scipy.integrate
    import scipy.optimize
    import logging
    logging.getLogger('astropy').setLevel(logging.CRITICAL)
    import boot
    import fixtures as fx
    import model                       # noqa: captures the real nnls
    import seams
    import disk
    np.seterr(all='ignore')
    astropy.cosmology.Planck18.distmod(0.1)
    base = os.environ.get('KCSIM_SCRATCH') or tempfile.gettempdir()
    _G.root = tempfile.mkdtemp(prefix='kcsim-', dir=base)
    _G.owner = os.getpid()
    _G.inst = fx.make_install(os.path.join(_G.root, 'inst'))
    os.makedirs(os.path.join(_G.root, 'pool'))
    for n in fx.TSPEC:
        fx.write_template(n, os.path.join(_G.root, 'pool', n + '.fits'))
    sched.patch_locks()
    sched.patch_library_locks()
    sched.setup()
    disk.install()
    seams.install()
    sys.unraisablehook = lambda u: None
    # compile every module of the package once, then place yield points
    sched.SIM = None
    with contextlib.suppress(Exception):        # reported by the runs themselves
        boot.Node('init', _G.inst)
    sched.set_events(instr=False, calls=False, force=True)
    boot.shutdown()
    # warm lazily imported parts of astropy so that runs do not differ by them
    _G.ready = True
    _memo_config()
    for k in range(2):
        with Ctx({'seed': 0}) as c, contextlib.suppress(Exception):
            nd = c.boot('warm')
            t = nd.template.Template(filename=c.pool('t2'))
            p = c.path('w.fits')
            t.tofits(filename=p)
            nd.template.Template(filename=p)
            nd.rdict().load_response('syn_tri').__class__
            r = nd.rdict()['syn_tri']
            r.tofits(filename=c.path('r.fits'))
            nd.response.Response().fromfits(filename=c.path('r.fits'))
            matplotlib.pyplot.figure()
            t.plot()
            t.plot(wavelim=[float(t.wave[1]), float(t.wave[-2])])
        matplotlib.pyplot.close('all')
    gc.collect()
    gc.freeze()
    gc.disable()


def _memo_config():
    """astropy looks its (constant) settings up tens of thousands of times per
    run; remember them until one is set."""
    from astropy.config.configuration import ConfigItem
    memo = {}
    call, set_ = ConfigItem.__call__, ConfigItem.set

    def fast(self):
        try:
            return memo[id(self)]
        except KeyError:
            v = call(self)
            if isinstance(v, (bool, int, float, str)):
                memo[id(self)] = v
            return v

    def setter(self, value):
        memo.clear()
        return set_(self, value)
    ConfigItem.__call__, ConfigItem.set = fast, setter


def worker_exit():
    if _G.root and _G.owner == os.getpid():
        shutil.rmtree(_G.root, ignore_errors=True)


class Ctx:
    """One simulated execution."""

    def __init__(self, scn, threads=False):
        import boot
        import disk
        import seams
        self.scn = scn
        self.rnd = random.Random('run-%s' % scn.get('seed', 0))
        sch = scn.get('sched') or {}
        self.sim = sched.Sim(rng_seed=sch.get('seed', 0),
                             preempts=scn.get('preempts'),
                             p=sch.get('p', 0.0), instr=sch.get('instr', False),
                             max_steps=sch.get('max_steps', 3000000))
        self.sim.rng_dir = random.Random('dir-%s' % scn.get('seed', 0))
        self.sim.run_seed = scn.get('seed', 0)
        self.root = _G.root
        self.work = os.path.join(_G.root, 'work')
        self.nodes = []
        self.boot_mod, self.disk_mod, self.seams = boot, disk, seams

    @property
    def stats(self):
        return self.sim.stats

    def __enter__(self):
        import numpy as np
        gc.collect(0) if False else None
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(os.path.join(_G.root, 'tmp'), ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(_G.root, 'tmp'))
        self.disk_mod.reset_tempnames(_G.root)
        self.cwd = os.getcwd()
        os.chdir(self.work)
        np.random.seed(12345)
        random.seed(12345)
        warnings.simplefilter('ignore')
        self.seams.reset()
        sched.SIM = self.sim
        self.disk = self.disk_mod.Disk(self.sim, _G.root)
        self.sim.disk = self.disk
        self.disk_mod.DISK = self.disk
        if self.sim.instr:
            sched.set_events(instr=True)
        return self

    def __exit__(self, *a):
        self.disk_mod.DISK = None
        sched.SIM = None
        sched.set_events(instr=False, calls=False)
        self.boot_mod.shutdown()
        self.nodes = []
        self.seams.reset()
        os.chdir(self.cwd)
        return False

    # --- helpers ----------------------------------------------------------
    def boot(self, name='p0', inst=None):
        self.sim.note('boot', name)
        try:
            n = self.boot_mod.Node(name, inst or _G.inst)
        except Exception as e:
            raise Violation('import-failed', 'importing the package raised %r' % (e,))
        sched.set_events(force=True)
        self.nodes.append(n)
        if self.disk.dead:
            self.disk.epoch += 1
        self.disk.dead = False
        return n

    def path(self, name):
        return os.path.join(self.work, name)

    def pool(self, t):
        if t.startswith('real:'):
            return os.path.join(_G.inst, 'data', 'templates', 'kcorrect-%s-v4.fits' % t[5:])
        return os.path.join(_G.root, 'pool', t + '.fits')

    def private_install(self, responses=None, name='inst', templates=False):
        import fixtures as fx
        with self.quiet():
            return fx.make_install(os.path.join(self.work, name), responses, templates)

    def mapped(self, path):
        gc.collect()
        return self.disk.rel(os.path.realpath(path)) in self.disk.maps()

    def quiet(self):
        """The harness acts on the real disk, outside the simulation."""
        return _Quiet(self.disk_mod)

    def op(self, fn, name='op', faults=(), kbd_at=None, call_at=None, count_calls=False,
           call_exc=MemoryError, kbd_exc=KeyboardInterrupt):
        """Run one operation inline with the given faults armed."""
        o = Outcome()
        self.disk.begin_op(faults)
        self.sim.note('op', name)
        o.ok, o.value, o.exc = False, None, None
        try:
            self.sim.begin_op(kbd_at=kbd_at, call_at=call_at, call_exc=call_exc,
                              count_calls=count_calls, kbd_exc=kbd_exc)
            try:
                o.value = fn()
                o.ok = True
            finally:
                o.steps, o.calls = self.sim.end_op()
                o.counts = self.disk.op_counts
                o.unfired = self.disk.end_op()
        except sched.SimAbort as e:
            raise Violation('no-progress', '%s: %s' % (name, e))
        except (Exception, KeyboardInterrupt, sched.SimCrash, SystemExit, GeneratorExit) as e:
            if isinstance(e, _HarnessTimeout):
                raise
            o.exc = _strip(e)
        self.sim.note('done', name, o.ok, type(o.exc).__name__)
        return o

    def must(self, fn, name='op', **kw):
        o = self.op(fn, name, **kw)
        if not o.ok:
            raise Violation('unexpected-error', '%s %s' % (name, o.describe()))
        return o.value

    def fail(self, kind, detail):
        raise Violation(kind, detail)

    def hash(self):
        h = hashlib.sha256()
        for e in self.sim.log:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]


class _Quiet:
    def __init__(self, dm):
        self.dm = dm

    def __enter__(self):
        self.d, self.dm.DISK = self.dm.DISK, None

    def __exit__(self, *a):
        self.dm.DISK = self.d
        return False


class _HarnessTimeout(BaseException):
    pass


def _strip(e):
    """Keep the exception, not the frames (they would pin open files)."""
    seen = set()
    x = e
    while x is not None and id(x) not in seen:
        seen.add(id(x))
        x.__traceback__ = None
        nxt = x.__context__ or x.__cause__
        x = nxt
    return e


# ------------------------------------------------------------------- results
class Result:
    def __init__(self):
        self.violation = None      # (kind, detail)
        self.hash = None
        self.stats = Counter()
        self.sig = None
        self.nontrivial = False
        self.steps = 0
        self.syscalls = 0
        self.taken = None
        self.key = None

    def to_dict(self):
        return dict(violation=self.violation, hash=self.hash, stats=dict(self.stats),
                    sig=self.sig, nontrivial=self.nontrivial, steps=self.steps,
                    syscalls=self.syscalls, key=self.key)


def execute(check, scn):
    """Run one scenario. Violations are returned; anything else escaping is a
    harness error."""
    r = Result()
    if check.collect_first:
        gc.collect()
    ctx = Ctx(scn)
    try:
        with ctx as c:
            try:
                check.run(c, scn)
            except Violation as v:
                r.violation = (v.kind, v.detail)
            except sched.Stuck as s:
                r.violation = ('no-progress', str(s))
            except Exception as e:
                # escaped from the code under test outside a guarded operation
                tb = traceback.extract_tb(e.__traceback__)
                if not any(f.filename.startswith(ctx.boot_mod.PKG) for f in tb):
                    raise
                r.violation = ('unexpected-error', '%s: %s' % (type(e).__name__, e))
    finally:
        pass
    r.hash = ctx.hash()
    r.stats = Counter(ctx.sim.stats)
    for k, v in ctx.disk.counts.items():
        r.stats['sys:' + k] += v
    if getattr(check, 'state_sig', None):
        r.sig = check.state_sig(ctx, scn)
    elif ctx.sim.sig:
        r.sig = hashlib.sha256(repr(ctx.sim.sig).encode()).hexdigest()[:16]
    else:
        r.sig = hashlib.sha256(repr([(e[0],) + tuple(x for x in e[1:] if not isinstance(x, float))
                                     for e in ctx.sim.log]).encode()).hexdigest()[:16]
    r.nontrivial = check.nontrivial(ctx, scn)
    r.steps = ctx.sim.steps
    r.syscalls = ctx.disk.n
    r.taken = ctx.sim.taken
    return r


# --------------------------------------------------------------- search worker
def load_check(cid):
    mod = importlib.import_module('checks.' + cid.lower())
    return mod.CHECK


def seed_for(base, cid, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%s' % (base, cid, i)).encode()).digest()[:6], 'big')


def generate(check, seed, i, tier):
    rng = random.Random(seed)
    scn = check.gen(rng, i, tier)
    scn.setdefault('seed', seed)
    scn['check'] = check.id
    if check.probe:
        return check.place(scn, rng, run_limited)
    return scn, 0


def explicit(scn, res):
    """The scenario with the schedule that was actually taken written out."""
    if 'sched' in scn and 'preempts' not in scn:
        s = copy.deepcopy(scn)
        s['preempts'] = [list(x) for x in res.taken]
        return s
    return copy.deepcopy(scn)


def _alarm(sig, frm):
    raise _HarnessTimeout('run exceeded its wall-clock limit')


def run_limited(check, scn, seconds=None):
    if seconds is None:
        seconds = int(os.environ.get('KCSIM_RUN_LIMIT', '150'))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return execute(check, scn)
    finally:
        signal.alarm(0)


def worker(cid, base_seed, wid, nworkers, tier, deadline, max_runs, out_path):
    """Explore; write a JSON report."""
    rep = dict(runs=0, hashes={}, stats=Counter(), sigs=set(), nontrivial=set(), steps=0,
               syscalls=0, violation=None, samples=[], error=None, gen_runs=0, last=None)
    try:
        worker_init()
        check = load_check(cid)
        check.tier = tier
        i = wid
        t0 = time.time()
        stop = os.path.join(os.path.dirname(out_path), 'violated')
        while rep['runs'] < max_runs and time.time() < deadline and not os.path.exists(stop):
            seed = seed_for(base_seed, cid, i)
            rep['last'] = seed
            with open(out_path + '.last', 'w') as fp:
                fp.write('%d %d' % (seed, i))
            scn, extra = generate(check, seed, i, tier)
            rep['gen_runs'] += extra
            res = run_limited(check, scn)
            rep['runs'] += 1
            rep['stats'].update(res.stats)
            rep['steps'] += res.steps
            rep['syscalls'] += res.syscalls
            if res.nontrivial:
                rep['nontrivial'].add(res.sig)
            rep['sigs'].add(res.sig)
            if wid < 2 and len(rep['samples']) < 2 and res.nontrivial:
                rep['samples'].append(summary(scn, res))
            if rep['runs'] <= 40:
                rep['hashes'][str(i)] = res.hash
            if i % 97 == 5 or (rep['runs'] == 3):
                # the same seed twice: the event logs must be identical
                res2 = run_limited(check, scn)
                rep['stats']['selfcheck:repeated'] += 1
                if (res2.hash, res2.violation) != (res.hash, res.violation):
                    rep['stats']['selfcheck:diverged'] += 1
                    rep.setdefault('diverged', []).append(seed)
            if res.violation is not None:
                scn_x = explicit(scn, res)
                with open(stop, 'w'):
                    pass
                rep['violation'] = minimise(check, scn, scn_x, res, deadline)
                break
            i += nworkers
            if rep['runs'] % 8 == 0:
                gc.collect()
        rep['wall'] = time.time() - t0
    except _HarnessTimeout as e:
        rep['error'] = 'harness timeout: seed %r: %s\n%s' % (rep['last'], e, traceback.format_exc()[-2500:])
    except BaseException:
        rep['error'] = 'seed %r: %s' % (rep['last'], traceback.format_exc()[-4000:])
    finally:
        sched.SIM = None
        worker_exit()
    rep['stats'] = dict(rep['stats'])
    rep['sigs'] = sorted(x for x in rep['sigs'] if x)
    rep['nontrivial'] = sorted(x for x in rep['nontrivial'] if x)
    with open(out_path, 'w') as fp:
        json.dump(rep, fp, default=str)


def summary(scn, res):
    s = json.loads(json.dumps(scn, default=str))
    if len(json.dumps(s)) > 1500:
        s = {k: (v if len(json.dumps(v)) < 500 else '... %d items' % len(v) if hasattr(v, '__len__') else '...')
             for k, v in s.items()}
    return dict(scenario=s, steps=res.steps, syscalls=res.syscalls,
                faults={k: v for k, v in res.stats.items() if k.startswith('fault:')},
                preemptions=res.taken[:12], log_hash=res.hash)


# --------------------------------------------------------------- minimisation
def minimise(check, orig, scn, res0, deadline):
    kind = res0.violation[0]
    budget = time.time() + float(os.environ.get('KCSIM_MIN_BUDGET', '60'))
    tries = 0

    def attempt(s):
        nonlocal tries
        tries += 1
        try:
            r = run_limited(check, s, 100)
        except _HarnessTimeout:
            raise
        except Exception:
            return None
        if r.violation is not None and r.violation[0] == kind:
            return r
        return None

    best, bres = scn, attempt(scn)
    if bres is None:
        return dict(scenario=orig, violation=list(res0.violation), hash=res0.hash,
                    minimised=False, tries=tries)
    changed = True
    while changed and time.time() < budget:
        changed = False
        for key in ('preempts', 'faults', 'ops', 'hist'):
            seq = best.get(key)
            if not isinstance(seq, list) or not seq:
                continue
            n = len(seq)
            chunk = max(1, n // 2)
            while chunk >= 1 and time.time() < budget:
                pos = 0
                while pos < len(best[key]) and time.time() < budget:
                    s = copy.deepcopy(best)
                    del s[key][pos:pos + chunk]
                    if not check.valid(s):
                        pos += chunk
                        continue
                    r = attempt(s)
                    if r is not None:
                        best, bres = s, r
                        changed = True
                    else:
                        pos += chunk
                chunk //= 2
        for s in check.shrinks(copy.deepcopy(best)):
            if time.time() > budget:
                break
            if not check.valid(s):
                continue
            r = attempt(s)
            if r is not None:
                best, bres = s, r
                changed = True
                break
    return dict(scenario=best, violation=list(bres.violation), hash=bres.hash,
                minimised=True, tries=tries)


# --------------------------------------------------------------------- base
class Check:
    id = None
    title = ''
    level = 'exploration'
    probe = False
    collect_first = False
    quick_seconds = 60
    quick_runs = 100000
    thorough_seconds = 780
    rule = ''
    real = ('kcorrect (all modules)', 'numpy', 'scipy', 'astropy.io.fits', 'astropy.io.ascii',
            'CPython io.Buffered*/TextIOWrapper')
    stub = ('raw files and os path calls (pass-through shim with fault plan)',
            'thread scheduler (baton)', 'threading.Lock/RLock when created by kcorrect',
            'temporary file names')
    faults_declared = ()
    probes = ()
    assumptions = ()
    tier = 'quick'

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, c, scn):
        raise NotImplementedError

    def place(self, scn, rng, runner):
        return scn, 0

    def valid(self, scn):
        return True

    def shrinks(self, scn):
        return []

    def nontrivial(self, ctx, scn):
        return any(k.startswith('fault:') or k == 'preemptions' for k in ctx.sim.stats)
