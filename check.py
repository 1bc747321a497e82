#!/opt/venv/bin/python
"""Entry point of every registered check.

  check.py C01 --tier quick         explore (exit 0 quiet / 1 VIOLATION / 2 error)
  check.py --replay FILE            re-run one recorded execution (exit 1 if it fails again)
  check.py --selftest C01 ...       determinism: same seeds, other hash seed / worker count
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg',
           PYTHONDONTWRITEBYTECODE='1')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def reexec():
    want = dict(ENV)
    want['PYTHONHASHSEED'] = os.environ.get('KCSIM_HASHSEED', '0')
    if os.environ.get('KCSIM_CHILD') == '1' and all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = dict(os.environ)
    env.update(want)
    env['KCSIM_CHILD'] = '1'
    os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    reexec()

sys.path.insert(0, os.path.join(HERE, 'sim'))

import argparse
import json
import shutil
import signal
import subprocess
import tempfile
import time
from collections import Counter


def scratch():
    d = tempfile.mkdtemp(prefix='kcsim-run-')
    os.environ['KCSIM_SCRATCH'] = d
    os.environ['MPLCONFIGDIR'] = os.path.join(d, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    return d


def known(cid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as fp:
            for ln in fp:
                ln = ln.strip()
                if ln.startswith('finding:') and 'property=%s ' % cid in ln:
                    out.append(ln)
    return out


DEADLY = (-signal.SIGBUS, -signal.SIGSEGV, -signal.SIGFPE, -signal.SIGABRT, -signal.SIGILL)


def run_workers(cid, seed, tier, nworkers, seconds, max_runs, sdir, hashseed=None):
    procs = []
    env = dict(os.environ)
    if hashseed is not None:
        env['KCSIM_HASHSEED'] = str(hashseed)
        env['PYTHONHASHSEED'] = str(hashseed)
    deadline = time.time() + seconds
    for w in range(nworkers):
        out = os.path.join(sdir, '%s-%s-w%d.json' % (cid, hashseed, w))
        cmd = [PY, '-W', 'ignore', os.path.abspath(__file__), '--worker', cid, str(seed), str(w), str(nworkers),
               tier, repr(deadline), str(max_runs), out]
        err = open(out + '.err', 'wb')
        procs.append((w, out, err, subprocess.Popen(cmd, env=env, stdout=err, stderr=err,
                                                    stdin=subprocess.DEVNULL)))
    reps = []
    for w, out, err, p in procs:
        limit = deadline + 420 - time.time()
        try:
            p.wait(timeout=max(5, limit))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.close()
        if os.path.exists(out):
            with open(out) as fp:
                reps.append(json.load(fp))
        else:
            with open(out + '.err', 'rb') as fp:
                tail = fp.read()[-3000:].decode('utf8', 'replace')
            died = None
            if p.returncode in DEADLY and os.path.exists(out + '.last'):
                with open(out + '.last') as fp:
                    sd, i = fp.read().split()
                died = dict(regen=dict(seed=int(sd), i=int(i), tier=tier), minimised=False, tries=0,
                            hash='died%s' % sd, scenario={},
                            violation=['process-died', 'the process was killed by %s'
                                       % signal.Signals(-p.returncode).name])
            reps.append(dict(runs=0, error='worker %d ended with %r: %s' % (w, p.returncode, tail),
                             stats={}, sigs=[], nontrivial=[], steps=0, syscalls=0,
                             violation=died, samples=[], hashes={}))
    return reps


def explore(cid, tier, seed, nworkers, seconds=None, runs=None):
    from engine import load_check
    t0 = time.time()
    sdir = scratch()
    try:
        check = load_check(cid)
        if seconds is None:
            seconds = check.quick_seconds if tier == 'quick' else check.thorough_seconds
        if runs is None:
            runs = check.quick_runs if tier == 'quick' else 10**9
        per = max(1, -(-runs // nworkers))
        reps = run_workers(cid, seed, tier, nworkers, seconds, per, sdir)
        stats = Counter()
        sigs, nontriv = set(), set()
        total = steps = syscalls = 0
        samples, errors, viol = [], [], []
        for r in reps:
            stats.update(r['stats'])
            sigs.update(r['sigs'])
            nontriv.update(r['nontrivial'])
            total += r['runs']
            steps += r['steps']
            syscalls += r['syscalls']
            samples += r['samples']
            if r.get('error'):
                errors.append(r['error'])
            if r['violation']:
                viol.append(r['violation'])
        wall = time.time() - t0
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
        probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')}
        for p in check.probes:
            probes.setdefault(p, 0)
        ev = dict(property=cid, tier=tier, seed=seed, level=check.level, wall_s=round(wall, 2),
                  violations=len(viol), assumptions=list(check.assumptions),
                  coverage=dict(
                      evaluations=total, distinct_nontrivial=len(nontriv), rule=check.rule,
                      samples=samples[:4],
                      runs_per_hour=int(total / max(wall, 1e-9) * 3600),
                      seeds_per_hour=int(total / max(wall, 1e-9) * 3600),
                      simulated_time='no clock in the code under test; progress is counted in scheduler steps and system calls',
                      scheduler_steps=steps, simulated_syscalls=syscalls,
                      preemptions=stats.get('preemptions', 0),
                      faults_fired=faults, probes=probes,
                      distinct_executions=len(sigs),
                      distinct_measure='hash of the sequence (task, source line, next task) of pre-emptions for scheduled runs, of the operation/system-call/fault event sequence otherwise',
                      syscalls_by_class={k[4:]: v for k, v in sorted(stats.items()) if k.startswith('sys:')},
                      determinism_selfchecks=stats.get('selfcheck:repeated', 0),
                      determinism_divergences=stats.get('selfcheck:diverged', 0),
                      workers=nworkers, real_components=list(check.real),
                      stub_components=list(check.stub)))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', cid + '.json')
        with open(path + '.tmp', 'w') as fp:
            json.dump(ev, fp, indent=1, default=str)
        os.replace(path + '.tmp', path)
        for k in known(cid):
            print('KNOWN-FINDING: property=%s %s' % (cid, k.split('|', 1)[-1].strip()))
        print('%s %s seed=%d: %d runs, %d distinct non-trivial, %d steps, %d syscalls, faults %s, probes %s, %.1fs'
              % (cid, tier, seed, total, len(nontriv), steps, syscalls, faults, probes, wall))
        if viol:
            viol.sort(key=lambda v: (len(json.dumps(v['scenario'])), v['hash']))
            v = viol[0]
            rdir = os.path.join(HERE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s-%s.json' % (cid, v['hash']))
            with open(rp, 'w') as fp:
                json.dump(dict(check=cid, verif_seed=seed, violation=v['violation'], hash=v['hash'],
                               minimised=v['minimised'], minimisation_runs=v['tries'],
                               scenario=v['scenario'], **({'regen': v['regen']} if 'regen' in v else {})),
                          fp, indent=1)
            print('violated: %s: %s' % tuple(v['violation']))
            rc = subprocess.run([PY, os.path.abspath(__file__), '--replay', rp],
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                env=dict(os.environ, KCSIM_QUIET='1')).returncode
            print('replay in a fresh process: %s' % ('reproduced' if rc == 1 else 'NOT reproduced (rc %d)' % rc))
            print('VIOLATION property=%s replay=%s' % (cid, rp))
            return 1
        if errors:
            print('ERROR: ' + '\n---\n'.join(errors[:3]), file=sys.stderr)
            return 2
        if stats.get('selfcheck:diverged'):
            print('ERROR: %d runs did not repeat exactly' % stats['selfcheck:diverged'], file=sys.stderr)
            return 2
        if total == 0 or not nontriv:
            print('ERROR: nothing was explored', file=sys.stderr)
            return 2
        return 0
    finally:
        shutil.rmtree(sdir, ignore_errors=True)


def replay(path):
    from engine import load_check, worker_init, worker_exit, run_limited, generate
    with open(path) as fp:
        rec = json.load(fp)
    if 'regen' in rec and not os.environ.get('KCSIM_REGEN'):
        # an execution that killed its process
        p = subprocess.run([PY, '-W', 'ignore', os.path.abspath(__file__), '--replay', path],
                           env=dict(os.environ, KCSIM_REGEN='1'))
        if p.returncode in DEADLY:
            print('reproduced: process killed by %s' % signal.Signals(-p.returncode).name)
            print('VIOLATION property=%s replay=%s' % (rec['check'], path))
            return 1
        return p.returncode
    sdir = scratch()
    try:
        worker_init()
        check = load_check(rec['check'])
        if 'regen' in rec:
            g = rec['regen']
            check.tier = g['tier']
            rec['scenario'] = generate(check, g['seed'], g['i'], g['tier'])[0]
        res = run_limited(check, rec['scenario'])
        if res.violation is None:
            print('no violation in replay of %s' % path)
            return 0
        same = 'identical event log' if res.hash == rec['hash'] else 'different event log'
        print('reproduced (%s): %s: %s' % ((same,) + tuple(res.violation)))
        print('VIOLATION property=%s replay=%s' % (rec['check'], path))
        return 1
    finally:
        worker_exit()
        shutil.rmtree(sdir, ignore_errors=True)


def selftest(cids, seeds, runs):
    """Same seeds in fresh processes, at two worker counts and two hash seeds."""
    bad = 0
    for cid in cids:
        for seed in seeds:
            sdir = scratch()
            try:
                tabs = []
                for nw, hs in ((8, 0), (3, 0), (5, 4242), (8, 77)):
                    reps = run_workers(cid, seed, 'quick', nw, 600, max(2, min(40, runs // nw)), sdir, hs)
                    t = {}
                    for r in reps:
                        if r.get('error'):
                            print(cid, 'ERROR', r['error'])
                            bad += 1
                        t.update(r['hashes'])
                    tabs.append(t)
                common = set(tabs[0])
                for t in tabs[1:]:
                    common &= set(t)
                diff = [k for k in common if len({t[k] for t in tabs}) > 1]
                print('%s seed %d: %d seeds compared 4 ways, %d differ%s' % (cid, seed, len(common), len(diff),
                                                                                      ': run %s' % diff[:4] if diff else ''))
                bad += len(diff)
            finally:
                shutil.rmtree(sdir, ignore_errors=True)
    return 1 if bad else 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--worker':
        from engine import worker
        cid, seed, w, nw, tier, deadline, runs, out = sys.argv[2:]
        worker(cid, int(seed), int(w), int(nw), tier, float(deadline), int(runs), out)
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('cid', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        return selftest(a.cid, [a.seed, a.seed + 1], a.runs or 80)
    return explore(a.cid[0], a.tier, a.seed, a.workers, a.seconds, a.runs)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
