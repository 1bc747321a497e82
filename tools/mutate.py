#!/opt/venv/bin/python
"""Mutation testing of the checks themselves (not a check, not registered).

  mutate.py list                      how many mutants there are per file
  mutate.py run OUT.jsonl N SEED J S  N random mutants, J processes, S seconds per check

Each mutant is a one-place change of a copy of /repo's sources.  Mutants that
the repository's own tests catch are set aside; for the others the checks are
run (one process, S seconds each, stop at the first violation).  What no check
notices is listed for inspection by hand.
"""
import ast, json, multiprocessing as mp, os, random, shutil, subprocess, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['fitter', 'kcorrect', 'response', 'template', 'utils']
PY = '/opt/venv/bin/python'
ORDER = {
    'fitter': 'C07 C06 C09 C10 C08 C01 C21 C14 C18 C16 C17 C05 C20 C03 C04 C11 C12 C13 C15 C19 C02',
    'kcorrect': 'C07 C01 C08 C09 C04 C03 C19 C14 C16 C17 C20 C13 C12 C18 C21 C10 C06 C05 C02 C11 C15',
    'response': 'C05 C02 C15 C04 C03 C19 C14 C17 C06 C16 C12 C13 C18 C20 C21 C01 C07 C11 C08 C09 C10',
    'template': 'C11 C02 C19 C03 C04 C06 C01 C14 C16 C17 C12 C13 C18 C20 C21 C05 C07 C08 C09 C10 C15',
    'utils': 'C07 C02 C05 C08 C18 C09 C14 C01 C04 C03 C06 C11 C12 C13 C15 C16 C17 C19 C20 C21 C10',
}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
       ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
SWAP = {'<': ['<=', '>'], '<=': ['<', '>'], '>': ['>=', '<'], '>=': ['>', '<'], '==': ['!='], '!=': ['=='],
        'is': ['is not'], 'is not': ['is'], 'in': ['not in'], 'not in': ['in']}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*')}


def mutants(name):
    path = os.path.join(REPO, 'src/kcorrect', name + '.py')
    src = open(path).read()
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    tree = ast.parse(src)
    out = []

    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((name, n.lineno, a, b, new, what))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])), docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            l, r = text(n.left), text(n.comparators[0])
            for o in SWAP[op]:
                add(n, '%s %s %s' % (l, o, r), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, '(%s) %s (%s)' % (text(n.left), BIN[type(n.op)][1], text(n.right)), 'bin')
            add(n, text(n.left) if len(text(n.left)) else '0', 'left')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, o.join('(%s)' % text(v) for v in n.values), 'bool')
        elif isinstance(n, ast.UnaryOp):
            add(n, text(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v > 0:
                    add(n, str(v - 1), 'const')
            elif isinstance(v, float):
                add(n, repr(v * 1.03 + (0.01 if v == 0 else 0)), 'const')
            elif isinstance(v, str) and 0 < len(v) < 40:
                add(n, repr(v + '_x'), 'str')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'astype', 'reshape', 'strip', 'flatten', 'tolist'):
                add(n, text(f.value), 'nocall')
            elif isinstance(f, ast.Name) and f.id in ('list', 'sorted', 'set', 'str', 'dict') and n.args:
                add(n, text(n.args[0]), 'nocall')
            elif isinstance(f, ast.Attribute) and n.args and f.attr in (
                    'array', 'asarray', 'float32', 'float64', 'copy', 'deepcopy', 'atleast_1d', 'ascontiguousarray'):
                add(n, text(n.args[0]), 'nocall')
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + ['%s=%s' % (j.arg, text(j.value)) if j.arg else '**' + text(j.value)
                                                        for j in n.keywords if j is not k]
                    add(n, '%s(%s)' % (text(f), ', '.join(rest)), 'nokw ' + k.arg)
            if len(n.args) >= 2:
                a = [text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                rest = a + ['%s=%s' % (j.arg, text(j.value)) if j.arg else '**' + text(j.value) for j in n.keywords]
                add(n, '%s(%s)' % (text(f), ', '.join(rest)), 'argswap')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, 'not (%s)' % text(n.test), 'neg')
            add(n.test, 'True', 'true')
            add(n.test, 'False', 'false')
        elif isinstance(n, ast.IfExp):
            add(n.test, 'not (%s)' % text(n.test), 'neg')
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue)) or \
                (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            add(n, 'pass', 'delete-assign')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return None', 'return None')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, text(n.lower) + ' + 1', 'slice')
            if n.upper is not None:
                add(n.upper, text(n.upper) + ' - 1', 'slice')
        elif isinstance(n, ast.With):
            add(n.items[0].context_expr, '__import__("contextlib").nullcontext(%s)' % text(n.items[0].context_expr), 'nowith')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, 'ZeroDivisionError', 'except')
            add(n.type, 'Exception', 'except')
        elif isinstance(n, ast.Try):
            for part, w in ((n.handlers, 'h'),):
                for h in part:
                    a = h.body
                    if not (len(a) == 1 and isinstance(a[0], ast.Pass)):
                        out.append((name, a[0].lineno, span(a[0])[0], span(a[-1])[1], 'pass', 'emptyhandler'))
            if n.finalbody:
                a = n.finalbody
                out.append((name, a[0].lineno, span(a[0])[0], span(a[-1])[1], 'pass', 'emptyfinally'))
    good = []
    seen = set()
    for m in out:
        new = raw[:m[2]] + m[4].encode() + raw[m[3]:]
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except SyntaxError:
            continue
        good.append(m + (raw[m[2]:m[3]].decode(),))
    return good


CHECKER = r'''
import os,sys,time,json
sys.path.insert(0, os.path.join(%r,'sim'))
import engine
engine.worker_init()
T=float(sys.argv[1])
for cid in sys.argv[2:]:
    ch=engine.load_check(cid); ch.tier='quick'
    t0=time.time(); i=0
    while time.time()-t0<T:
        seed=engine.seed_for('m',cid,i); i+=1
        scn,e=engine.generate(ch,seed,i,'quick')
        r=engine.run_limited(ch,scn)
        if i%%8==0:
            import gc; gc.collect()
        if r.violation:
            print('KILLED',cid,i,r.violation[0],flush=True)
            engine.worker_exit(); os._exit(0)
engine.worker_exit()
print('SURVIVED',flush=True)
os._exit(0)
''' % VERIF


def one(args):
    k, m, secs, base = args
    w = os.path.join(base, 'w%d' % (mp.current_process()._identity[0]))
    if not os.path.exists(w):
        shutil.copytree(REPO, w, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    name, line, a, b, new, what, old = m
    p = os.path.join(w, 'src/kcorrect', name + '.py')
    raw = open(os.path.join(REPO, 'src/kcorrect', name + '.py'), 'rb').read()
    open(p, 'wb').write(raw[:a] + new.encode() + raw[b:])
    env = dict(os.environ, PYTHONPATH=w + '/src', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    r = dict(file=name, line=line, what=what, old=old[:200], new=new[:200])
    t0 = time.time()
    try:
        o = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=100'], cwd=w, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200).returncode
    except subprocess.TimeoutExpired:
        o = 99
    r['t_tests'] = round(time.time() - t0, 1)
    if o != 0:
        r['by'] = 'tests'
    else:
        t0 = time.time()
        e2 = dict(env, VERIF_REPO=w)
        del e2['PYTHONPATH']
        e2['PYTHONPATH'] = w + '/src'
        sc = os.path.join(base, 'scratch')
        os.makedirs(sc, exist_ok=True)
        e2['KCSIM_SCRATCH'] = sc
        try:
            q = subprocess.run([PY, '-W', 'ignore', '-c', CHECKER, str(secs)] + ORDER[name].split(), env=e2, cwd=base,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60 + 21 * (secs + 30))
            out = q.stdout.decode(errors='replace')
            last = [x for x in out.splitlines() if x.startswith(('KILLED', 'SURVIVED'))]
            r['by'] = last[-1] if last else 'CRASH rc=%d %s' % (q.returncode, out[-200:])
        except subprocess.TimeoutExpired:
            r['by'] = 'TIMEOUT'
        r['t_checks'] = round(time.time() - t0, 1)
    open(p, 'wb').write(raw)
    return r


def main():
    if sys.argv[1] == 'list':
        for f in FILES:
            print(f, len(mutants(f)))
        return
    out, n, seed, j, secs = sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), float(sys.argv[6])
    allm = [m for f in FILES for m in mutants(f)]
    random.Random(seed).shuffle(allm)
    base = '/tmp/kcmut'
    os.makedirs(base, exist_ok=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['old'], d['new']))
    todo = [m for m in allm[:n] if (m[0], m[1], m[5], m[6][:200], m[4][:200]) not in done]
    with mp.Pool(j) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(one, [(k, m, secs, base) for k, m in enumerate(todo)]):
            f.write(json.dumps(r) + '\n')
            f.flush()
    shutil.rmtree(base)


if __name__ == '__main__':
    main()
