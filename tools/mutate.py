"""mut.py FILE N SEED CHECKS...: samples N mutants of FILE, runs checks (stop at first catch), then tests for missed ones."""
import ast, sys, os, random, subprocess, json, time
f, N, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
R = '/tmp/mut/repo_' + os.environ.get('SLOT', '0')
V = '/tmp/mut/verif_' + os.environ.get('SLOT', '0')
src = open('/repo/' + f).read()
lines = src.split('\n')
starts = [0]
for l in lines: starts.append(starts[-1] + len(l.encode()) + 1)
b = src.encode()
off = lambda ln, c: starts[ln - 1] + c
span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
seg = lambda n: b[span(n)[0]:span(n)[1]].decode()
muts = []
def add(a, z, new, why, ln):
    muts.append((a, z, new, why, ln))
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: [], ast.IsNot: []}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
BIN = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['/']), ast.Div: ('/', ['*']), ast.FloorDiv: ('//', ['/']), ast.Pow: ('**', ['*'])}
SWAP = {'ceil': ['floor'], 'floor': ['ceil'], 'min': ['max'], 'max': ['min'], 'minimum': ['maximum'], 'maximum': ['minimum'], 'expm1': ['exp'], 'log1p': ['log'], 'amax': ['amin'], 'amin': ['amax'], 'any': ['all'], 'all': ['any'], 'logaddexp': ['maximum'], 'abs': ['float'], 'sf': ['cdf'], 'logsf': ['logcdf'], 'logcdf': ['logsf'], 'cdf': ['sf'],'cumsum':['array'],'copy':['view'],'argmin':['argmax'],'append':['remove']}
skip = set()
tree = ast.parse(src)
def walk(n, infn):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        for c in n.body: walk(c, infn or isinstance(n, ast.FunctionDef))
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]: walk(d, True)
        return
    if isinstance(n, ast.Raise): return
    if isinstance(n, ast.AnnAssign):
        if n.value is not None: walk(n.value, infn)
        return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
    if infn:
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SYM:
            a, z = span(n.left)[1], span(n.comparators[0])[0]
            s = b[a:z].decode(); o = SYM[type(n.ops[0])]
            for w in CMP[type(n.ops[0])]: add(a, z, s.replace(o, w, 1), 'cmp %s->%s' % (o, w), n.lineno)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, z = span(n.left)[1], span(n.right)[0]
            s = b[a:z].decode(); o, ws = BIN[type(n.op)]
            for w in ws: add(a, z, s.replace(o, w, 1), 'bin %s->%s' % (o, w), n.lineno)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(*span(n), '(' + seg(n.left) + ')', 'drop right of ' + o, n.lineno)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            if isinstance(v, int): add(*span(n), str(v + 1), 'const %s+1' % v, n.lineno)
            else: add(*span(n), repr(v * 10 if v else 0.1), 'const %s*10' % v, n.lineno)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool): add(*span(n), str(not n.value), 'flip bool', n.lineno)
        if isinstance(n, ast.BoolOp):
            a, z = span(n.values[0])[1], span(n.values[1])[0]
            s = b[a:z].decode()
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            add(a, z, s.replace(o, w, 1), '%s->%s' % (o, w), n.lineno)
            for v in n.values: 
                rest = [seg(q) for q in n.values if q is not v]
                add(*span(n), '(' + (' %s ' % o).join(rest) + ')', 'drop operand', n.lineno)
        if isinstance(n, ast.If) :
            add(*span(n.test), '(False)', 'if False: ' + seg(n.test)[:50], n.lineno)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(*span(n), '(' + seg(n.operand) + ')', 'drop unary', n.lineno)
        if isinstance(n, ast.IfExp):
            add(*span(n), '(' + seg(n.body) + ')', 'ifexp true', n.lineno); add(*span(n), '(' + seg(n.orelse) + ')', 'ifexp false', n.lineno)
        if isinstance(n, ast.Call):
            fn = n.func; name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
            if name in SWAP:
                a, z = span(fn); z0 = z - len(name)
                for w in SWAP[name]: add(z0, z, w, 'call %s->%s' % (name, w), n.lineno)
            for k in n.keywords:
                if k.arg and len(n.keywords) >= 1 and not (isinstance(k.value, ast.Name) and False):
                    pass
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            o, ws = BIN[type(n.op)]
            a, z = span(n.target)[1], span(n.value)[0]
            add(a, z, b[a:z].decode().replace(o + '=', '=', 1), 'aug %s= -> =' % o, n.lineno)
            add(a, z, b[a:z].decode().replace(o + '=', ws[0] + '=', 1), 'aug %s= -> %s=' % (o, ws[0]), n.lineno)
    for c in ast.iter_child_nodes(n): walk(c, infn)
walk(tree, False)
base = subprocess.check_output(['git', '-C', '/repo', 'show', '2ba78f4:' + f], text=True).split('\n')
muts = [m for m in muts if lines[m[4] - 1] in base and 'ValueError' not in lines[m[4] - 1]]
rng = random.Random(seed); rng.shuffle(muts)
if os.environ.get('LIST'): print(len(muts)); sys.exit()
if not os.path.exists(R): subprocess.check_call(['cp', '-a', '/repo', R])
subprocess.check_call(['git', '-C', R, 'fetch', '-q', 'origin']) if False else None
subprocess.call(['rm', '-rf', V]); subprocess.check_call(['git', 'clone', '-q', '/tmp/w/verif', V])
env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
out = open('/tmp/mut/results.jsonl', 'a')
for (a, z, new, why, ln) in muts[:N]:
    t = (b[:a] + new.encode() + b[z:]).decode()
    try: compile(t, f, 'exec')
    except SyntaxError: continue
    open(R + '/' + f, 'w').write(t)
    t0 = time.time(); res = 'MISSED'; info = []
    for c in checks:
        try:
            q = subprocess.run(['/opt/venv/bin/python', 'run.py', c, '--tier', 'quick', '--seed', '1'], cwd=V, env=dict(env, VERIF_FAILFAST='1', VERIF_REPO=R, VERIF_JOBS=os.environ.get('JOBS','8')), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            info.append((c, 'timeout')); continue
        v = [l for l in q.stdout.splitlines() if 'VIOLATION' in l]
        if q.returncode == 1 and v: res = 'CAUGHT ' + c; break
        if q.returncode != 0: info.append((c, q.returncode, q.stdout[-300:]))
    tests = None
    if res == 'MISSED':
        e = dict(env, HOME='/root', PYTHONPATH=R + '/python/dp_accounting:' + R + '/learning', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        d = 'learning' if f.startswith('learning') else 'python/dp_accounting'
        q = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-c', '/dev/null', '--rootdir=' + R, '-p', 'no:cacheprovider', '-o', 'python_files=*_test.py', '-n', os.environ.get('JOBS','8'), '--timeout=300', '--ignore=learning/clustering/clustering_algorithm_test.py', d], cwd=R, env=e, capture_output=True, text=True)
        last = q.stdout.strip().splitlines()[-1] if q.stdout.strip() else ''
        tests = 'FAIL' if 'failed' in last or 'error' in last else 'PASS'
    r = dict(file=f, line=ln, why=why, old=lines[ln - 1].strip(), res=res, tests=tests, info=info, dt=round(time.time() - t0))
    out.write(json.dumps(r) + '\n'); out.flush()
    print(r['res'], tests, os.path.basename(f), ln, why, '|', r['old'][:90], '|', info and str(info)[:100], r['dt'], flush=True)
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
