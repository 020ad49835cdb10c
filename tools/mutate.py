"""Mutation campaign: python tools/mutate.py OUT.jsonl [FILE...]
Small changes to /repo's sources are made one at a time in scratch copies; those under which the tests still pass are run
against the checks of the file they touch, and what no check reports is listed for inspection.  Resumes from OUT."""
import ast, concurrent.futures as cf, json, os, pathlib, random, shutil, subprocess, sys, tempfile
HERE = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
SCRATCH = '/tmp/w'
RELEVANT = {
    'peyl/braid.py': '02 03 31 04 05 01',
    'peyl/braidsearch.py': '31 23 24 25 22 17',
    'peyl/bucketing.py': '31 20 21 25 22',
    'peyl/jonesrep.py': '31 16 14 15 32 33',
    'peyl/show.py': '32',
    'peyl/lpoly.py': '31 11 32 33',
    'peyl/matrix.py': '13 31 32 33',
    'peyl/noncrossing.py': '07 31 32 33',
    'peyl/permutations.py': '06 31 32 33',
    'peyl/poly.py': '12 31 32 33',
    'peyl/polymat.py': '18 19 31',
    'peyl/tl.py': '08 09 10 31 32 33',
    'search.py': '26 27 28 29 31',
}
COMPARE = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '=='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '=='], ast.Eq: ['!=', '<='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BINARY = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+', '**'], ast.FloorDiv: ['/', '*'], ast.Mod: ['//'], ast.Pow: ['*'], ast.Div: ['//'], ast.BitXor: ['|'], ast.BitAnd: ['|'], ast.MatMult: ['*']}
NAMES = {'min': 'max', 'max': 'min', 'all': 'any', 'any': 'all', 'int64': 'int32', 'int32': 'int16', 'zeros': 'empty', 'argmin': 'argmax', 'sorted': 'list', 'randint': 'randrange', 'append': 'extend', 'reversed': 'list', 'left': 'right', 'right': 'left', 'top': 'bot', 'bot': 'top', 'nrows': 'ncols', 'ncols': 'nrows', 'abs': '', 'tuple': '', 'cumsum': 'cummax'}


def mutants(text):
    """(line, description, new text)"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()
    pos = lambda line, col: starts[line - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    src = lambda n: raw[slice(*span(n))].decode()
    out = []

    def put(node, a, b, new, what):
        out.append((node.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    def replace(node, new, what=None):
        a, b = span(node)
        put(node, a, b, new, what or f'{src(node)[:60]} -> {new[:60]}')

    def visit(node, parent=None):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.name in ('draw_svg', '_repr_svg_', '_repr_latex_'):
            return
        if isinstance(node, ast.Compare):
            parts = [node.left] + node.comparators
            for k, op in enumerate(node.ops):
                for new in COMPARE.get(type(op), ()):
                    replace(node, ' '.join(src(parts[0]) if j == 0 else '' for j in range(1)) + ''.join(f' {new if j == k else OPS[type(node.ops[j])]} {src(parts[j + 1])}' for j in range(len(node.ops))))
        if isinstance(node, ast.BinOp):
            for new in BINARY.get(type(node.op), ()):
                replace(node, f'({src(node.left)}) {new} ({src(node.right)})')
            if isinstance(node.op, (ast.Mult, ast.MatMult, ast.Sub)):
                replace(node, f'({src(node.right)}) {"*" if isinstance(node.op, ast.Mult) else "@" if isinstance(node.op, ast.MatMult) else "-"} ({src(node.left)})')
        if isinstance(node, ast.BoolOp):
            word = 'or' if isinstance(node.op, ast.And) else 'and'
            replace(node, f' {word} '.join(f'({src(v)})' for v in node.values))
            for k in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != k]
                replace(node, (' and ' if word == 'or' else ' or ').join(f'({src(v)})' for v in rest))
        if isinstance(node, ast.UnaryOp):
            replace(node, f'({src(node.operand)})')
        if isinstance(node, ast.Constant) and type(node.value) is int and not isinstance(parent, ast.UnaryOp):
            replace(node, str(node.value + 1))
            replace(node, str(node.value - 1) if node.value else '-1')
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            replace(node, str(not node.value))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            replace(node.test, f'(not ({src(node.test)}))')
            replace(node.test, 'False')
            if not isinstance(node, ast.While):
                replace(node.test, 'True')
        if isinstance(node, ast.comprehension):
            for t in node.ifs:
                replace(t, 'True')
        if isinstance(node, ast.Slice):
            for e in (node.lower, node.upper, node.step):
                if e is not None:
                    replace(e, '', f'slice {src(node)} without {src(e)}')
        if isinstance(node, ast.Call):
            args = [src(a) for a in node.args]
            if len(args) == 2 and not node.keywords:
                replace(node, f'{src(node.func)}({args[1]}, {args[0]})')
            for k in node.keywords:
                a, b = span(k)
                if raw[b:b + 1] in (b',', b')') and k.arg:
                    put(node, a, b, '', f'{src(node)[:60]} without {k.arg}')
        if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(getattr(node, 'ctx', None), ast.Load):
            name = node.id if isinstance(node, ast.Name) else node.attr
            if name in NAMES and not isinstance(parent, ast.keyword):
                a, b = span(node)
                put(node, b - len(name), b, NAMES[name] or '' if NAMES[name] or isinstance(node, ast.Name) else name, f'{src(node)[:50]}: {name} -> {NAMES[name] or "nothing"}')
        if isinstance(node, ast.stmt):
            if isinstance(node, (ast.Assert, ast.Raise, ast.Continue, ast.Break, ast.AugAssign)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                replace(node, 'pass', f'drop: {src(node)[:80]}')
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
                replace(node, 'pass', f'drop: {src(node)[:80]}')
            if isinstance(node, ast.Break):
                replace(node, 'continue')
            if isinstance(node, ast.Continue):
                replace(node, 'break')
            if isinstance(node, ast.Return) and node.value is not None and isinstance(parent, (ast.If, ast.For, ast.While)):
                replace(node, 'pass', f'drop: {src(node)[:80]}')
            if isinstance(node, ast.For):
                replace(node.iter, f'list({src(node.iter)})[1:]')
                replace(node.iter, f'list({src(node.iter)})[:-1]')
                replace(node.iter, f'list({src(node.iter)})[::-1]')
            if isinstance(node, ast.AugAssign):
                replace(node, f'{src(node.target)} = {src(node.value)}')
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.expr) and isinstance(node, (ast.arg, ast.AnnAssign)) and child is getattr(node, 'annotation', None):
                continue
            if isinstance(node, ast.FunctionDef) and child is node.returns or isinstance(node, ast.JoinedStr):
                continue
            if isinstance(node, ast.Raise) or isinstance(node, ast.Assert) and child is node.msg:
                continue
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and child in node.decorator_list:
                continue
            visit(child, node)

    OPS.update({ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'})
    visit(tree)
    good, seen = [], {text}
    for line, what, new in out:
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        good.append((line, what, new))
    return good


OPS = {}


def run(cmd, cwd, timeout, **env):
    import resource
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', **env), capture_output=True, text=True, timeout=timeout,
                              start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)) if 'pytest' in cmd else None)
    except subprocess.TimeoutExpired:
        return None


def job(args):
    f, line, what, new = args
    os.makedirs(SCRATCH, exist_ok=True)
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        r = d + '/repo'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '__pycache__', '.pytest_cache'))
        open(f'{r}/{f}', 'w').write(new)
        t = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], r, 90)
        if t is None or t.returncode != 0:
            return dict(file=f, line=line, what=what, result='tests')
        if os.environ.get('TESTS_ONLY'):
            return dict(file=f, line=line, what=what, result='passes')
        quiet = []
        for c in RELEVANT[f].split():
            k = run([PY, '-m', 'vf.run', 'C' + c], str(HERE), 1200, VERIF_REPO=r, VERIF_FAILFAST='1')
            if k is not None and k.returncode == 1:
                return dict(file=f, line=line, what=what, result='C' + c, quiet=quiet, says=k.stdout[-300:])
            quiet.append(f'C{c}:{k.returncode if k else "timeout"}')
        return dict(file=f, line=line, what=what, result='SURVIVED', quiet=quiet)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, files = sys.argv[1], sys.argv[2:] or list(RELEVANT)
    done = {(j['file'], j['line'], j['what']) for j in map(json.loads, open(out))} if os.path.exists(out) else set()
    jobs = []
    for f in files:
        for line, what, new in mutants(open('/repo/' + f).read()):
            if (f, line, what) not in done:
                jobs.append((f, line, what, new))
    random.Random(1).shuffle(jobs)
    if os.environ.get('AMONG'):
        # Only those which an earlier run with TESTS_ONLY let through.
        keep = {(j['file'], j['line'], j['what']) for j in map(json.loads, open(os.environ['AMONG'])) if j['result'] == 'passes'}
        jobs = [j for j in jobs if j[:3] in keep]
    print(len(jobs), 'mutants', flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', 4))) as pool, open(out, 'a') as o:
        for n, j in enumerate(cf.as_completed([pool.submit(job, a) for a in jobs])):
            o.write(json.dumps(j.result()) + '\n')
            o.flush()


if __name__ == '__main__':
    main()
