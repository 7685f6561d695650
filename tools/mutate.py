"""Development tool: mutants of ezodf that pass the existing tests, run against the checks.

mutate.py list            -> number of mutants per file
mutate.py run OUT.jsonl [--files a.py,b.py] [--jobs 8] [--divide N] [--top]
Works on scratch copies under /tmp/mw; needs nothing of this in the checks."""
import argparse, ast, json, os, re, shutil, subprocess, sys
from multiprocessing import Pool
REPO, SCRATCH = '/repo', '/tmp/mw'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
 'base.py': 'C11 C10 C27 C13', 'body.py': 'C13 C20 C14', 'bytestreammanager.py': 'C06 C29 C05 C01 C02', 'cells.py': 'C15 C19 C18 C27 C17',
 'cellspancontroller.py': 'C19 C27', 'compatibility.py': 'C06 C22 C15', 'conf.py': 'C18 C28', 'const.py': 'C06 C02 C07 C13 C08',
 'content.py': 'C29 C03 C01 C26 C13', 'document.py': 'C06 C07 C29 C05 C26 C03 C02', 'drawingpage.py': 'C20', 'filemanager.py': 'C01 C29 C02 C04 C05 C06',
 'manifest.py': 'C02 C01 C29 C05', 'meta.py': 'C08 C27', 'nodeorganizer.py': 'C25 C13 C20', 'nodestructurechecker.py': 'C25',
 'nodestructuretags.py': 'C13 C25 C16 C18', 'observer.py': 'C23', 'pagecontainer.py': 'C20 C27', 'pages.py': 'C20', 'presentationpage.py': 'C20',
 'propertymixins.py': 'C12 C15 C16', 'protection.py': 'C12 C16', 'sheets.py': 'C20 C21', 'styles.py': 'C26 C01', 'table.py': 'C16 C17 C21 C18 C19 C27',
 'tablecolumncontroller.py': 'C16 C18 C17 C27', 'tablenormalizer.py': 'C18 C16 C10', 'tablerowcontroller.py': 'C16 C17 C27 C18',
 'tableutils.py': 'C17 C16 C18 C19', 'text.py': 'C12 C10 C09', 'timeparser.py': 'C22', 'variables.py': 'C14 C27', 'whitespaces.py': 'C09 C10',
 'wrapcache.py': 'C16 C20 C28 C11', 'xmlns.py': 'C24 C11 C23',
}
ALL = ['C%02d' % i for i in range(1, 30)]
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Mod: '*', ast.FloorDiv: '*', ast.Div: '*'}
NAMES = {'addnext': 'addprevious', 'addprevious': 'addnext', 'strip': 'lstrip', 'lstrip': 'strip', 'rstrip': 'strip', 'min': 'max', 'max': 'min',
         'deepcopy': 'copy', 'upper': 'lower', 'lower': 'upper', 'reversed': 'list', 'find': 'findall', 'iter': 'iterchildren',
         'iterancestors': 'itersiblings', 'sorted': 'list', 'int': 'float', 'nrows': 'ncols', 'ncols': 'nrows', 'insert_before': 'append',
         'startswith': 'endswith', 'endswith': 'startswith', 'rows': 'cols', 'cols': 'rows', 'get_child': 'index'}


def mutants(src):
    """-> [(start, end, new text, description)]"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    def off(line, col):
        return starts[line - 1] + col
    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            for k in ast.walk(n):
                if k is not n:
                    skip.add(k)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == '__author__':
            skip.update(ast.walk(n))
    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, what))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            for i, op in enumerate(n.ops):
                left = n.left if i == 0 else n.comparators[i - 1]
                a, b = span(left)[1], span(n.comparators[i])[0]
                for new in CMP.get(type(op), []):
                    out.append((a, b, ' %s ' % new, 'compare'))
        elif isinstance(n, ast.BoolOp):
            new = ' or ' if isinstance(n.op, ast.And) else ' and '
            for x, y in zip(n.values, n.values[1:]):
                out.append((span(x)[1], span(y)[0], new, 'boolop'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(' + text(n.operand) + ')', 'not')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((span(n.left)[1], span(n.right)[0], ' %s ' % BIN[type(n.op)], 'binop'))
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'int+1')
                if n.value > 0:
                    add(n, str(n.value - 1), 'int-1')
            elif isinstance(n.value, str):
                add(n, repr(n.value + 'X'), 'str')
                if n.value:
                    add(n, "''", 'str empty')
            elif n.value is None:
                pass
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, 'True' if not isinstance(n, ast.While) else 'False', 'cond')
            if not isinstance(n, ast.While):
                add(n.test, 'False', 'cond')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, 'True', 'filter')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n.value, 'None', 'return')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Return, ast.Continue, ast.Break)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'delete ' + type(n).__name__)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None:
                    add(h.type, 'ZeroDivisionError', 'handler')
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in NAMES:
                a, b = span(f)
                out.append((b - len(f.attr), b, NAMES[f.attr], 'name'))
            elif isinstance(f, ast.Name) and f.id in NAMES:
                add(f, NAMES[f.id], 'name')
            if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = span(n.args[0])[0], span(n.args[1])[1]
                out.append((a, b, '%s, %s' % (text(n.args[1]), text(n.args[0])), 'swap args'))
            if len(n.args) >= 2 or (n.args and n.keywords):
                x = n.args[-1]
                if len(n.args) >= 2 and not n.keywords:
                    out.append((span(n.args[-2])[1], span(x)[1], '', 'drop arg'))
            for k in n.keywords:
                if k.arg:
                    s = raw[:off(k.lineno, k.col_offset)].rstrip()
                    if s.endswith(b','):
                        out.append((len(s) - 1, span(k)[1], '', 'drop keyword'))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper, n.slice.step):
                if part is not None:
                    add(part, '', 'slice')
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                pass
    seen, res = set(), []
    for a, b, new, what in out:
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m.decode(), 'm', 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append((a, b, new, what, src.encode()[:a].count(b'\n') + 1))
    return res


def describe(src, m):
    raw = src.encode()
    a, b, new, what, line = m
    ls = raw.rfind(b'\n', 0, a) + 1
    le = raw.find(b'\n', b)
    return '%s | %s  -->  %s' % (what, raw[ls:le].decode().strip(), (raw[ls:a] + new.encode() + raw[b:le]).decode().strip())


def worker_dir():
    d = os.path.join(SCRATCH, str(os.getpid()))
    if not os.path.exists(d):
        os.makedirs(SCRATCH, exist_ok=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    return d


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_tests(d):
    env = {'PATH': os.environ['PATH'], 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1'}
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env, timeout=40,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0 and '733 passed' in p.stdout


def run_check(d, c, examples):
    env = dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    cmd = ['/opt/venv/bin/python', '-B', '-W', 'ignore', os.path.join(HERE, 'pbt/run.py'), c, '--shards', '1']
    if examples:
        quick = re.search(r"'quick': (\d+)", open(os.path.join(HERE, 'pbt/props', c.lower() + '.py')).read())
        cmd += ['--examples', str(max(20, int(quick.group(1)) // examples))]
    try:
        p = subprocess.run(cmd, env=env, timeout=600, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stdout[-300:]


def one(job):
    name, k, examples, checks = job
    d = worker_dir()
    path = os.path.join(d, 'ezodf', name)
    src = open(os.path.join(REPO, 'ezodf', name)).read()
    m = mutants(src)[k]
    raw = src.encode()
    res = {'file': name, 'k': k, 'line': m[4], 'what': describe(src, m)}
    try:
        with open(path, 'wb') as f:
            f.write(raw[:m[0]] + m[2].encode() + raw[m[1]:])
        if not run_tests(d):
            res['result'] = 'tests'
            return res
        first = ORDER.get(name, '').split()
        order = first if checks == ['top'] else [] if checks == ['-'] else checks or (first + [c for c in ALL if c not in first])
        res['result'] = 'survived'
        for c in order:
            rc, out = run_check(d, c, examples)
            if rc == 1 and 'VIOLATION property=%s' % c in out:
                res['result'] = 'caught ' + c
                break
            if rc != 0:
                res.setdefault('odd', []).append([c, rc, out[-200:]])
        return res
    finally:
        with open(path, 'wb') as f:
            f.write(raw)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('out', nargs='?')
    ap.add_argument('--files')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--divide', type=int, default=0, help='divide the quick budget')
    ap.add_argument('--checks', default='')
    ap.add_argument('--only', help='results file: repeat its survivors')
    a = ap.parse_args()
    files = a.files.split(',') if a.files else sorted(f for f in os.listdir(REPO + '/ezodf') if f.endswith('.py') and f != '__init__.py')
    jobs = []
    for f in files:
        n = len(mutants(open(os.path.join(REPO, 'ezodf', f)).read()))
        print(f, n)
        jobs += [(f, k, a.divide, a.checks.split()) for k in range(n)]
    if a.only:
        keep = set((r['file'], r['k']) for r in map(json.loads, open(a.only)) if r['result'] == 'survived')
        jobs = [j for j in jobs if (j[0], j[1]) in keep]
    print(len(jobs))
    if a.mode == 'run':
        done = set()
        if os.path.exists(a.out):
            done = set((r['file'], r['k']) for r in map(json.loads, open(a.out)))
        jobs = [j for j in jobs if (j[0], j[1]) not in done]
        with Pool(a.jobs) as p, open(a.out, 'a') as f:
            for r in p.imap_unordered(one, jobs, chunksize=1):
                f.write(json.dumps(r) + '\n')
                f.flush()
