"""
tools/mutants.py - mutation test of the checks.

mutants.py gen OUT            write every mutant of typedload as OUT/<n>.json (file, replaced source, description)
mutants.py tests OUT [jobs]   keep those which pass the tests of the repository (OUT/survivors.txt)
mutants.py hunt OUT secs      run the bounded search of every property on the survivors (OUT/hunt.txt)
mutants.py prove OUT          run the verifier on those that were not found
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = ['dataloader', 'datadumper', 'typechecks', 'exceptions', 'helpers', '__init__']


def mutants(src):
    """(start, end, new text, description)"""
    tree = ast.parse(src)
    lines = src.encode().split(b'\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []

    def add(n, new, what):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, '%d: %s: %s -> %s' % (n.lineno, what, b[s:e].decode()[:80].replace('\n', ' '), new[:80].replace('\n', ' '))))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: '==', ast.IsNot: '!='}
    CMP2 = {ast.Eq: 'is', ast.Lt: '>', ast.Gt: '==', ast.GtE: '==', ast.Is: 'is not', ast.IsNot: 'is'}
    ann = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    ann.update(ast.walk(a.annotation))
            if isinstance(n, ast.FunctionDef) and n.returns:
                ann.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            ann.update(ast.walk(n.annotation))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in text(n.test):
            ann.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in docs or n in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for M in (CMP, CMP2):
                if type(n.ops[0]) in M:
                    add(n, '(%s %s %s)' % (text(n.left), M[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BoolOp):
            op, other = (' and ', ' or ') if isinstance(n.op, ast.And) else (' or ', ' and ')
            vs = ['(%s)' % text(v) for v in n.values]
            add(n, '(%s)' % other.join(vs), 'boolop')
            for i in range(len(vs)):
                add(n, '(%s)' % op.join(vs[:i] + vs[i + 1:]), 'drop operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % text(n.operand), 'not')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'const')
                if n.value:
                    add(n, str(n.value - 1), 'const')
            elif isinstance(n.value, str) and not text(n).startswith(('f', "'''", '"""')):
                add(n, repr(n.value + 'X'), 'const')
            elif n.value is None:
                add(n, '0', 'const')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return None', 'return')
        if isinstance(n, ast.For):
            add(n.iter, 'list(%s)[1:]' % text(n.iter), 'loop')
            add(n.iter, 'list(%s)[:-1]' % text(n.iter), 'loop')
            add(n.iter, 'list(%s)[::-1]' % text(n.iter), 'loop')
        if isinstance(n, ast.comprehension):
            add(n.iter, 'list(%s)[1:]' % text(n.iter), 'comp')
            add(n.iter, 'list(%s)[::-1]' % text(n.iter), 'comp')
            for i in n.ifs:
                add(i, 'True', 'comp if')
        if isinstance(n, ast.Call):
            args = [text(a) for a in n.args]
            kws = [text(k) for k in n.keywords]
            f = text(n.func)
            if len(args) >= 2:
                add(n, '%s(%s)' % (f, ', '.join([args[1], args[0]] + args[2:] + kws)), 'swap args')
            for i in range(len(kws)):
                add(n, '%s(%s)' % (f, ', '.join(args + kws[:i] + kws[i + 1:])), 'drop kw')
            if len(args) == 1 and not kws and f in ('set', 'list', 'tuple', 'dict', 'str', 'tname', 'iter', 'frozenset', 'reversed', 'sorted'):
                add(n, '(%s)' % args[0], 'drop call')
            if f == 'isinstance':
                add(n, '(type(%s) is %s)' % tuple(args), 'isinstance')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    q = [text(a) for a in n.type.elts]
                    add(n.type, '(%s,)' % ', '.join(q[:i] + q[i + 1:]), 'except')
            else:
                add(n.type, 'KeyError' if text(n.type) != 'KeyError' else 'ZeroDivisionError', 'except')
                add(n.type, 'Exception', 'except')
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and len(n.elts) >= 2:
            q = [text(a) for a in n.elts]
            o, c = {'Tuple': '()', 'List': '[]', 'Set': '{}'}[type(n).__name__]
            if len(q) <= 12:
                for i in range(len(q)):
                    add(n, '%s%s,%s' % (o, ', '.join(q[:i] + q[i + 1:]), c), 'drop element')
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Add):
                add(n, text(n.left), 'drop right')
                add(n, text(n.right), 'drop left')
            if isinstance(n.op, ast.Sub):
                add(n, '%s + %s' % (text(n.left), text(n.right)), 'arith')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, z in (('default', 'default_factory'), ('name', 'alias'), ('difference', 'intersection'), ('append', 'extend'), ('init', 'repr'), ('repr', 'init')):
                if n.attr == a:
                    add(n, '%s.%s' % (text(n.value), z), 'attr')
        if isinstance(n, (ast.FunctionDef,)) and n.decorator_list:
            pass
    return out


def gen(out):
    os.makedirs(out, exist_ok=True)
    k = 0
    seen = set()
    for f in FILES:
        p = '%s/typedload/%s.py' % (REPO, f)
        src = open(p).read()
        for s, e, new, d in mutants(src):
            m = (src.encode()[:s] + new.encode() + src.encode()[e:]).decode()
            if m in seen:
                continue
            seen.add(m)
            try:
                compile(m, f, 'exec')
            except SyntaxError:
                continue
            json.dump({'file': 'typedload/%s.py' % f, 'text': m, 'what': '%s:%s' % (f, d)}, open('%s/%d.json' % (out, k), 'w'))
            k += 1
    print(k, 'mutants')


def tree(out, i, j):
    """a copy of the repository with the mutant i"""
    d = '%s/w%s' % (out, j)
    if not os.path.exists(d):
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git'))
    for f in FILES:
        shutil.copy('%s/typedload/%s.py' % (REPO, f), '%s/typedload/%s.py' % (d, f))
    m = json.load(open('%s/%d.json' % (out, i)))
    open('%s/%s' % (d, m['file']), 'w').write(m['text'])
    return d, m


def tests(out, jobs):
    n = len([q for q in os.listdir(out) if q.endswith('.json')])
    import queue
    free = queue.Queue()
    for j in range(jobs):
        free.put(j)
    res = {}

    def one(i):
        j = free.get()
        try:
            d, m = tree(out, i, j)
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'tests'],
                                   cwd=d, env={**os.environ, 'PYTHONPATH': d, 'PYTHONHASHSEED': '0', 'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1'},
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                res[i] = p.returncode == 0
            except subprocess.TimeoutExpired:
                res[i] = False
            if res[i]:
                with open(out + '/survivors.txt', 'a') as f:
                    f.write('%d %s\n' % (i, m['what']))
        finally:
            free.put(j)
    open(out + '/survivors.txt', 'w').close()
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, range(n)))
    print(sum(res.values()), 'of', n, 'survive the tests')


def hunt(out, secs, only=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    done = set()
    if os.path.exists(out + '/hunt.txt'):
        done = {int(l.split()[0]) for l in open(out + '/hunt.txt') if l[0].isdigit()}
    for l in open(out + '/survivors.txt'):
        i = int(l.split()[0])
        if i in done or only and i not in only:
            continue
        d, m = tree(out, i, 'h')
        p = subprocess.run(['python3-vt', '-B', here + '/tools/mutants.py', 'one', str(secs)], env={**os.environ, 'VERIF_REPO': d, 'PYTHONHASHSEED': '0'}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = p.stdout.strip().split('\n')
        with open(out + '/hunt.txt', 'a') as f:
            f.write('%s   => %s\n' % (l.strip(), o[-1][:300]))


def one(secs):
    """search a failing input for every property, until one is found"""
    import multiprocessing
    import time
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    props = ['C%02d' % i for i in range(1, 21)]
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    end = time.time() + secs

    def work(k):
        from oracle import search
        sys.setrecursionlimit(3000)
        i = k
        while time.time() < end:
            for p in props[k:] + props[:k]:
                t = time.time() + .5
                while time.time() < min(t, end):
                    try:
                        s, nt, f = search.one(p, 77, i)
                    except Exception as e:
                        f = None
                    if f:
                        q.put('FOUND %s %s' % (p, ' '.join(f.split('\n')[1].split())[:200]))
                        return
                    i += 8
        q.put(None)
    ps = [ctx.Process(target=work, args=(k,), daemon=True) for k in range(8)]
    for p in ps:
        p.start()
    t0 = time.time()
    r = []
    while len(r) < 8 and time.time() < end + 20:
        try:
            x = q.get(timeout=1)
        except Exception:
            continue
        r.append(x)
        if x:
            print('%s (%.0fs)' % (x, time.time() - t0))
            break
    else:
        print('NOT FOUND')
    for p in ps:
        p.kill()


def prove(out):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    done = set()
    if os.path.exists(out + '/prove.txt'):
        done = {int(l.split()[0]) for l in open(out + '/prove.txt') if l[0].isdigit()}
    for l in open(out + '/hunt.txt'):
        if 'NOT FOUND' not in l:
            continue
        i = int(l.split()[0])
        if i in done:
            continue
        d, m = tree(out, i, 'p')
        p = subprocess.run(['python3-vt', '-B', here + '/tools/tagmap.py', '-n'], env={**os.environ, 'VERIF_REPO': d, 'PYTHONHASHSEED': '0'}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = [q for q in p.stdout.split('\n') if q.startswith('      ') or ('not discharged' in q and (' verified ' not in q))]
        with open(out + '/prove.txt', 'a') as f:
            f.write('%s\n%s\n' % (l.strip(), '\n'.join('    ' + q[:250] for q in bad[:12]) or '    PROVED'))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'gen':
        gen(a[2])
    elif a[1] == 'tests':
        tests(a[2], int(a[3]) if len(a) > 3 else 8)
    elif a[1] == 'hunt':
        hunt(a[2], float(a[3]), {int(q) for q in a[4:]})
    elif a[1] == 'one':
        one(float(a[2]))
    elif a[1] == 'prove':
        prove(a[2])
