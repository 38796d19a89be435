#!/usr/bin/env python3
"""development helper: systematic small edits of every function, to see which ones no check notices.
usage: automut.py [--jobs N] [--out FILE] [--list] [FILE-substring[:qualname-substring]]...
Each edit is applied in a scratch copy of the package under /tmp/mut; the existing tests are not run here
(survivors are judged by hand)."""
import ast, copy, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ('stru/scaffold.py', 'SitesGrid', 'C13 C14 C21'), ('stru/scaffold.py', 'CStru', 'C21 C14 C13 C12'),
    ('stru/scaffold.py', 'ModifiedCell', 'C10 C09 C08 C11 C20'),
    ('stru/scaffold.py', 'GeneralCell', 'C27 C23 C04 C03 C01 C05 C22 C07 C11 C12 C02 C24 C25'),
    ('stru/scaffold.py', '', 'C03 C04 C21 C20'),
    ('stru/scaffold2d.py', '', 'C13 C14'),
    ('stru/sogen.py', 'OccupyGenerator', 'C01 C02 C24 C25'), ('stru/sogen.py', '', 'C21 C02 C01 C24 C25 C13 C18'),
    ('stru/grid.py', '', 'C05 C06'), ('stru/restriction.py', '', 'C07 C22'), ('stru/clarifier.py', '', 'C08'),
    ('stru/site.py', '', 'C09 C14'), ('stru/element.py', '', 'C19 C09 C11 C12'), ('stru/buckyball.py', '', 'C18'),
    ('stru/io.py', '', 'C12 C11'), ('io/', '', 'C11 C12'),
    ('mlearn/arrange', '', 'C15'), ('mlearn/dsutils', '', 'C16 C15'), ('mlearn/mcts', '', 'C17'), ('cmdline/', '', 'C20')]
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
ARI = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div],
       ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def variants(n):
    """replacement nodes for n (expression), as (label, new node)"""
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for t in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n); m.ops = [t()]
            yield 'cmp->' + t.__name__, m
    if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
        for t in ARI.get(type(n.op), []):
            m = copy.deepcopy(n); m.op = t()
            yield 'op->' + t.__name__, m
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield 'bool', m
        for i in range(len(n.values)):
            m = copy.deepcopy(n); del m.values[i]
            yield 'drop-clause%d' % i, m if len(m.values) > 1 else m.values[0]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        yield 'unary', n.operand
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        yield 'const+1', ast.Constant(n.value + 1)
        yield 'const-1', ast.Constant(n.value - 1)
        if type(n.value) is float and n.value:
            yield 'const*10', ast.Constant(n.value * 10)
            yield 'const/10', ast.Constant(n.value / 10)
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        yield 'notconst', ast.Constant(not n.value)
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
        for i in range(len(n.args) - 1):
            m = copy.deepcopy(n); m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
            yield 'swapargs%d' % i, m
    if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
        yield 'dropcall', n.args[0]
    if isinstance(n, ast.Call):
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n); del m.keywords[i]
            yield 'dropkw%d' % i, m
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            yield 'dropmeth', n.func.value
    if isinstance(n, ast.IfExp):
        yield 'ifexp-body', n.body
        yield 'ifexp-else', n.orelse
    if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
        m = copy.deepcopy(n); m.elts[0], m.elts[-1] = m.elts[-1], m.elts[0]
        yield 'swapelts', m
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        if n.generators[0].ifs:
            m = copy.deepcopy(n); m.generators[0].ifs = []
            yield 'comp-noif', m
    if isinstance(n, ast.Slice):
        for a in ('lower', 'upper', 'step'):
            if getattr(n, a) is not None:
                m = copy.deepcopy(n); setattr(m, a, None)
                yield 'slice-no' + a, m
    if isinstance(n, ast.Attribute) and n.attr in ('shape', 'T') and isinstance(n.ctx, ast.Load) and n.attr == 'T':
        yield 'noT', n.value


def mutants(src):
    tree = ast.parse(src)
    sites = []

    def visit(node, qual, infn):
        for f, old in ast.iter_fields(node):
            seq = old if isinstance(old, list) else [old]
            for i, c in enumerate(seq):
                if not isinstance(c, ast.AST):
                    continue
                q, fn = qual, infn
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    q = (qual + '.' if qual else '') + c.name
                    fn = infn or isinstance(c, ast.FunctionDef)
                setter = (node, f, i if isinstance(old, list) else None)
                if isinstance(c, ast.stmt) and not isinstance(c, (ast.FunctionDef, ast.ClassDef)) and (infn or isinstance(c, ast.Assign)):
                    isdoc = isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)
                    if not isdoc and not isinstance(c, (ast.Import, ast.ImportFrom, ast.Pass)):
                        if infn and not (isinstance(c, ast.Return) and False):
                            sites.append((q, c.lineno, 'del-stmt', setter, ast.Pass()))
                        if isinstance(c, ast.If):
                            for v in (True, False):
                                m = copy.copy(c); m.test = ast.Constant(v)
                                sites.append((q, c.lineno, 'if-%s' % v, setter, m))
                        if isinstance(c, ast.AugAssign):
                            for t in ARI.get(type(c.op), []):
                                m = copy.copy(c); m.op = t()
                                sites.append((q, c.lineno, 'aug->' + t.__name__, setter, m))
                        if isinstance(c, ast.For):
                            m = copy.copy(c); m.body = list(c.body) + [ast.Break()]
                            sites.append((q, c.lineno, 'loop-once', setter, m))
                        if isinstance(c, ast.Break):
                            sites.append((q, c.lineno, 'break->continue', setter, ast.Continue()))
                        if isinstance(c, ast.Continue):
                            sites.append((q, c.lineno, 'continue->break', setter, ast.Break()))
                if isinstance(c, (ast.expr, ast.Slice)) and infn:
                    for lab, m in variants(c):
                        sites.append((q, getattr(c, 'lineno', 0), lab, setter, m))
                visit(c, q, fn)
    visit(tree, '', False)
    base = ast.unparse(tree)
    for q, ln, lab, (node, f, i), new in sites:
        if i is None:
            old = getattr(node, f)
            setattr(node, f, new)
        else:
            lst = getattr(node, f)
            old = lst[i]
            lst[i] = new
        try:
            ast.fix_missing_locations(tree)
            s = ast.unparse(tree)
        except Exception:
            s = base
        finally:
            if i is None:
                setattr(node, f, old)
            else:
                lst[i] = old
        if s != base:
            yield q, ln, lab, s


def diff(a, b):
    import difflib
    d = [l for l in difflib.unified_diff(a.split('\n'), b.split('\n'), n=0, lineterm='')][2:]
    return ' / '.join(l for l in d if not l.startswith('@@'))


def main():
    args = sys.argv[1:]
    jobs, out = 2, '/tmp/mut/auto.jsonl'
    if '--jobs' in args:
        k = args.index('--jobs'); jobs = int(args[k + 1]); del args[k:k + 2]
    if '--out' in args:
        k = args.index('--out'); out = args[k + 1]; del args[k:k + 2]
    lst = '--list' in args
    args = [a for a in args if a != '--list']
    os.makedirs('/tmp/mut/evid', exist_ok=True)
    todo = []
    done = set()
    if os.path.exists(out):
        for l in open(out):
            done.add(json.loads(l)['key'])
    for dp, _, fs in sorted(os.walk('/repo/ababe')):
        for fn in sorted(fs):
            p = os.path.join(dp, fn)
            rel = os.path.relpath(p, '/repo')
            if not fn.endswith('.py') or 'test' in rel or fn == '__init__.py':
                continue
            src = open(p).read()
            base = ast.unparse(ast.parse(src))
            for q, ln, lab, s in mutants(src):
                if args and not any(a.split(':')[0] in rel and (':' not in a or a.split(':')[1] in q) for a in args):
                    continue
                props = next((m[2].split() for m in MAP if m[0] in rel and q.startswith(m[1])), None)
                key = '%s:%s:%d:%s:%s' % (rel, q, ln, lab, hex(hash_(s)))
                if props is None or key in done:
                    continue
                todo.append((key, rel, q, ln, lab, s, diff(base, s), props))
    seen, t2 = set(), []
    for t in todo:
        if (t[1], t[5]) not in seen:
            seen.add((t[1], t[5]))
            t2.append(t)
    print(len(t2), 'edits', flush=True)
    if lst:
        for t in t2:
            print(t[1], t[2], t[3], t[4], '|', t[6][:150])
        return
    f = open(out, 'a')

    def one(t):
        key, rel, q, ln, lab, s, d, props = t
        r = '/tmp/mut/a%s' % hex(hash_(key))[2:]
        shutil.rmtree(r, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', r])
        open(os.path.join(r, rel), 'w').write(s)
        res = {}
        for p in props:
            try:
                x = subprocess.run(['python3-vt', '-m', 'engine.run', p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700,
                                   env=dict(os.environ, PYTHONHASHSEED='0', VERIF_REPO=r, VERIF_EVID='/tmp/mut/evid', VERIF_STOP='1'))
                res[p] = x.returncode
            except subprocess.TimeoutExpired:
                res[p] = 124
            if res[p] == 1:
                break
        shutil.rmtree(r, ignore_errors=True)
        f.write(json.dumps({'key': key, 'lab': lab, 'diff': d, 'res': res, 'caught': 1 in res.values()}) + '\n')
        f.flush()
        if 1 not in res.values():
            print('SURVIVED %s:%d %s %s %s' % (rel, ln, q, lab, d[:160]), res, flush=True)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, t2))
    print('done')


def hash_(s):
    import hashlib
    return int(hashlib.md5(s.encode()).hexdigest()[:12], 16)


main()
