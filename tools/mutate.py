#!/opt/venv/bin/python
"""
mutate.py N SEED OUT.jsonl FILE[:PROP,PROP...] ...: plants N random small changes in the given files of scratch copies of /repo, one
at a time (STRUCTURAL=1: of other kinds), and runs the checks of the properties anchored there until one of them fails. A development tool: what survives has to
be judged by hand (equivalent, irrelevant to every property, or missed).
"""
import ast
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '+', ast.BitAnd: '|', ast.BitOr: '&'}


SWAP = {a: b for x, y in (('all', 'any'), ('min', 'max'), ('argmin', 'argmax'), ('unlabeled', 'unknown'), ('training_set', 'last_training_set'), ('inferred', 'unknown'),
                          ('labels', 'partial'), ('minimum', 'maximum'), ('append', 'extend'), ('union', 'intersection')) for a, b in ((x, y), (y, x))}
MEMO = ("@(lambda f: lambda *a, **k: (lambda d, key: d[key] if key in d else d.setdefault(key, f(*a, **k)))(f.__dict__, ({}) + tuple(getattr(x, 'shape', repr(x)[:50]) for x in a[1:])))\n")
SIMPLE = (ast.Assign, ast.AugAssign, ast.Expr)


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.starts = [0]
        for line in src.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        if self.text(n) != new:
            self.out.append((a, b, new, what, n.lineno))

    def visit(self, n):
        for block in (getattr(n, 'body', None), getattr(n, 'orelse', None)):
            if STRUCTURAL and isinstance(block, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for s, t in zip(block, block[1:]):
                    if isinstance(s, SIMPLE) and isinstance(t, SIMPLE) and not isinstance(getattr(s, 'value', None), ast.Constant):
                        a, b = self.span(s)[0], self.span(t)[1]
                        gap = self.src.encode()[self.span(s)[1]:self.span(t)[0]].decode()
                        self.out.append((a, b, self.text(t) + gap + self.text(s), 'swap', s.lineno))
        super().visit(n)

    def visit_For(self, n):
        if STRUCTURAL:
            self.add(n.iter, 'list({})[:1]'.format(self.text(n.iter)), 'only-first')
            self.add(n.iter, '(lambda _l: _l[:-1] or _l)(list({}))'.format(self.text(n.iter)), 'not-last')
            self.add(n.iter, 'list({})[::-1]'.format(self.text(n.iter)), 'reverse')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if STRUCTURAL and n.attr in SWAP:
            self.add(n, self.text(n.value) + '.' + SWAP[n.attr], 'other-attribute')
        self.generic_visit(n)

    def visit_Name(self, n):
        if STRUCTURAL and n.id in SWAP:
            self.add(n, SWAP[n.id], 'other-name')

    def visit_FunctionDef(self, n):
        if STRUCTURAL and n.name != '__init__' and any(isinstance(s, ast.Return) and s.value is not None for s in ast.walk(n)):
            a = self.starts[n.lineno - 1] + n.col_offset
            for key, what in (('id(a[0]) if a else 0,', 'memo'), ('', 'memo-shared')):
                self.out.append((a, a, MEMO.format(key) + ' ' * n.col_offset, what, n.lineno))
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for k, s in enumerate(n.body):
            if not (k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)

    def visit_Raise(self, n):
        pass

    def visit_Assert(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or self.text(n).startswith(('assert_', 'warnings.')):
            return
        self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if any(not isinstance(t, ast.Name) for t in n.targets):
            self.add(n, 'pass', 'delete')
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'delete')
        self.visit(n.value)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_If(self, n):
        t = self.text(n.test)
        self.add(n.test, 'not ({})'.format(t), 'negate')
        self.add(n.test, 'False', 'never')
        if n.orelse:
            self.add(n.test, 'True', 'always')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                self.add(n, '{} {} {}'.format(self.text(n.left), op, self.text(n.comparators[0])), 'compare')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, op.join('({})'.format(self.text(v)) for v in n.values), 'bool')
        for v in n.values:
            self.add(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join('({})'.format(self.text(w)) for w in n.values if w is not v), 'drop-condition')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, '({})'.format(self.text(n.operand)), 'unary')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            self.add(n, '({}) {} ({})'.format(self.text(n.left), BIN[type(n.op)], self.text(n.right)), 'arith')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), 'flag')
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), 'constant')
        elif isinstance(n.value, float) and n.value in (0., .5, 1.):
            self.add(n, str({0.: 1., .5: 1., 1.: 0.}[n.value]), 'constant')

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'clear', 'reshape', 'ravel', 'flatten') and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
            self.add(n, self.text(n.func.value), 'no-' + n.func.attr)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('array', 'atleast_2d', 'asarray', 'deepcopy', 'list', 'sort', 'unique', 'tuple', 'clone') and len(n.args) == 1 or isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'clone', 'set', 'dict', 'sorted') and len(n.args) == 1:
            self.add(n, self.text(n.args[0]), 'unwrap')
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1:
                rest = [self.text(a) for a in n.args] + ['{}={}'.format(j.arg, self.text(j.value)) if j.arg else '**' + self.text(j.value) for j in n.keywords if j is not k]
                self.add(n, '{}({})'.format(self.text(n.func), ', '.join(rest)), 'drop-keyword')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper):
                if part is not None:
                    self.add(part, '({}) + 1'.format(self.text(part)), 'slice')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.text(n.body), 'always')
        self.add(n, self.text(n.orelse), 'never')
        self.generic_visit(n)


STRUCTURAL = bool(os.environ.get('STRUCTURAL'))  # other kinds of changes: order of statements, stale results, parts of batches


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    f = Finder(src)
    f.visit(ast.parse(src))
    if STRUCTURAL:
        f.out = [m for m in f.out if m[3] in ('swap', 'only-first', 'not-last', 'reverse', 'other-attribute', 'other-name', 'memo', 'memo-shared') and m[3] not in os.environ.get('WITHOUT', '').split(',')]
    seen, out = set(), []
    for a, b, new, what, line in f.out:
        data = src.encode()
        res = (data[:a] + new.encode() + data[b:]).decode()
        if res not in seen:
            seen.add(res)
            try:
                ast.parse(res)
            except SyntaxError:
                continue
            out.append((path, what, line, data[a:b].decode(), new, res))
    return out


KILL = r'''
import os, sys
sys.path[:0] = [%r]
os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from sim import kernel, runner
kernel.boot()
hit = []
def result(i, out):
    if out['status'] != 'ok':
        hit.append((i, out['status'], out.get('cls')))
        return True
for p in sys.argv[1:]:
    prop = runner.load_prop(p)
    runner.sweep(prop, '1', 'quick', prop.RUNS['quick'], result)
    if hit:
        print('KILLED', p, *hit[0]); sys.stdout.flush(); os._exit(1)
print('SURVIVED'); sys.stdout.flush(); os._exit(0)
''' % VERIF


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    pool = []
    for arg in sys.argv[4:]:
        path, _, props = arg.partition(':')
        pool += [m + (props.split(','),) for m in mutants(path)]
    print(len(pool), 'mutants', flush=True)
    rng = random.Random(seed)
    rng.shuffle(pool)
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['line'], r['old'], r['new']) for r in map(json.loads, open(out))}
    d = tempfile.mkdtemp(prefix='mutate-', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', REPO, r])
    try:
        for path, what, line, old, new, res, props in pool[:n]:
            if (path, line, old, new) in done:
                continue
            target = os.path.join(r, path)
            with open(target, 'w') as f:
                f.write(res)
            o = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests/test_one_dim_convex.py'], cwd=r, capture_output=True, text=True)
            if o.returncode:
                verdict = 'TESTS'
            else:
                p = subprocess.Popen([PY, '-B', '-c', KILL] + props, env=dict(os.environ, AIDEME_REPO=r), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                try:
                    text, _ = p.communicate(timeout=900)
                except subprocess.TimeoutExpired:
                    text = 'TIMEOUT'
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                verdict = (text.strip().splitlines() or ['?'])[-1]
            with open(out, 'a') as f:
                f.write(json.dumps({'file': path, 'what': what, 'line': line, 'old': old, 'new': new, 'verdict': verdict[:300]}) + '\n')
            shutil.copy(os.path.join(REPO, path), target)
    finally:
        shutil.rmtree(d)


main()
