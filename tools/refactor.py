#!/opt/venv/bin/python
"""
Development tool: rewrites all of aideme in a scratch tree without changing what it does, to see that no check raises an alarm.

    refactor.py KIND SEED TREE      applies one kind of rewriting to TREE/aideme (a copy of /repo), at random places (half of them)

KINDs: temp (values go through a temporary variable), helper (expressions move into local functions), while (for loops become
while loops), invert (if/else branches exchanged), swap (adjacent independent assignments exchanged, calls included),
else (early returns get an else branch), all
"""
import ast
import os
import random
import sys

SKIP_CALLS = {'super', 'locals', 'vars', 'eval'}


def names(node):
    """ what a statement reads and writes: dotted roots up to two levels ('self.x', 'y') """
    reads, writes = set(), set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            (writes if isinstance(n.ctx, ast.Store) else reads).add(n.value.id + '.' + n.attr)
        elif isinstance(n, ast.Name):
            (writes if isinstance(n.ctx, ast.Store) else reads).add(n.id)
    return reads, writes


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def uses_super(node):
    return any(isinstance(n, ast.Name) and n.id in SKIP_CALLS for n in ast.walk(node))


class Rewriter(ast.NodeTransformer):
    def __init__(self, kind, rng):
        self.kind, self.rng, self.depth, self.count, self.n, self.setters = kind, rng, 0, 0, 0, set()

    def pick(self, kind):
        ok = self.depth > 0 and self.kind in (kind, 'all') and self.rng.random() < .5
        self.count += ok
        return ok

    def fresh(self):
        self.n += 1
        return 'tmp_%d' % self.n

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self.block(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        return node

    def block(self, body):
        out = []
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None) and isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    setattr(s, f, self.block(getattr(s, f)))
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    h.body = self.block(h.body)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s = self.visit(s)
            out.extend(self.statement(s))
        return self.orders(out)

    def statement(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and not has(s, ast.Yield, ast.YieldFrom, ast.NamedExpr):
            pre = []
            if self.pick('helper') and has(s.value, ast.Call) and not uses_super(s.value):
                t = self.fresh()
                pre.append(ast.FunctionDef(name=t, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                           body=[ast.Return(s.value)], decorator_list=[]))
                s.value = ast.Call(ast.Name(t, ast.Load()), [], [])
            if self.pick('temp'):
                t = self.fresh()
                pre.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
                s.value = ast.Name(t, ast.Load())
            return pre + [s]
        if isinstance(s, ast.For) and not s.orelse and self.pick('while'):
            it = self.fresh()
            nxt = ast.Try(body=[ast.Assign([s.target], ast.Call(ast.Name('next', ast.Load()), [ast.Name(it, ast.Load())], []))],
                          handlers=[ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None, [ast.Break()])], orelse=[], finalbody=[])
            return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [s.iter], [])),
                    ast.While(ast.Constant(True), [nxt] + s.body, [])]
        if isinstance(s, ast.If) and s.orelse and self.pick('invert'):
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]

    def orders(self, body):
        out, i = list(body), 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and not has(x, ast.Yield) and not uses_super(x) for x in (a, b)):
                (ra, wa), (rb, wb) = names(a), names(b)
                # calls on self, and helpers hiding them, may read and write anything; random numbers have an order
                impure = any('self.' in ast.unparse(n.func) or ast.unparse(n.func).startswith('tmp_') or 'random' in ast.unparse(n.func) or 'sample' in ast.unparse(n.func) or 'perf_counter' in ast.unparse(n.func)
                             for x in (a, b) for n in ast.walk(x) if isinstance(n, ast.Call))
                impure = impure or bool((wa | wb) & self.setters)
                if not impure and not (wa & (rb | wb)) and not (wb & ra) and self.pick('swap'):
                    out[i], out[i + 1] = b, a
                    i += 1
            i += 1
        for i, s in enumerate(out[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.pick('else'):
                s.orelse = out[i + 1:]
                return out[:i + 1]
        return out


def main():
    kind, seed, tree = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    assert os.path.realpath(tree) != '/repo'
    total = 0
    for d, _, fs in os.walk(os.path.join(tree, 'aideme')):
        for f in sorted(fs):
            if f.endswith('.py') and f != '__init__.py':
                p = os.path.join(d, f)
                r = Rewriter(kind, random.Random('%s/%s/%d' % (kind, os.path.relpath(p, tree), seed)))
                t = ast.parse(open(p).read())
                r.setters = {'self.' + n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.decorator_list} | {'self.optimizer'}
                t.body = [r.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in t.body]
                if r.count:
                    total += r.count
                    src = ast.unparse(ast.fix_missing_locations(t))
                    compile(src, p, 'exec')
                    open(p, 'w').write(src + '\n')
    print(kind, seed, total, 'places')


main()
