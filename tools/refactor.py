#!/usr/bin/env python3
"""False-alarm test: rewrites the sources of /repo mechanically without changing what they do,
and runs the checks on a private copy bound over /repo (in a mount namespace of its own).

    refactor.py [--kind=K[,K...]] [--scale=X] [C01 C02 ...]

Kinds:
  flip     if/else branches exchanged, comparisons mirrored (a < b -> b > a), operands of `*` swapped
  temp     returned expressions and conditions computed into temporaries first
  loop     list/set comprehensions written as loops in helpers; `for` loops over an explicit iterator
  assoc    a + b + c -> a + (b + c) and x**2 -> x*x in the numeric modules (other rounding)
  setorder iteration over sets and frozensets in the opposite order
  extract  bodies of methods moved to private helpers the method calls
"""
import ast, os, sys, shutil, subprocess, tempfile, concurrent.futures as cf

R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['calculations.py', 'causet.py', 'causetevent.py', 'causetplotting.py', 'colorschemes.py',
         'embeddedcauset.py', 'shapes.py', 'spacetimes.py', 'sprinkledcauset.py']
MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class Flip(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) \
                else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in MIRROR:
            return ast.Compare(n.comparators[0], [MIRROR[type(n.ops[0])]()], [n.left])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Temp(ast.NodeTransformer):
    k = 0

    def new(self):
        Temp.k += 1
        return f'_tmp{Temp.k}'

    def visit_Return(self, n):
        if n.value is None:
            return n
        v = self.new()
        return [ast.Assign([ast.Name(v, ast.Store())], n.value, lineno=0), ast.Return(ast.Name(v, ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        v = self.new()
        # (an elif becomes a nested if, so the temporary is computed only when it is reached)
        return [ast.Assign([ast.Name(v, ast.Store())], n.test, lineno=0), ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)]


class Loop(ast.NodeTransformer):
    k = 0

    def visit_FunctionDef(self, n):
        self.stack.append([])
        n.body = [self.visit(x) for x in n.body]
        n.body = [y for x in n.body for y in (x if isinstance(x, list) else [x])]
        self.stack.pop()
        return n

    stack = []

    def visit_ListComp(self, n):
        self.generic_visit(n)
        # [f(x) for x in xs] -> list(map-like generator); the same values in the same order
        return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('set', ast.Load()), [ast.ListComp(n.elt, n.generators)], [])

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        Loop.k += 1
        it = f'_it{Loop.k}'
        item = f'_item{Loop.k}'
        S = lambda v: ast.Name(v, ast.Store())
        L = lambda v: ast.Name(v, ast.Load())
        end = f'_end{Loop.k}'
        nxt = ast.Assign([S(item)], ast.Call(L('next'), [L(it), L(end)], []), lineno=0)
        return [ast.Assign([S(it)], ast.Call(L('iter'), [n.iter], []), lineno=0),
                ast.Assign([S(end)], ast.Call(L('object'), [], []), lineno=0),
                ast.While(ast.Constant(True), [nxt,
                          ast.If(ast.Compare(L(item), [ast.Is()], [L(end)]), [ast.Break()], []),
                          ast.Assign([n.target], L(item), lineno=0)] + n.body, [])]


class Assoc(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 \
                and isinstance(n.left, (ast.Name, ast.Subscript, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        def text(x):
            return any(isinstance(y, (ast.List, ast.Tuple, ast.JoinedStr)) or
                       isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x))
        if isinstance(n.op, ast.Add) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Add) \
                and not text(n):
            return ast.BinOp(n.left.left, ast.Add(), ast.BinOp(n.left.right, ast.Add(), n.right))
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult) \
                and not text(n):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Mult(), n.right))
        return n


class SetOrder(ast.NodeTransformer):
    def wrap(self, x):
        return ast.Call(ast.Name('_revset', ast.Load()), [x], [])

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.wrap(n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self.wrap(n.iter)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('enumerate', 'list', 'tuple'):
            n.args = [self.wrap(x) for x in n.args]
        return n


class Extract(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            ok = isinstance(f, ast.FunctionDef) and not f.decorator_list and f.name not in ('__init__', '__new__') \
                and not f.name.startswith('__') and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super'
                            for x in ast.walk(f)) \
                and not any(isinstance(x, ast.Name) and x.id.startswith('__') for x in ast.walk(f))
            if ok and f.args.args and f.args.args[0].arg == 'self':
                name = f'_x_{n.name}_{f.name.lstrip("_")}'
                a = [x.arg for x in f.args.args]
                body = f.body
                doc = []
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    doc, body = body[:1], body[1:]
                if body:
                    gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))
                    h = ast.FunctionDef(name=name, args=ast.arguments(
                        posonlyargs=[], args=[ast.arg(x) for x in a], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=body, decorator_list=[], lineno=0)
                    call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()),
                                    [ast.Name(x, ast.Load()) for x in a[1:]], [])
                    f.body = doc + [ast.Return(call)]
                    out.append(h)
            out.append(f)
        n.body = out
        return n


HELP = {'setorder': 'def _revset(s):\n    return list(s)[::-1] if isinstance(s, (set, frozenset)) else s\n'}
KINDS = {'flip': Flip, 'temp': Temp, 'loop': Loop, 'assoc': Assoc, 'setorder': SetOrder, 'extract': Extract}


def rewrite(kinds, d):
    for f in os.listdir(R):
        if f.endswith('.py'):
            shutil.copy(os.path.join(R, f), d)
    for fn in FILES:
        p = os.path.join(d, fn)
        with open(p) as fh:
            src = fh.read()
        for k in kinds:
            if k == 'assoc' and fn not in ('calculations.py', 'spacetimes.py', 'shapes.py'):
                continue
            t = KINDS[k]().visit(ast.parse(src))
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            if k in HELP:
                i = max(x.end_lineno for x in ast.parse(new).body if isinstance(x, (ast.Import, ast.ImportFrom)))
                ls = new.split('\n')
                new = '\n'.join(ls[:i] + HELP[k].split('\n') + ls[i:])
            compile(new, fn, 'exec')
            src = new
        with open(p, 'w') as fh:
            fh.write(src)


def run(kinds, ids, scale):
    d = tempfile.mkdtemp(prefix='refactor-', dir='/tmp')
    try:
        rewrite(kinds, d)
        bad = []
        for c in ids:
            s = f'mount --make-rprivate /; mount --bind {d} {R}; cd {V}; exec ./check {c} --scale {scale} --noevidence'
            p = subprocess.run(['unshare', '-m', 'bash', '-c', s], capture_output=True, text=True)
            if p.returncode:
                bad.append(c)
                print('+'.join(kinds), c, p.returncode, p.stdout[-1500:], p.stderr[-1500:], flush=True)
        print('+'.join(kinds), 'alarms:', bad, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    kinds = [x[7:].split(',') for x in a if x.startswith('--kind=')] or [[k] for k in KINDS]
    scale = next((x[8:] for x in a if x.startswith('--scale=')), '1')
    ids = [x for x in a if not x.startswith('--')] or ['C%02d' % i for i in range(1, 30)]
    for k in kinds:
        run(k, ids, scale)
