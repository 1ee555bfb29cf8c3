#!/usr/bin/env python3
"""refac.py KIND SRC DST FILES...: behaviour-preserving rewrites of whole Python files, to try the checks for false alarms.
KIND: flip (if/else inverted, comparisons swapped, comprehensions as generators), rename (locals renamed), extract (every body moved to a helper)"""
import ast, copy, os, sys
SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
class Flip(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in SW:
            return ast.Compare(n.comparators[0], [SW[type(n.ops[0])]()], [n.left])
        return n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Await, ast.Yield)) for x in ast.walk(n)) or any(g.is_async for g in n.generators): return n
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n
def funcs(tree, pred=lambda n: True):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and pred(n)]
def rename(tree):
    tops = []
    def find(node):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)): tops.append(c)
            else: find(c)
    find(tree)
    for f in tops:
        inner = [n for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef))]
        keep = set()
        for n in [f] + [x for x in inner if not isinstance(x, ast.ClassDef)]:
            a = n.args
            keep |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)): keep |= set(n.names)
            if isinstance(n, ast.ExceptHandler) and n.name: keep.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)): keep |= {(x.asname or x.name).split(".")[0] for x in n.names}
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): keep.add(n.name)
            if isinstance(n, ast.ClassDef): keep |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        st = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - keep
        if any(isinstance(n, ast.Name) and n.id in ("locals", "vars", "eval", "exec") for n in ast.walk(f)): continue
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in st: n.id += "_v"
    return tree
class Extract(ast.NodeTransformer):
    def body(self, stmts, cls):
        out = []
        for n in stmts:
            if isinstance(n, ast.ClassDef):
                ok = not any(isinstance(b, ast.Name) and b.id in ("NamedTuple", "Protocol", "Enum", "IntEnum") for b in n.bases)
                if ok: n.body = self.body(n.body, n)
                out.append(n)
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not n.decorator_list and not (n.name.startswith("__") and n.name != "__init__"):
                h = copy.deepcopy(n)
                h.name = ("_x_" + n.name.strip("_") if n.name.startswith("_") else "_x_" + n.name) + "_impl"
                a = n.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                if cls is not None and (not pos or pos[0] != "self"): out.append(n); continue
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()) if cls is not None else ast.Name(h.name, ast.Load()),
                                [ast.Name(x, ast.Load()) for x in (pos[1:] if cls is not None else pos)] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                gen = False
                def look(m):
                    nonlocal gen
                    for c in ast.iter_child_nodes(m):
                        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)): continue
                        if isinstance(c, (ast.Yield, ast.YieldFrom)): gen = True
                        look(c)
                look(n)
                if gen and isinstance(n, ast.AsyncFunctionDef): out.append(n); continue
                if isinstance(n, ast.AsyncFunctionDef): call = ast.Await(call)
                n.body = [ast.Expr(ast.YieldFrom(call))] if gen else [ast.Return(call)]
                # class-private defaults must not be evaluated twice in another way: keep them on the wrapper only
                out += [h, n]
                continue
            if isinstance(n, (ast.If, ast.Try)) and cls is None:
                out.append(n); continue
            out.append(n)
        return out
kind, src, dst, files = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
for f in files:
    t = ast.parse(open(f"{src}/{f}").read())
    for k in kind.split("+"):
        if k == "flip": t = Flip().visit(t)
        elif k == "rename": t = rename(t)
        elif k == "extract": t.body = Extract().body(t.body, None)
    ast.fix_missing_locations(t)
    open(f"{dst}/{f}", "w").write(ast.unparse(t) + "\n")
