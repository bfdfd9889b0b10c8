"""The mechanical rewriting applied to the real source before CPython executes it on symbolic values.

What it changes (and nothing else):
  - argument, return and local variable annotations are dropped;
  - loops, comprehensions and list/set/dict displays go through the engine's loop and container code;
  - "is" / "is not" go through the engine (symbolic None tests), attribute stores are logged;
  - f-strings, str.format and str.join with symbolic parts become uninterpreted strings;
  - classes get a __new__ that numbers instances.
Everything else - calls, classes, closures, properties, exceptions, with, generators, coroutines,
name lookup - is executed by CPython as is."""
import ast
import copy

SKIP_CLASS_BASES = {"Enum", "IntEnum", "NamedTuple", "Protocol"}


class T(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.cls = []
        self.nloop = 0
        self.loopvars = []      # stack of enclosing loop handles within the current function
        self.funcs = []
        self.cells = []         # names of enclosing functions (or the module) the current function assigns

    # -- helpers
    def eng(self, name):
        return ast.Attribute(ast.Name("_E_", ast.Load()), name, ast.Load())

    def call(self, name, *args):
        return ast.Call(self.eng(name), list(args), [])

    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return f"_{c}{name}"
        return name

    # -- scopes
    def visit_ClassDef(self, node):
        saved = self.loopvars
        self.loopvars = []
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.cls.append(node.name)
        body = []
        for st in node.body:
            if isinstance(st, ast.AnnAssign):
                body.append(st)     # class level annotations stay (dataclasses)
            else:
                r = self.visit(st)
                body.extend(r if isinstance(r, list) else [r])
        node.body = body or [ast.Pass()]
        self.cls.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        names = {b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "") for b in node.bases}
        if not names & SKIP_CLASS_BASES:
            node.decorator_list.append(self.eng("cls"))
        self.loopvars = saved
        return node

    def _args(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]

    def _func(self, node):
        self._args(node.args)
        node.returns = None
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        saved = self.loopvars
        self.loopvars = []
        self.cells.append(self._outer_names(node))
        self.funcs.append(copy.deepcopy(node))
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body or [ast.Pass()]
        self.loopvars = saved
        self.cells.pop()
        self.funcs.pop()
        return node

    def _used_outside(self, loop, names):
        """are these names read in the current function other than in this loop (and in what binds them anew)?"""
        def binds(n):
            if isinstance(n, (ast.For, ast.AsyncFor)):
                ts = [n.target]
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                ts = [g.target for g in n.generators]
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                return {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
            else:
                return set()
            return {m.id for t in ts for m in ast.walk(t) if isinstance(m, ast.Name)}

        def used(n, names):
            if isinstance(n, ast.For) and n.lineno == loop.lineno and n.col_offset == loop.col_offset:
                return False
            if isinstance(n, ast.Name):
                return isinstance(n.ctx, ast.Load) and n.id in names
            names = names - binds(n)
            return bool(names) and any(used(c, names) for c in ast.iter_child_nodes(n))
        return bool(self.funcs) and any(used(st, names) for st in self.funcs[-1].body)

    @staticmethod
    def _outer_names(node):
        out = set()
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                out.update(n.names)
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))
        return out

    def visit(self, node):
        """assigning a variable of an enclosing scope is reported to the engine (a loop around it cannot be summarised)"""
        r = super().visit(node)
        if self.cells and self.cells[-1] and isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.For, ast.AsyncFor, ast.With, ast.AsyncWith, ast.NamedExpr)):
            hit = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} & self.cells[-1])
            if hit:
                if isinstance(node, ast.NamedExpr):
                    raise NotImplementedError("assignment expression to a variable of an enclosing function")
                note = ast.copy_location(ast.Expr(self.call("cell_write", ast.Constant(", ".join(hit)))), node)
                return [note] + (r if isinstance(r, list) else [r])
        return r

    def visit_Match(self, node):
        raise NotImplementedError("match statement")

    def visit_Yield(self, node):
        self.generic_visit(node)
        if self.loopvars:
            # suspending within a loop that is summarised
            return ast.copy_location(ast.Yield(self.call("yielded", node.value or ast.Constant(None))), node)
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.YieldFrom(self.call("yielded", node.value)) if self.loopvars else node, node)
    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        self._args(node.args)
        saved = self.loopvars
        self.loopvars = []
        node.body = self.visit(node.body)
        self.loopvars = saved
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        if not self.cls and not isinstance(node.target, (ast.Attribute, ast.Subscript)):
            pass
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    # -- attribute stores
    def _store(self, target, value, out):
        """statements storing the value expression into the target"""
        if isinstance(target, ast.Attribute):
            out.append(ast.Expr(self.call("setattr", self.visit(target.value), ast.Constant(self.mangle(target.attr)), value)))
        elif isinstance(target, (ast.Tuple, ast.List)) and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                                                               for n in ast.walk(target)):
            names = []
            tmps = []
            for k, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    raise NotImplementedError("starred attribute store")
                self.nloop += 1
                nm = f"_t{self.nloop}"
                names.append((nm, e))
                tmps.append(ast.Name(nm, ast.Store()))
            out.append(ast.Assign([ast.Tuple(tmps, ast.Store())], value))
            for nm, e in names:
                self._store(e, ast.Name(nm, ast.Load()), out)
        else:
            out.append(ast.Assign([self.visit(target)], value))

    def visit_Assign(self, node):
        if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for t in node.targets for n in ast.walk(t)):
            return self.generic_visit(node)
        out = []
        value = self.visit(node.value)
        if len(node.targets) > 1:
            self.nloop += 1
            nm = f"_t{self.nloop}"
            out.append(ast.Assign([ast.Name(nm, ast.Store())], value))
            for t in node.targets:
                self._store(t, ast.Name(nm, ast.Load()), out)
        else:
            self._store(node.targets[0], value, out)
        return [ast.copy_location(o, node) for o in out]

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Attribute):
            v = self.visit(node.value)
            return ast.copy_location(ast.Expr(self.call("augattr", self.visit(node.target.value),
                                                        ast.Constant(self.mangle(node.target.attr)),
                                                        ast.Constant(type(node.op).__name__), v)), node)
        return self.generic_visit(node)

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Attribute):
                out.append(ast.Expr(self.call("delattr", self.visit(t.value), ast.Constant(self.mangle(t.attr)))))
            else:
                out.append(ast.Delete([self.visit(t)]))
        return out

    # -- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = self.call("is_", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("format", "join") and node.args and not node.keywords:
            return ast.copy_location(ast.Call(self.eng("str" + node.func.attr), [node.func.value] + node.args, []), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call("mklist", node), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("mkset", ast.List(node.elts, ast.Load())), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple([ast.Constant(Ellipsis) if k is None else k, v], ast.Load()))
        return ast.copy_location(self.call("mkdict", ast.List(pairs, ast.Load())), node)

    def _comp(self, node, kind, elt):
        g = node.generators
        simple = len(g) == 1 and not g[0].is_async and not any(
            isinstance(n, (ast.Await, ast.NamedExpr, ast.Yield, ast.Lambda)) for n in ast.walk(node))     # (lambdas would share the variable)
        tgt = g[0].target
        if isinstance(tgt, ast.Name):
            names = [tgt.id]
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            names = [e.id for e in tgt.elts]
        else:
            simple = False
        if not simple:
            self.generic_visit(node)
            if kind == "list":
                return ast.copy_location(self.call("mklist", node), node)
            if kind == "set":
                return ast.copy_location(self.call("mkset", node), node)
            if kind == "dict":
                return ast.copy_location(self.call("mkdictn", node), node)
            return node

        def lam(body):
            inner = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body)
            if isinstance(tgt, ast.Name):
                return inner
            return ast.Lambda(ast.arguments([], [ast.arg("_t")], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(ast.Name("_t", ast.Load()), ast.Load())], []))
        it = self.visit(g[0].iter)
        saved = self.loopvars
        self.loopvars = []
        conds = [self.visit(c) for c in g[0].ifs]
        e = self.visit(elt) if not isinstance(elt, tuple) else ast.Tuple([self.visit(x) for x in elt], ast.Load())
        self.loopvars = saved
        c = ast.Constant(None) if not conds else lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
        return ast.copy_location(self.call(kind + "comp", it, c, lam(e)), node)

    def visit_ListComp(self, node): return self._comp(node, "list", node.elt)
    def visit_SetComp(self, node): return self._comp(node, "set", node.elt)
    def visit_DictComp(self, node): return self._comp(node, "dict", (node.key, node.value))
    def visit_GeneratorExp(self, node): return self._comp(node, "gen", node.elt)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(self.call("fstr", *parts), node)

    # -- loops
    def _assigned(self, body, target=None):
        out = []

        class V(ast.NodeVisitor):
            def visit_FunctionDef(s, n): pass
            visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_ListComp = visit_FunctionDef
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_FunctionDef

            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                    out.append(n.id)
        for st in body:
            V().visit(st)
        tn = set()
        if target is not None:
            tn = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        return [n for n in out if n not in tn]

    def _havoc(self, lv, names):
        out = []
        for n in names:
            test = ast.Compare(ast.Constant(n), [ast.In()], [ast.Attribute(ast.Name(lv, ast.Load()), "loc", ast.Load())])
            out.append(ast.If(test, [ast.Assign([ast.Name(n, ast.Store())], ast.Subscript(
                ast.Attribute(ast.Name(lv, ast.Load()), "loc", ast.Load()), ast.Constant(n), ast.Load()))], []))
        return out

    def _body(self, stmts):
        out = []
        for st in stmts:
            r = self.visit(st)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_For(self, node):
        names = self._assigned(node.body, node.target)
        tnames = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        kept = self._used_outside(node, tnames) or any(isinstance(n, ast.Name) and n.id in tnames and isinstance(n.ctx, ast.Load) for st in node.orelse for n in ast.walk(st))
        if kept and tnames & set(self._assigned(node.body)):
            raise NotImplementedError("loop variable assigned in the loop and used after it")
        self.nloop += 1
        lv = f"_L{self.nloop}"
        it = self.visit(node.iter)
        init = ast.Assign([ast.Name(lv, ast.Store())], self.call(
            "loop", it, ast.Constant(f"{self.fname}:{node.lineno}"), ast.Call(ast.Name("locals", ast.Load()), [], []),
            ast.Constant(tuple(names))))
        pre, tgt = [], node.target
        if any(isinstance(n, ast.Attribute) for n in ast.walk(tgt)):
            raise NotImplementedError("attribute as loop target")
        self.loopvars.append(lv)
        body = self._havoc(lv, names) + self._body(node.body)
        self.loopvars.pop()
        keep = []
        if kept:
            self.nloop += 1
            nm = f"_t{self.nloop}"
            keep = [ast.Assign([ast.Name(nm, ast.Store())], ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), "last", ast.Load()), [], [])),
                    ast.If(ast.Compare(ast.Name(nm, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                           [ast.Assign([copy.deepcopy(tgt)], ast.Subscript(ast.Name(nm, ast.Load()), ast.Constant(0), ast.Load()))], [])]
        orelse = self._havoc(lv, names) + keep + self._body(node.orelse)
        loop = ast.For(tgt, ast.Name(lv, ast.Load()), body, orelse)
        done = ast.Expr(ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), "done", ast.Load()), [], []))
        return [ast.copy_location(x, node) for x in (init, loop, done)]

    def visit_While(self, node):
        names = self._assigned([node.test] + node.body)
        self.nloop += 1
        lv = f"_L{self.nloop}"
        L = lambda: ast.Name(lv, ast.Load())
        init = ast.Assign([ast.Name(lv, ast.Store())], self.call(
            "whileloop", ast.Constant(f"{self.fname}:{node.lineno}"), ast.Constant(tuple(names))))
        head = ast.Expr(ast.Call(ast.Attribute(L(), "head", ast.Load()), [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))
        self.loopvars.append(lv)
        test = ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(L(), "test", ast.Load()), [self.visit(node.test)], [])),
                      self._body(node.orelse) + [ast.Break()], [])
        body = [head] + self._havoc(lv, names) + [test] + self._body(node.body)
        self.loopvars.pop()
        loop = ast.While(ast.Constant(True), body, [])
        done = ast.Expr(ast.Call(ast.Attribute(L(), "done", ast.Load()), [], []))
        return [ast.copy_location(x, node) for x in (init, loop, done)]

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.loopvars:
            v = node.value or ast.Constant(None)
            for lv in reversed(self.loopvars):
                v = ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), "ret", ast.Load()), [v], [])
            node.value = v
        return node


def transform(src, fname):
    tree = ast.parse(src)
    tree = T(fname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree
