"""Loads the modules of /repo/src/aspsim from their current source text, after a mechanical transformation
that keeps every statement and expression of the original and only makes loops, comprehensions, list/dict
displays and f-strings visible to the verification engine.

What the transformation does (and all it does):
  for T in IT: B else: E    ->  for T in _vcR.for_(IT, site, get, set): B else: E
  while C: B else: E        ->  for _vcw in _vcR.while_(lambda: C, site, get, set): B else: E
  [e for t in IT if c]      ->  _vcR.comp(IT, lambda __it: [e for t in __it if c])      (same for set/dict/generator)
  [a, b]  {k: v}            ->  _vcR.list([a, b])  _vcR.dict({k: v})
  f"..{x}.."                ->  _vcR.fstr("..", (x, conv, spec), ..)
  a in b / not in           ->  unchanged
`get`/`set` are closures reading/assigning the local variables the loop body may assign (used to cut loops
with an invariant). Names of built-in functions resolve to versions that accept symbolic values.
"""
import ast
import builtins
import os
import sys
import types

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
CUR_VC = None


class _Assigned(ast.NodeVisitor):
    """names assigned in a statement list (not in nested scopes)"""

    def __init__(self):
        self.names = set()
        self.globals = set()
        self.bad = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # only walrus targets leak
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr):
                self.names.add(w.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names - v.globals


def _call(fn, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id="_vcR", ctx=ast.Load()), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.scope = ["module"]
        self.loopn = {}
        self.declared = [set()]     # nonlocal/global names per function
        self.boundstack = [set()]
        self.n = 0

    def _uid(self):
        self.n += 1
        return self.n

    # scopes
    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.scope.append("class")
        self.generic_visit(node)
        self.scope.pop()
        self.qual.pop()
        return node

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        self.scope.append("function")
        decl = set()
        for w in ast.walk(node):
            if isinstance(w, (ast.Global, ast.Nonlocal)):
                decl.update(w.names)
        self.declared.append(decl)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.body = self._body(node.body)
        self.declared.pop()
        self.scope.pop()
        self.qual.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    # loops
    def _site(self, node):
        q = ".".join(self.qual) or "<module>"
        k = self.loopn.get(q, 0)
        self.loopn[q] = k + 1
        return f"{self.mod}:{q}#{k}"

    def _closures(self, names):
        """statements defining get/set closures over names"""
        u = self._uid()
        g, s = f"_vcg{u}", f"_vcs{u}"
        names = sorted(n for n in names if not n.startswith("_vc"))
        body = ["def %s():" % g, "    r = {}"]
        for n in names:
            body += ["    try:", f"        r[{n!r}] = {n}", "    except NameError:", "        pass"]
        body += ["    return r"]
        body += ["def %s(_vcd):" % s]
        if names:
            body += ["    nonlocal " + ", ".join(names)]
            for n in names:
                body += [f"    if {n!r} in _vcd: {n} = _vcd[{n!r}]"]
        else:
            body += ["    pass"]
        tree = ast.parse("\n".join(body))
        return tree.body, g, s

    def _loop(self, node, names):
        if self.scope[-1] != "function" or (names & self.declared[-1]):
            return None
        return self._closures(names)

    def visit_For(self, node):
        site = self._site(node)
        names = assigned([node])
        cl = self._loop(node, names)
        it = self.visit(node.iter)
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        if cl is None:
            new = ast.For(target=node.target, iter=_call("for_", it, ast.Constant(site), ast.Constant(None), ast.Constant(None)), body=body, orelse=orelse, type_comment=None)
            return ast.copy_location(new, node)
        defs, g, s = cl
        new = ast.For(target=node.target, iter=_call("for_", it, ast.Constant(site), ast.Name(id=g, ctx=ast.Load()), ast.Name(id=s, ctx=ast.Load())), body=body, orelse=orelse, type_comment=None)
        for d in defs:
            ast.copy_location(d, node)
        return [*defs, ast.copy_location(new, node)]

    def visit_While(self, node):
        site = self._site(node)
        names = assigned([node])
        cl = self._loop(node, names)
        test = self.visit(node.test)
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=test)
        if cl is None:
            new = ast.For(target=ast.Name(id="_vcw", ctx=ast.Store()), iter=_call("while_", lam, ast.Constant(site), ast.Constant(None), ast.Constant(None)), body=body, orelse=orelse, type_comment=None)
            return ast.copy_location(new, node)
        defs, g, s = cl
        new = ast.For(target=ast.Name(id="_vcw", ctx=ast.Store()), iter=_call("while_", lam, ast.Constant(site), ast.Name(id=g, ctx=ast.Load()), ast.Name(id=s, ctx=ast.Load())), body=body, orelse=orelse, type_comment=None)
        for d in defs:
            ast.copy_location(d, node)
        return [*defs, ast.copy_location(new, node)]

    # comprehensions
    def _comp(self, node, fn):
        if any(isinstance(w, (ast.NamedExpr, ast.Yield, ast.Await)) for w in ast.walk(node)):
            return self.generic_visit(node)
        first = node.generators[0]
        it = self.visit(first.iter)
        first.iter = ast.Name(id="_vcit", ctx=ast.Load())
        first.ifs = [self.visit(i) for i in first.ifs]
        for g in node.generators[1:]:
            g.iter = self.visit(g.iter)
            g.ifs = [self.visit(i) for i in g.ifs]
        if isinstance(node, ast.DictComp):
            node.key, node.value = self.visit(node.key), self.visit(node.value)
        else:
            node.elt = self.visit(node.elt)
        if self.scope[-1] == "class":
            first.iter = it
            return node
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_vcit")], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=node)
        return ast.copy_location(_call(fn, it, lam, ast.Constant(len(first.ifs) > 0 or len(node.generators) > 1)), node)

    def visit_ListComp(self, node): return self._comp(node, "listcomp")
    def visit_GeneratorExp(self, node): return self._comp(node, "genexp")
    def visit_DictComp(self, node): return self._comp(node, "dictcomp")
    def visit_SetComp(self, node): return self._comp(node, "setcomp")

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("list", node), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("dict", node), node)

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                args.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_call("fstr", *args), node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        return node


# ------------------------------------------------------------------ loading
class Loader:
    def __init__(self, vc):
        self.vc = vc
        self.modules = {}
        self.code = {}
        self.files = {}

    def source_path(self, name):
        base = os.path.join(REPO_SRC, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        path, pkg = self.source_path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if not os.path.exists(path):
            src = ""
        else:
            src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        tree = Transform(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rsplit(".", 1)[0]
        m.__dict__["__builtins__"] = self.vc.builtins
        m.__dict__["_vcR"] = self.vc
        self.modules[name] = m
        self.files[name] = path
        if "." in name:
            # set before execution so that `import a.b as x` works within an import cycle
            setattr(parent, name.rsplit(".", 1)[1], m)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = f"{pkg}.{name}" if name else pkg
        if name == "aspsim" or name.startswith("aspsim."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        p, _ = self.source_path(f"{name}.{f}")
                        if p:
                            self.load(f"{name}.{f}")
                return m
            return self.modules[name.split(".")[0]]
        return self.vc.import_external(name, fromlist)
