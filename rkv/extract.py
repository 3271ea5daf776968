"""Mechanical extraction of the functions of /repo for verification, redone from source on every run.

What the extraction changes (and nothing else):
  * numpy, scipy, logging, math and a few builtins are replaced by contract models (shims);
  * numeric literals, '/', '**' and '%' go through helpers so that exact or floating-point symbolic values
    can be used (a/b of two Python numbers is kept exact);
  * while/for loops inside functions are wrapped so that the verifier can cut them at an invariant;
  * list and dict displays build an instrumented list or dict;
  * docstrings, type annotations of variables and comments are dropped.
Control flow, calls, attribute accesses and all other statements are those of the source.
"""
import ast
import builtins
import os
import types

REPO = os.environ.get("RKV_REPO", "/repo")


def src_path(mod):
    p = os.path.join(REPO, *mod.split("."))
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py")
    return p + ".py"


class Xform(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.fn = []
        self.loops = 0

    # ----- helpers
    def call(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id="_rkv_", ctx=ast.Load()), attr=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_Constant(self, n):
        if isinstance(n.value, (float, complex)):
            return ast.copy_location(self.call("lit", ast.Constant(value=repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        for i, v in enumerate(n.values):
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        m = {ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod", ast.MatMult: "matmul"}.get(type(n.op))
        if m:
            return ast.copy_location(self.call(m, n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        m = {ast.Div: "idiv", ast.Pow: "pow", ast.Mod: "mod"}.get(type(n.op))
        if m:
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            return ast.copy_location(ast.Assign(targets=[n.target], value=self.call(m, load, n.value)), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        self.generic_visit(n)
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fn:
            return ast.copy_location(self.call("lst", n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys:
            return ast.copy_location(self.call("dct", n), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if self.fn:
            return ast.copy_location(self.call("lst", n), n)
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d else None for d in n.args.kw_defaults]
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.fn.append(n)
        n.body = self.block(n.body)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        fn, self.fn = self.fn, []
        n.body = self.block(n.body)
        self.fn = fn
        return n

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    # ----- loops
    def modset(self, body):
        names = set()
        skip = set()

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                if isinstance(n, ast.FunctionDef):
                    names.add(n.name)
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.NamedExpr):
                        names.add(c.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip.update(n.names)
            for c in ast.iter_child_nodes(n):
                walk(c)
        for s in body:
            walk(s)
        return sorted(x for x in names - skip if not x.startswith("_rkv_"))

    def subset(self, body):
        """names whose elements are assigned"""
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    out.add(n.value.id)
        return sorted(out)

    def _loopvar(self):
        self.loops += 1
        return f"_rkv_lp{self.loops}"

    def _unpack(self, names, value):
        if not names:
            return ast.Expr(value=value)
        return ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())], value=value)

    def _continues(self, body, lp):
        me = self

        class C(ast.NodeTransformer):
            def visit_Continue(self, n):
                return [ast.parse(f"{lp}.back(locals())").body[0], n]

            def visit_For(self, n):
                return n

            def visit_While(self, n):
                return n

            def visit_FunctionDef(self, n):
                return n
        out = []
        for s in body:
            r = C().visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_While(self, n):
        if not self.fn:
            self.generic_visit(n)
            return n
        lp = self._loopvar()
        names = self.modset(n.body + [ast.Expr(value=n.test)])
        qual = ".".join(f.name for f in self.fn)
        body = self._continues(n.body, lp)
        body = self.block(body)
        test = self.visit(n.test)
        orelse = self.block(n.orelse)
        pre = ast.parse(f"{lp} = _rkv_.loop({lp!r}, {self.mod!r}, {qual!r}, {tuple(names)!r}, 'while', None)").body
        start = ast.If(test=ast.parse(f"{lp}.cut", mode="eval").body,
                       body=[self._unpack(names, ast.parse(f"{lp}.start(locals())", mode="eval").body)], orelse=[])
        exit_ = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=orelse + [ast.Break()], orelse=[])
        w = ast.While(test=ast.Constant(value=True),
                      body=[exit_, ast.parse(f"{lp}.tick()").body[0]] + body + [ast.parse(f"{lp}.back(locals())").body[0]], orelse=[])
        res = pre + [start, w, ast.parse(f"{lp}.done()").body[0]]
        return [ast.copy_location(x, n) for x in res]

    def visit_For(self, n):
        if not self.fn:
            self.generic_visit(n)
            return n
        lp = self._loopvar()
        tn = self.modset([ast.Assign(targets=[n.target], value=ast.Constant(value=0))])
        names = [x for x in self.modset(n.body) if x not in tn]
        subs = self.subset(n.body)
        qual = ".".join(f.name for f in self.fn)
        body = self._continues(n.body, lp)
        body = self.block(body)
        it = self.visit(n.iter)
        orelse = self.block(n.orelse)
        pre = ast.parse(f"{lp} = _rkv_.loop({lp!r}, {self.mod!r}, {qual!r}, {tuple(names)!r}, 'for', None)").body
        pre[0].value.args[-1] = it
        start = ast.If(test=ast.parse(f"{lp}.cut", mode="eval").body,
                       body=[ast.parse(f"{lp}.subs = {tuple(subs)!r}").body[0], self._unpack(names, ast.parse(f"{lp}.start(locals())", mode="eval").body)], orelse=[])
        item = ast.Assign(targets=[n.target], value=ast.parse(f"{lp}.item()", mode="eval").body)
        w = ast.While(test=ast.parse(f"{lp}.more()", mode="eval").body,
                      body=[item] + body + [ast.parse(f"{lp}.back(locals())").body[0]], orelse=orelse)
        fin = ast.If(test=ast.parse(f"{lp}.acc", mode="eval").body,
                     body=[self._unpack(names, ast.parse(f"{lp}.finish(locals())", mode="eval").body)], orelse=[])
        res = pre + [start, w, fin, ast.parse(f"{lp}.done()").body[0]]
        return [ast.copy_location(x, n) for x in res]


_CODE = {}


def code_of(mod):
    if mod not in _CODE:
        p = src_path(mod)
        with open(p, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, p)
        x = Xform(mod)
        body = x.block(tree.body)
        if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant):
            body = body[1:]
        tree.body = [s for s in body]
        # __future__ imports must stay first
        tree.body.sort(key=lambda s: 0 if isinstance(s, ast.ImportFrom) and s.module == "__future__" else 1)
        ast.fix_missing_locations(tree)
        _CODE[mod] = compile(tree, p, "exec", dont_inherit=True)
    return _CODE[mod]


SAFE = {"typing", "abc", "enum", "__future__", "functools", "itertools", "operator", "collections", "dataclasses", "contextlib",
        "types", "inspect", "copy", "numbers", "fractions", "collections.abc", "warnings", "weakref"}


class World:
    """One fresh instance of the package under a given set of shims (module and class state is per world)."""

    def __init__(self, shims, runtime, overrides=None):
        self.shims = shims
        self.runtime = runtime
        self.mods = {}
        self.overrides = overrides or {}

    def load(self, mod):
        if mod in self.mods:
            return self.mods[mod]
        m = types.ModuleType(mod)
        m.__file__ = src_path(mod)
        ispkg = m.__file__.endswith("__init__.py")
        m.__package__ = mod if ispkg else mod.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(m.__file__)]
        self.mods[mod] = m
        b = dict(vars(builtins))
        b["__import__"] = lambda name, g=None, l=None, fromlist=(), level=0: self.imp(m, name, fromlist, level)
        b.update(self.runtime.builtins())
        g = m.__dict__
        g["__builtins__"] = b
        g["_rkv_"] = self.runtime
        exec(code_of(mod), g)
        if "." in mod:
            par = self.load(mod.rpartition(".")[0])
            setattr(par, mod.rpartition(".")[2], m)
        return m

    def imp(self, m, name, fromlist, level):
        from .core import Unsupported
        if level:
            base = m.__package__
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == "rkstiff" or full.startswith("rkstiff."):
            r = self.load(full)
            for f in fromlist or ():
                if not hasattr(r, f) and os.path.exists(src_path(full + "." + f)):
                    setattr(r, f, self.load(full + "." + f))
            return r if (fromlist or level) else self.load("rkstiff")
        if full in self.shims:
            if fromlist or "." not in full:
                return self.shims[full]
            return self.shims[full.split(".")[0]]
        if full in SAFE:
            return __import__(full, fromlist=fromlist)
        raise Unsupported(f"import of {full}")


def source_lines(mod, name):
    """line range of a (possibly dotted) definition, for reports; None if absent"""
    try:
        tree = ast.parse(open(src_path(mod), encoding="utf-8").read())
    except (OSError, SyntaxError):
        return None
    node = tree
    for part in name.split("."):
        for c in getattr(node, "body", []):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == part:
                node = c
                break
        else:
            return None
    return (node.lineno, node.end_lineno)
