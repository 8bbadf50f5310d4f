"""Import seam: loads /repo/src/simpy from its current source with simulator yield points inserted.

Every module of the package is parsed, and a call to a simulator hook is inserted before every statement and
around the sub-expressions at which CPython/PyPy could switch threads or deliver an asynchronous exception
(calls, attribute / subscript loads, comparisons, conditional branches, comprehension elements).  The hook is the
only change: it returns its argument.  Set displays / comprehensions and the names `set`/`frozenset` are bound to
an order-controlled set, because set iteration order is a hash-seed dependent choice on CPython.

Nothing is written to /repo; the instrumented code objects live in memory only.
"""
import ast
import os
import sys
import types

REPO_SRC = os.environ.get("SIM_REPO_SRC", "/repo/src")
PKG = "simpy"

_WRAP = (ast.Call, ast.Attribute, ast.Subscript, ast.Compare, ast.IfExp, ast.BoolOp)


class _T(ast.NodeTransformer):
    def __init__(self):
        self.npoints = 0
        self.outer = []  # names that each enclosing function declares global or nonlocal

    # -- helpers -------------------------------------------------------------------------------------------
    def _p(self, node, hot=False):
        self.npoints += 1
        call = ast.Expr(
            ast.Call(func=ast.Name(id="_sim_hp_" if hot else "_sim_p_", ctx=ast.Load()), args=[], keywords=[])
        )
        ast.copy_location(call, node)
        return ast.fix_missing_locations(call)

    def _v(self, e, hot=False):
        self.npoints += 1
        call = ast.Call(func=ast.Name(id="_sim_hv_" if hot else "_sim_v_", ctx=ast.Load()), args=[e], keywords=[])
        ast.copy_location(call, e)
        return ast.fix_missing_locations(call)

    def _is_hot(self, stmt):
        """Statements that write shared state directly (attribute / item store or delete, augmented store, global names)."""
        if isinstance(stmt, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            targets = stmt.targets if isinstance(stmt, (ast.Assign, ast.Delete)) else [stmt.target]
            for t in targets:
                for n in ast.walk(t):
                    if isinstance(n, (ast.Attribute, ast.Subscript)):
                        return True
                    if self.outer and isinstance(n, ast.Name) and n.id in self.outer[-1]:
                        return True
        if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call):
            f = stmt.value.func
            if isinstance(f, ast.Name) and f.id in ("setattr", "delattr"):
                return True
            if isinstance(f, ast.Attribute) and f.attr in (
                "append", "extend", "pop", "clear", "update", "setdefault", "remove", "insert", "sort", "add",
                "discard", "reverse", "popitem",
            ):
                return True
        return False

    def _body(self, stmts, skip_doc=False):
        out = []
        prev_hot = False
        for i, s in enumerate(stmts):
            if i == 0 and skip_doc and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(
                s.value.value, str
            ):
                out.append(s)
                continue
            if isinstance(s, ast.ImportFrom) and s.module == "__future__":
                out.append(s)
                continue
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(s)
                continue
            hot = self._is_hot(s)
            out.append(self._p(s, hot or prev_hot))
            prev_hot = hot
            out.append(self.visit(s))
        if prev_hot:
            out.append(self._p(stmts[-1], True))
        return out

    # -- statements ----------------------------------------------------------------------------------------
    def visit_Module(self, node):
        node.body = self._body(node.body, skip_doc=True)
        return node

    def _func(self, node):
        # decorators, defaults and annotations are evaluated at definition time; leave them alone
        self.outer.append({x for n in ast.walk(node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names})
        node.body = self._body(node.body, skip_doc=True)
        self.outer.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        node.body = self._body(node.body, skip_doc=True)
        return node

    def visit_Lambda(self, node):
        node.body = self._expr(node.body)
        return node

    def _compound(self, node):
        for f in ("body", "orelse"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b:
                setattr(node, f, self._body(b))
        return node

    def visit_If(self, node):
        node.test = self._expr(node.test)
        return self._compound(node)

    visit_While = visit_If

    def visit_For(self, node):
        node.iter = self._expr(node.iter)
        return self._compound(node)

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
        return self._compound(node)

    def _shield(self, stmts, node):
        """except/finally suites: an injected exception is never raised inside them (enter/exit a shield)."""
        enter = ast.Expr(ast.Call(func=ast.Name(id="_sim_se_", ctx=ast.Load()), args=[], keywords=[]))
        exit_ = ast.Expr(ast.Call(func=ast.Name(id="_sim_sx_", ctx=ast.Load()), args=[], keywords=[]))
        tr = ast.Try(body=self._body(stmts), handlers=[], orelse=[], finalbody=[exit_])
        out = [enter, tr]
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out

    def visit_Try(self, node):
        node.body = self._body(node.body)
        for h in node.handlers:
            h.body = self._shield(h.body, h)
        if node.orelse:
            node.orelse = self._body(node.orelse)
        if node.finalbody:
            node.finalbody = self._shield(node.finalbody, node)
        return node

    def visit_AugAssign(self, node):
        # the target is loaded before the value is evaluated: wrapping the value puts a point between load/store
        node.value = self._v(self._expr(node.value), self._is_hot(node))
        node.target = self.visit(node.target)
        return node

    def visit_Assign(self, node):
        hot = self._is_hot(node)
        node = self.generic_visit(node)
        if hot:
            node.value = self._v(node.value, True)  # between working out the value and storing it
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self._expr(node.value)
        return node

    def visit_Import(self, node):
        return node

    def visit_ImportFrom(self, node):
        return node

    # -- expressions ---------------------------------------------------------------------------------------
    def _expr(self, e):
        return self.visit(e)

    def generic_visit(self, node):
        node = super().generic_visit(node)
        return node

    def visit(self, node):
        new = super().visit(node)
        if isinstance(new, _WRAP):
            ctx = getattr(new, "ctx", None)
            if ctx is None or isinstance(ctx, ast.Load):
                return self._v(new)
        return new

    def visit_Call(self, node):
        # do not wrap the callee itself (`obj.method`), but do visit what it is looked up on
        f = node.func
        if isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
        elif not isinstance(f, ast.Name):
            node.func = self.visit(f)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return node

    def visit_Starred(self, node):
        node.value = self.visit(node.value)
        return node

    def _comp(self, node):
        for g in node.generators:
            g.iter = self.visit(g.iter)
            g.ifs = [self.visit(i) for i in g.ifs]
        if isinstance(node, ast.DictComp):
            node.key = self.visit(node.key)
            node.value = self._v(self.visit(node.value))
        else:
            node.elt = self._v(self.visit(node.elt))
        return node

    visit_ListComp = _comp
    visit_GeneratorExp = _comp
    visit_DictComp = _comp

    def visit_SetComp(self, node):
        self._comp(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        call = ast.Call(func=ast.Name(id="_sim_set_", ctx=ast.Load()), args=[lc], keywords=[])
        ast.copy_location(lc, node)
        ast.copy_location(call, node)
        return ast.fix_missing_locations(call)

    def visit_Set(self, node):
        node.elts = [self.visit(x) for x in node.elts]
        ls = ast.List(elts=node.elts, ctx=ast.Load())
        call = ast.Call(func=ast.Name(id="_sim_set_", ctx=ast.Load()), args=[ls], keywords=[])
        ast.copy_location(ls, node)
        ast.copy_location(call, node)
        return ast.fix_missing_locations(call)

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        if not isinstance(node.slice, ast.Slice):
            node.slice = self.visit(node.slice)
        return node

    def visit_JoinedStr(self, node):
        return node


_compiled = None


def compile_package(src=None):
    """-> {module name: (code object, is_package, path)} for every module of the package in the working tree."""
    global _compiled
    if _compiled is not None:
        return _compiled
    src = src or REPO_SRC
    root = os.path.join(src, PKG)
    out = {}
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, src)[:-3].split(os.sep)
            is_pkg = rel[-1] == "__init__"
            name = ".".join(rel[:-1] if is_pkg else rel)
            with open(path, "rb") as fh:
                text = fh.read()
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(text, path)
                tree = ast.fix_missing_locations(_T().visit(tree))
                code = compile(tree, path, "exec", dont_inherit=True)
            out[name] = (code, is_pkg, path)
    _compiled = out
    return out


class _Loader:
    def __init__(self, name, code, is_pkg, path, hooks):
        self.name, self.code, self.pkg, self.path, self.hooks = name, code, is_pkg, path, hooks

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__.update(self.hooks)
        exec(self.code, module.__dict__)


class Finder:
    def __init__(self, hooks):
        self.hooks = hooks
        self.mods = compile_package()

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        ent = self.mods.get(name)
        if ent is None:
            return None
        from importlib.machinery import ModuleSpec

        code, is_pkg, p = ent
        spec = ModuleSpec(name, _Loader(name, code, is_pkg, p, self.hooks), origin=p, is_package=is_pkg)
        spec.has_location = True
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec


def purge():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]


def install(hooks):
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    sys.meta_path.insert(0, Finder(hooks))
