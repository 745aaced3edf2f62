"""Mechanical, semantics-preserving instrumentation of the real source and the importer.

What the instrumentation does (and all it does): for-loops consult the engine so that loops
over symbolic sequences can be summarised; list/dict displays and comprehensions create
logged containers; attribute stores are logged; builtins that cannot see symbolic values
natively (len, range, min, ...) are replaced by symbolic-aware versions.  Nothing is dropped.
"""
from __future__ import annotations
import ast, builtins, copy, sys, os, types, importlib
from . import terms as T
from .core import ENG, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


def assigned_names(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split(".")[0]
                if nm not in out:
                    out.append(nm)
        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes:
        v.visit(n)
    return out


class Tr(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.infunc = 0
        self.cnt = 0
        self.scopes = [set()]

    def nm(self, p):
        self.cnt += 1
        return "_V_%s%d" % (p, self.cnt)

    def call(self, meth, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id="_V_eng", ctx=ast.Load()), attr=meth,
                                           ctx=ast.Load()), args=list(args), keywords=[])

    # functions -----------------------------------------------------------
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.infunc += 1
        g = set()
        for s in ast.walk(n):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                g |= set(s.names)
        self.scopes.append(g)
        saved_fd = getattr(self, "fd", None)
        if saved_fd is None:
            self.fd = copy.deepcopy(n)
        self.qual = getattr(self, "qual", []) + [n.name]
        q = "%s::%s" % (self.fname, ".".join(self.qual))
        n.body = self.body(n.body)
        self.fd = saved_fd
        self.qual.pop()
        if not n.name.startswith("_V_"):
            doc = n.body[:1] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant) else []
            n.body = doc + [ast.Expr(self.call("enter", ast.Constant(q)))] + n.body[len(doc):]
        self.scopes.pop()
        self.infunc -= 1
        return n

    def visit_ClassDef(self, n):
        self.qual = getattr(self, "qual", []) + [n.name]
        saved, self.infunc = self.infunc, 0
        self.generic_visit(n)
        self.infunc = saved
        self.qual.pop()
        return n

    @staticmethod
    def append_filter(s):
        """for T in IT: [if C: continue ...] X.append(E)   or   for T in IT: if C: X.append(E)
        with a condition, X a name not read in C, E or IT:   X.extend([E for T in IT if C])"""
        if not isinstance(s, ast.For) or s.orelse:
            return None
        conds, b = [], list(s.body)
        while b and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Continue):
            conds.append(ast.UnaryOp(ast.Not(), b[0].test))
            b = b[1:]
        while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
            conds.append(b[0].test)
            b = b[0].body
        if not conds or len(b) != 1 or not isinstance(b[0], ast.Expr) or not isinstance(b[0].value, ast.Call):
            return None
        c = b[0].value
        if not (isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name)
                and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred)):
            return None
        x = c.func.value.id
        if x.startswith("_V_"):
            return None
        for part in [s.target, s.iter, c.args[0]] + conds:
            for y in ast.walk(part):
                if isinstance(y, ast.Name) and y.id == x or isinstance(y, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda)):
                    return None
        names = {y.id for y in ast.walk(s.target) if isinstance(y, ast.Name)}
        if x in names or not all(isinstance(y, (ast.Name, ast.Tuple, ast.Store)) for y in ast.walk(s.target)):
            return None
        comp = ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, conds, 0)])
        r = ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "extend", ast.Load()), [comp], []))
        return names, ast.fix_missing_locations(ast.copy_location(r, s))

    def reads_outside(self, s, names):
        """is one of the names read in the outermost function anywhere but inside this loop"""
        count = lambda t: sum(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in names for y in ast.walk(t))
        return self.fd is None or count(self.fd) != count(s)

    def body(self, stmts):
        out = []
        if self.infunc:
            new = []
            for q, s in enumerate(stmts):
                r = self.append_filter(s)
                # the loop variables must not be read afterwards
                if r is not None and not self.reads_outside(s, r[0]):
                    s = r[1]
                new.append(s)
            stmts = new
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_AnnAssign(self, n):
        if self.infunc:
            if n.value is None:
                return None
            return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    # loops ---------------------------------------------------------------
    def visit_For(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        sid = "%s:%s" % (self.fname, "for#%d" % self._loopno())
        mods = [m for m in assigned_names([n.target] + n.body) if m not in self.scopes[-1]]
        it = self.visit(n.iter)
        tgt_assign = self.visit(ast.Assign(targets=[n.target], value=ast.Name(id="_V_x", ctx=ast.Load())))
        body = self.body(n.body)
        orelse = [self.visit(s) for s in n.orelse]
        flat = []
        for s in orelse:
            flat += s if isinstance(s, list) else [s]
        lp = self.nm("lp")
        L = ast.Name(id=lp, ctx=ast.Load())

        def meth(m, *a):
            return ast.Call(func=ast.Attribute(value=L, attr=m, ctx=ast.Load()), args=list(a), keywords=[])
        loc = ast.Call(func=ast.Name(id="_V_locals", ctx=ast.Load()), args=[], keywords=[])
        init = ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())],
                          value=self.call("loop", it, ast.Constant(sid), loc,
                                          ast.Constant(tuple(mods))))
        restore = ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=m, ctx=ast.Store()) for m in mods],
                                                ctx=ast.Store())], value=meth("vals"))
        ta = tgt_assign if isinstance(tgt_assign, list) else [tgt_assign]
        for s in ta:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == "_V_x":
                    x.id = lp + "x"
        geti = ast.Assign(targets=[ast.Name(id=lp + "x", ctx=ast.Store())], value=meth("item"))
        import copy
        w = ast.While(test=meth("next", loc), body=[restore, geti] + ta + body,
                      orelse=[copy.deepcopy(restore)] + flat)
        return [ast.copy_location(init, n), ast.copy_location(w, n)]

    def _loopno(self):
        self.cnt += 1
        return self.cnt

    def visit_While(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        sid = "%s:while#%d" % (self.fname, self._loopno())
        n.test = self.visit(n.test)
        n.body = [ast.Expr(self.call("tick", ast.Constant(sid)))] + self.body(n.body)
        n.orelse = self.body(n.orelse) if n.orelse else []
        return n

    # comprehensions --------------------------------------------------------
    def cond(self, e):
        """a comprehension's condition, without deciding it"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ast.copy_location(self.call("lnot", self.cond(e.operand)), e)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            r = self.call("member", e.left, e.comparators[0])
            return ast.copy_location(r if isinstance(e.ops[0], ast.In) else self.call("lnot", r), e)
        return e

    def comp(self, n, kind):
        if not self.infunc and not getattr(self, "force", False):
            self.generic_visit(n)
            return n
        fn = self.nm("comp")
        if kind == "dict":
            leaf = ast.Assign(targets=[ast.Subscript(value=ast.Name(id="_V_r", ctx=ast.Load()),
                                                     slice=n.key, ctx=ast.Store())], value=n.value)
            init = self.call("mkdict", ast.Constant(None))
        else:
            m = "add" if kind == "set" else "append"
            leaf = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id="_V_r", ctx=ast.Load()),
                                                        attr=m, ctx=ast.Load()), args=[n.elt], keywords=[]))
            init = self.call("mkset", ast.Constant(None)) if kind == "set" else \
                self.call("mklist", ast.Constant(None))
        pre = []
        g0 = n.generators[0]
        if kind in ("list", "set") and len(n.generators) == 1 and not any(
                isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            pre = ast.parse("_V_f = 0\nif _V_f is not None:\n    return _V_f").body
            fs = []
            for nm, e in [("_V_e", n.elt)] + [("_V_c%d" % q, c) for q, c in enumerate(g0.ifs)]:
                d = ast.parse("def %s(_V_x):\n    _V_t = _V_x\n    return _V_y" % nm).body[0]
                d.body[0].targets = [copy.deepcopy(g0.target)]
                d.body[1].value = self.cond(copy.deepcopy(e)) if nm != "_V_e" else copy.deepcopy(e)
                fs.append(d)
            pre[0].value = self.call("filtered", ast.Constant(kind), ast.Name(id="_V_it", ctx=ast.Load()), *[
                ast.Name(id=d.name, ctx=ast.Load()) for d in fs])
            pre = fs + pre
        st = [leaf]
        for gi, g in enumerate(reversed(n.generators)):
            for c in reversed(g.ifs):
                st = [ast.If(test=c, body=st, orelse=[])]
            it = g.iter
            if gi == len(n.generators) - 1:
                it = ast.Name(id="_V_it", ctx=ast.Load())
            st = [ast.For(target=g.target, iter=it, body=st, orelse=[])]
        fd = ast.FunctionDef(name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_V_it")],
                                                         kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=pre + [ast.Assign(targets=[ast.Name(id="_V_r", ctx=ast.Store())], value=init)]
                             + st + [ast.Return(ast.Name(id="_V_r", ctx=ast.Load()))],
                             decorator_list=[])
        ast.copy_location(fd, n)
        ast.fix_missing_locations(fd)
        first = n.generators[0].iter
        self.pending.append(self.visit_FunctionDef(fd))
        return ast.copy_location(ast.Call(func=ast.Name(id=fn, ctx=ast.Load()),
                                          args=[self.visit(first)], keywords=[]), n)

    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "list")

    def visit_SetComp(self, n):
        return self.comp(n, "set")

    def visit_DictComp(self, n):
        return self.comp(n, "dict")

    def visit_Lambda(self, n):
        # comprehensions inside lambdas: turn the lambda into a nested function
        has = any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))
                  for x in ast.walk(n.body))
        if has and self.infunc:
            fn = self.nm("lam")
            fd = ast.FunctionDef(name=fn, args=n.args, body=[ast.Return(n.body)], decorator_list=[])
            ast.copy_location(fd, n)
            ast.fix_missing_locations(fd)
            self.pending.append(self.visit_FunctionDef(fd))
            return ast.copy_location(ast.Name(id=fn, ctx=ast.Load()), n)
        self.generic_visit(n)
        return n

    # statements: hoist pending comprehension functions just before -------------
    def visit(self, node):
        if isinstance(node, ast.stmt) and self.infunc and not isinstance(
                node, (ast.FunctionDef, ast.ClassDef)):
            saved = getattr(self, "pending", [])
            self.pending = []
            r = super().visit(node)
            mine = self.pending
            self.pending = saved
            if mine:
                r = r if isinstance(r, list) else ([r] if r is not None else [])
                return mine + r
            return r
        return super().visit(node)

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.body(n.body)
        n.orelse = self.body(n.orelse) if n.orelse else []
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.body(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.body(n.body)
        for h in n.handlers:
            h.body = self.body(h.body)
        n.orelse = self.body(n.orelse) if n.orelse else []
        n.finalbody = self.body(n.finalbody) if n.finalbody else []
        return n

    # displays ------------------------------------------------------------------
    def visit_List(self, n):
        star = isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts)
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc:
            if star:
                n = ast.Tuple([ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(
                    e, ast.Starred) else e], ast.Load()) for e in n.elts], ast.Load())
                return ast.copy_location(self.call("starlist", n), n)
            return ast.copy_location(self.call("mklist", n), n)
        return n

    def visit_Call(self, n):
        f = n.func
        if self.infunc and isinstance(f, ast.Name) and f.id == "next" and len(n.args) == 2 and not n.keywords and isinstance(
                n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1 and isinstance(n.args[1], (ast.Constant, ast.Name)):
            # the first element of a generator: a loop that returns it
            g = n.args[0].generators[0]
            st = [ast.Return(n.args[0].elt)]
            for c in reversed(g.ifs):
                st = [ast.If(test=c, body=st, orelse=[])]
            fn = self.nm("next")
            fd = ast.FunctionDef(name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_V_it"), ast.arg(arg="_V_d")], kwonlyargs=[],
                                                             kw_defaults=[], defaults=[]),
                                 body=[ast.For(target=g.target, iter=ast.Name("_V_it", ast.Load()), body=st, orelse=[]),
                                       ast.Return(ast.Name("_V_d", ast.Load()))], decorator_list=[])
            ast.copy_location(fd, n)
            ast.fix_missing_locations(fd)
            first, dflt = self.visit(g.iter), self.visit(n.args[1])
            self.pending.append(self.visit_FunctionDef(fd))
            return ast.copy_location(ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=[first, dflt], keywords=[]), n)
        self.generic_visit(n)
        if self.infunc and isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and not n.keywords \
                and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(self.call("join", f.value, n.args[0]), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.infunc:
            return ast.copy_location(self.call("mkdict", n), n)
        return n

    # attribute stores -------------------------------------------------------------
    def visit_Assign(self, n):
        if self.infunc:
            n.value = self.visit(n.value)
            simple = []
            post = []
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    post.append(t)
                elif isinstance(t, (ast.Tuple, ast.List)) and any(
                        isinstance(x, ast.Attribute) for x in ast.walk(t)
                        if isinstance(getattr(x, "ctx", None), ast.Store)):
                    post.append(t)
                else:
                    simple.append(self.visit(t))
            if not post:
                n.targets = simple
                return n
            tmp = self.nm("t")
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())] + simple, value=n.value)]
            for t in post:
                out += self.store(t, ast.Name(id=tmp, ctx=ast.Load()))
            return [ast.copy_location(s, n) for s in out]
        self.generic_visit(n)
        return n

    def store(self, t, val):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(self.call("setattr", self.visit(t.value), ast.Constant(t.attr), val))]
        if isinstance(t, (ast.Tuple, ast.List)):
            names = [self.nm("u") for _ in t.elts]
            out = [ast.Assign(targets=[ast.Tuple(elts=[
                ast.Starred(value=ast.Name(id=nm, ctx=ast.Store()), ctx=ast.Store())
                if isinstance(e, ast.Starred) else ast.Name(id=nm, ctx=ast.Store())
                for nm, e in zip(names, t.elts)], ctx=ast.Store())], value=val)]
            for nm, e in zip(names, t.elts):
                e = e.value if isinstance(e, ast.Starred) else e
                out += self.store(e, ast.Name(id=nm, ctx=ast.Load()))
            return out
        return [ast.Assign(targets=[self.visit(t)], value=val)]

    def visit_AugAssign(self, n):
        if self.infunc and isinstance(n.target, ast.Attribute):
            o = self.nm("o")
            op = type(n.op).__name__
            s1 = ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(n.target.value))
            cur = ast.Attribute(value=ast.Name(id=o, ctx=ast.Load()), attr=n.target.attr, ctx=ast.Load())
            s2 = ast.Expr(self.call("setattr", ast.Name(id=o, ctx=ast.Load()),
                                    ast.Constant(n.target.attr),
                                    self.call("aug", ast.Constant(op), cur, self.visit(n.value))))
            return [ast.copy_location(s1, n), ast.copy_location(s2, n)]
        self.generic_visit(n)
        return n


def instrument(src, fname):
    tree = ast.parse(src)
    tr = Tr(fname)
    tr.pending = []
    tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# ------------------------------------------------------------------ importer
class World:
    """A private module table for the instrumented repo."""

    def __init__(self, stubs, bdict):
        self.mods = {}
        self.stubs = stubs
        self.overrides = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(bdict)
        self.builtins["__import__"] = self.imp
        self.sources = {}

    def path_of(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, None

    def spec(self, name):
        """A reference program (contracts/spec_src/<name>.py): same semantics, not code under test."""
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                            "contracts", "spec_src", name + ".py")
        m = types.ModuleType("spec_" + name)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_V_eng"] = ENG_API
        m.__dict__["_V_locals"] = builtins.locals
        m.__file__ = path
        exec(compile(instrument(open(path).read(), "spec/" + name + ".py"), path, "exec"), m.__dict__)
        return m

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.path_of(name)
        if pkg is None:
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_V_eng"] = ENG_API
        m.__dict__["_V_locals"] = builtins.locals
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.join(REPO, *name.split("."))]
        m.__file__ = path
        self.mods[name] = m
        if path:
            src = open(path).read()
            self.sources[path] = src
            code = compile(instrument(src, os.path.relpath(path, REPO)), path, "exec")
            prev = sys.modules.get(name)
            sys.modules[name] = m          # dataclasses/typing look their module up there
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
            finally:
                if prev is None:
                    sys.modules.pop(name, None)
                else:
                    sys.modules[name] = prev
        if "." in name:
            par, _, last = name.rpartition(".")
            setattr(self.mods[par], last, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"]
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "dattri":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods["dattri"]
        if top in self.stubs:
            m = self.stubs[top]
            if not fromlist:
                return m
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)


ENG_API = None     # set by runtime.py
