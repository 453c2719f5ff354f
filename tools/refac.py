#!/opt/venv/bin/python
"""Behaviour-preserving rewriting of the whole library, and the checks on the result (they must stay quiet).

refac.py make DIR T[,T...]     write a rewritten copy of /repo to DIR
refac.py tests DIR             the repository's tests on it
refac.py check DIR [Cxx ...]   the quick checks on it
"""
import ast, copy, glob, os, shutil, subprocess, sys, tempfile, re

PY = "/opt/venv/bin/python"
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Subscript)) for x in ast.walk(e))


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = None

    def fresh(self, stem):
        self.n += 1
        return f"{stem}_{self.n}"

    def visit_ClassDef(self, node):
        old, self.fn = self.fn, None
        node.body = [self.visit(b) if isinstance(b, (*FN, ast.ClassDef)) else b for b in node.body]
        self.fn = old
        return node

    def visit_Module(self, node):
        node.body = [self.visit(b) if isinstance(b, (*FN, ast.ClassDef)) else b for b in node.body]
        return node

    def visit_FunctionDef(self, node):
        old, self.fn = self.fn, node
        node = self.function(node)
        self.fn = old
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def function(self, node):
        node.body = self.block(node.body)
        return node

    def block(self, body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and getattr(s, f) and not isinstance(s, (*FN, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            for h in getattr(s, "cases", []):
                h.body = self.block(h.body)
            if isinstance(s, (*FN, ast.ClassDef)):
                out.append(self.visit(s))
            else:
                r = self.stmt(s)
                out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s):
        return s


class Rename(Base):
    def function(self, node):
        params, stored, banned = set(), set(), set()
        for x in ast.walk(node):
            if isinstance(x, ast.arg):
                params.add(x.arg)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stored.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                banned |= set(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                banned.add(x.name)
            elif isinstance(x, (*FN, ast.ClassDef)) and x is not node:
                banned.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                banned |= {a.asname or a.name for a in x.names}
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                banned.add(x.name)
        ren = {n for n in stored - params - banned if not n.startswith("__") and not n.endswith("_rn")}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id += "_rn"
        return node


class Invert(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            s.test = ast.UnaryOp(ast.Not(), s.test)
            s.body, s.orelse = s.orelse, s.body
        return s


class SwapCmp(Base):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def function(self, node):
        for x in ast.walk(node):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in self.M and pure(x):
                x.ops = [self.M[type(x.ops[0])]()]
                x.left, x.comparators = x.comparators[0], [x.left]
        return node


class Unchain(Base):
    def function(self, node):
        class T(ast.NodeTransformer):
            def visit_Compare(self, x):
                self.generic_visit(x)
                if len(x.ops) == 2 and pure(x.comparators[0]):
                    return ast.BoolOp(ast.And(), [ast.Compare(x.left, [x.ops[0]], [x.comparators[0]]), ast.Compare(copy.deepcopy(x.comparators[0]), [x.ops[1]], [x.comparators[1]])])
                return x
        node.body = [T().visit(b) for b in node.body]
        return node


class Nest(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            vals = s.test.values
            if any(isinstance(x, ast.NamedExpr) for v in vals for x in ast.walk(v)):
                return s
            for v in reversed(vals[1:]):
                s.body = [ast.If(v, s.body, [])]
            s.test = vals[0]
        return s


class Ternary(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return ast.If(s.value.test, [ast.Assign(copy.deepcopy(s.targets), s.value.body, lineno=0)], [ast.Assign(s.targets, s.value.orelse, lineno=0)])
        return s


class Temps(Base):
    def stmt(self, s):
        def t(e):
            n = self.fresh("tmp")
            return ast.Assign([ast.Name(n, ast.Store())], e, lineno=0), ast.Name(n, ast.Load())
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
            a, n = t(s.value)
            s.value = n
            return [a, s]
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
            a, n = t(s.test)
            s.test = n
            return [a, s]
        if isinstance(s, (ast.For,)) and not isinstance(s.iter, (ast.Name, ast.Constant)):
            a, n = t(s.iter)
            s.iter = n
            return [a, s]
        return s

    def block(self, body):
        return super().block(body)


class NoElse(Base):
    """if c: ...return / else: rest  ->  flat; and the other way round for the flat ones."""
    def block(self, body):
        body = super().block(body)
        out = []
        for i, s in enumerate(body):
            ends = isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            if ends and s.orelse:
                tail, s.orelse = s.orelse, []
                return out + [s, *tail, *body[i + 1:]]
            if ends and not s.orelse and i + 1 < len(body):
                s.orelse = self.rest(body[i + 1:])
                return out + [s]
            out.append(s)
        return out

    def rest(self, body):
        out = []
        for i, s in enumerate(body):
            ends = isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            if ends and not s.orelse and i + 1 < len(body):
                s.orelse = self.rest(body[i + 1:])
                return out + [s]
            out.append(s)
        return out


class WhileTrue(Base):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            s.body = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []), *s.body]
            s.test = ast.Constant(True)
        return s


class CompLoop(Base):
    def gen(self, g, inner):
        for c in reversed(g.generators):
            if c.is_async:
                return None
            for i in reversed(c.ifs):
                inner = [ast.If(i, inner, [])]
            inner = [ast.For(c.target, c.iter, inner, [], lineno=0)]
        return inner

    def ok(self, g):
        names = {x.id for c in g.generators for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        used = [x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id in names]
        inside = [x.id for x in ast.walk(g) if isinstance(x, ast.Name) and x.id in names]
        args = {x.arg for x in ast.walk(self.fn) if isinstance(x, ast.arg)}
        return len(used) == len(inside) and not names & args and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(g) if x is not g)

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)):
            v = s.value
            name = None
            if isinstance(s, ast.Assign):
                if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
                    return s
                name = s.targets[0].id
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v)):
                    return s
            n = name or self.fresh("acc")
            if isinstance(v, ast.ListComp) and self.ok(v):
                out = [ast.Assign([ast.Name(n, ast.Store())], ast.List([], ast.Load()), lineno=0),
                       *self.gen(v, [ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "append", ast.Load()), [v.elt], []))])]
            elif isinstance(v, ast.SetComp) and self.ok(v):
                out = [ast.Assign([ast.Name(n, ast.Store())], ast.Call(ast.Name("set", ast.Load()), [], []), lineno=0),
                       *self.gen(v, [ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "add", ast.Load()), [v.elt], []))])]
            elif isinstance(v, ast.DictComp) and self.ok(v):
                out = [ast.Assign([ast.Name(n, ast.Store())], ast.Dict([], []), lineno=0),
                       *self.gen(v, [ast.Assign([ast.Subscript(ast.Name(n, ast.Load()), v.key, ast.Store())], v.value, lineno=0)])]
            elif isinstance(s, ast.Return) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all") and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp) and self.ok(v.args[0]):
                e = v.args[0].elt
                t = e if v.func.id == "any" else ast.UnaryOp(ast.Not(), e)
                return [*self.gen(v.args[0], [ast.If(t, [ast.Return(ast.Constant(v.func.id == "any"))], [])]), ast.Return(ast.Constant(v.func.id != "any"))]
            else:
                return s
            return out + ([ast.Return(ast.Name(n, ast.Load()))] if name is None else [])
        return s


class Aug(Base):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and isinstance(s.target, (ast.Name, ast.Attribute)):
            l = copy.deepcopy(s.target)
            for x in ast.walk(l):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(l, s.op, s.value), lineno=0)
        return s


class Wrap(Base):
    """Every function's body moves into a helper of the same class or module."""
    def bodies(self, body, cls):
        out = []
        for b in body:
            if isinstance(b, ast.ClassDef):
                b.body = self.bodies(b.body, b)
                out.append(b)
            elif isinstance(b, FN) and self.okfn(b, cls):
                out += self.split(b, cls)
            else:
                out.append(b)
        return out

    def visit_Module(self, node):
        node.body = self.bodies(node.body, None)
        return node

    def okfn(self, b, cls):
        if b.name.startswith("__") or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(b)) or b.args.posonlyargs:
            return False
        decs = [ast.unparse(d) for d in b.decorator_list]
        if any(d not in ("staticmethod", "classmethod", "property") for d in decs):
            return False
        if cls and any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(b)):
            return False
        if cls and any("Enum" in ast.unparse(x) or "BaseModel" in ast.unparse(x) for x in cls.bases):
            return False
        if "abstract" in "".join(decs):
            return False
        body = b.body[1:] if isinstance(b.body[0], ast.Expr) and isinstance(b.body[0].value, ast.Constant) else b.body
        return len(body) > 1

    def split(self, b, cls):
        inner = copy.deepcopy(b)
        inner.name = f"_{b.name.lstrip('_')}_body"
        inner.decorator_list = [d for d in inner.decorator_list if ast.unparse(d) != "property"]
        a = inner.args
        a.defaults, a.kw_defaults = [], [None] * len(a.kwonlyargs)
        doc = [b.body[0]] if isinstance(b.body[0], ast.Expr) and isinstance(b.body[0].value, ast.Constant) else []
        inner.body = inner.body[len(doc):]
        decs = [ast.unparse(d) for d in b.decorator_list]
        names = [x.arg for x in b.args.args]
        if cls and "staticmethod" not in decs:
            f = ast.Attribute(ast.Name(names[0], ast.Load()), inner.name, ast.Load())
            names = names[1:]
        elif cls:
            f = ast.Attribute(ast.Name(cls.name, ast.Load()), inner.name, ast.Load())
        else:
            f = ast.Name(inner.name, ast.Load())
        args = [ast.Name(n, ast.Load()) for n in names] + ([ast.Starred(ast.Name(b.args.vararg.arg, ast.Load()), ast.Load())] if b.args.vararg else [])
        kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in b.args.kwonlyargs] + ([ast.keyword(None, ast.Name(b.args.kwarg.arg, ast.Load()))] if b.args.kwarg else [])
        call = ast.Call(f, args, kws)
        if isinstance(b, ast.AsyncFunctionDef):
            call = ast.Await(call)
        b.body = [*doc, ast.Return(call)]
        return [inner, b]


class LoopBody(Base):
    """Top statements of loop bodies without break/continue/return/await move into a nested function."""
    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)) and isinstance(s, ast.For):
            bad = (ast.Break, ast.Continue, ast.Return, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, *FN, ast.Try)
            if any(isinstance(x, bad) for b in s.body for x in ast.walk(b)):
                return s
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b) ):
                stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                total = [x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id in stored]
                mine = [x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id in stored]
                if len(total) != len(mine):
                    return s
            n = self.fresh("step")
            params = sorted({x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)})
            f = ast.FunctionDef(n, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), s.body, [], None, lineno=0, type_params=[])
            s.body = [ast.Expr(ast.Call(ast.Name(n, ast.Load()), [ast.Name(p, ast.Load()) for p in params], []))]
            return [f, s]
        return s


class Enum_(Base):
    """for x in xs -> for _i, x in enumerate(xs)"""
    def stmt(self, s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
            s.target = ast.Tuple([ast.Name(self.fresh("idx"), ast.Store()), s.target], ast.Store())
        return s


class InOr(Base):
    def function(self, node):
        class T(ast.NodeTransformer):
            def visit_Compare(self, x):
                self.generic_visit(x)
                if len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], (ast.Tuple, ast.Set, ast.List)) and pure(x.left) and x.comparators[0].elts:
                    neg = isinstance(x.ops[0], ast.NotIn)
                    parts = [ast.Compare(copy.deepcopy(x.left), [ast.NotEq() if neg else ast.Eq()], [e]) for e in x.comparators[0].elts]
                    return parts[0] if len(parts) == 1 else ast.BoolOp(ast.And() if neg else ast.Or(), parts)
                return x
        node.body = [T().visit(b) for b in node.body]
        return node


class Not(Base):
    """De Morgan on if tests; x is None first."""
    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp):
            op = ast.And() if isinstance(s.test.op, ast.Or) else ast.Or()
            if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
        return s


class Alias(Base):
    """self.x used twice or more, never stored and no call in between... only within one simple statement."""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            pre = []
            for i, a in enumerate(s.value.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.JoinedStr)) and not any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Starred)) for x in ast.walk(s)):
                    n = self.fresh("arg")
                    pre.append(ast.Assign([ast.Name(n, ast.Store())], a, lineno=0))
                    s.value.args[i] = ast.Name(n, ast.Load())
                elif not isinstance(a, (ast.Constant, ast.Name)):
                    break
            return pre + [s]
        return s


T = {k.lower().rstrip("_"): c for k, c in list(globals().items()) if isinstance(c, type) and issubclass(c, Base) and c is not Base}


def make(dst, ts, only=None):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    subprocess.run(["cp", "-a", "/repo/.", dst], check=True)
    for f in sorted(glob.glob(dst + "/givenergy_modbus/**/*.py", recursive=True)):
        if only and not re.search(only, f):
            continue
        tree = ast.parse(open(f).read())
        for t in ts:
            tree = T[t]().visit(tree)
        open(f, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")


if __name__ == "__main__":
    what, d, *rest = sys.argv[1:]
    if what == "make":
        make(d, rest[0].split(","), rest[1] if len(rest) > 1 else None)
    elif what == "tests":
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "--maxfail=8", "-p", "no:cacheprovider", "--timeout=30", "-n", "0", "tests"] if False else [PY, "-m", "pytest", "-q", "--maxfail=8", "-p", "no:cacheprovider", "--timeout=30", "tests"],
                           cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
        print(r.stdout[-900:])
    else:
        for p in rest or [f"C{i:02d}" for i in range(1, 25)]:
            ev = tempfile.mkdtemp(prefix="refev_")
            r = subprocess.run([PY, "/verif/check.py", "--property", p, "--tier", "quick"], env=dict(os.environ, VF_REPO=d, VF_EVIDENCE=ev, VERIF_SEED="1"), capture_output=True, text=True, cwd="/verif")
            shutil.rmtree(ev)
            lines = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "#", p))]
            print(p, "exit", r.returncode, "|", "; ".join(lines)[-400:] if r.returncode == 0 else "; ".join(lines)[:600], flush=True)
