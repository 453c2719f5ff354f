"""Mechanical source instrumentation of ``givenergy_modbus`` at import time.

The transformer replaces operations CPython would decide natively (calls, truth-valued
operators, membership, subscripts, f-strings, comprehensions with filters) by calls on the
module global ``__vf__``; each hook performs the original operation when no symbolic value is
involved.  Nothing is dropped: every statement of every function still runs, in order.  The
files in /repo are never written; the transformed module only exists in memory.
"""

from __future__ import annotations

import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys

PKG = "givenergy_modbus"

_NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "breakpoint"}


def _contains(node, types):
    return any(isinstance(n, types) for n in ast.walk(node))


def _contains_super(node):
    return any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(node))


_LOGCALLS = {"debug", "info", "warning", "error", "critical", "exception", "log"}


def _no_thunk(node):
    return _contains(node, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) or _contains_super(node)


def _vf(attr):
    return ast.Attribute(ast.Name("__vf__", ast.Load()), attr, ast.Load())


def _call(attr, *args, **kw):
    return ast.Call(_vf(attr), list(args), [ast.keyword(k, v) for k, v in kw.items()])


def _mark_tests(tree):
    """Mark every and/or whose value is only ever tested for truth."""
    def mark(n):
        if isinstance(n, ast.BoolOp):
            n.vf_test = True
            for x in n.values:
                mark(x)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            mark(n.operand)

    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            mark(n.test)
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                mark(i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            mark(n.operand)


def _thunk(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


def _assigned(stmts):
    """Names bound by the statements (not entering nested scopes)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            # only walrus targets escape
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr) and w.target.id not in out:
                    out.append(w.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split(".")[0]
                if nm not in out:
                    out.append(nm)

        visit_ImportFrom = visit_Import

    v = V()
    for s in stmts:
        v.visit(s)
    return out


def _returns(stmts):
    """(returns outside nested functions and loops, returns inside nested loops)"""
    plain, nested = [], []

    def walk(n, loop):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, ast.Return):
            (nested if loop else plain).append(n)
        for ch in ast.iter_child_nodes(n):
            walk(ch, loop or isinstance(n, (ast.For, ast.While, ast.AsyncFor)))

    for st in stmts:
        walk(st, False)
    return plain, nested


def _has_flow(stmts, *, returns=False):
    """break/return/yield/await/del/try/global inside, outside nested function scopes."""
    found = []

    class V(ast.NodeVisitor):
        def __init__(self):
            self.loop = 0

        def visit_For(self, n):
            self.loop += 1
            self.generic_visit(n)
            self.loop -= 1

        visit_While = visit_For

        def visit_Break(self, n):
            if not self.loop:
                found.append(n)

        def hit(self, n):
            found.append(n)

        def visit_Return(self, n):
            if not returns:
                found.append(n)

        visit_Yield = visit_YieldFrom = visit_Await = visit_Delete = visit_Global = visit_Nonlocal = hit
        visit_AsyncFor = visit_AsyncWith = visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = hit
        visit_Import = visit_ImportFrom = visit_NamedExpr = hit

        def visit_Lambda(self, n):
            pass

    v = V()
    for s in stmts:
        v.visit(s)
    return bool(found)


class _ContinueToReturn(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(None), n)

    def visit_For(self, n):
        return n  # inner loops keep their own continue

    visit_While = visit_AsyncFor = visit_For

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Tuple([n.value or ast.Constant(None)], ast.Load())), n)

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_FunctionDef


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []  # qualname parts
        self.fn_depth = 0
        self.tmp = 0
        self.fn_locals = []
        self.fn_nodes = []
        self.in_contract_copy = 0
        self.in_merge = 0

    # -- scopes -------------------------------------------------------------------------
    def _qual(self):
        return ".".join(self.stack)

    def visit_Module(self, node):
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            else:
                body.append(r)
        node.body = body
        return node

    def _shimmed(self, node):
        out = [node]
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.name in ("struct", "re", "json"):
                    nm = a.asname or a.name
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], _call("module", ast.Name(nm, ast.Load()))))
        elif isinstance(node, ast.ImportFrom) and not node.level and node.module in ("struct", "re", "json"):
            for a in node.names:
                nm = a.asname or a.name
                out.append(ast.Assign([ast.Name(nm, ast.Store())],
                                      _call("from_module", ast.Constant(node.module), ast.Constant(a.name))))
        for n in out[1:]:
            ast.copy_location(n, node)
            ast.fix_missing_locations(n)
        return out if len(out) > 1 else node

    visit_Import = _shimmed
    visit_ImportFrom = _shimmed

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        saved = self.fn_depth
        self.fn_depth = 0
        node.body = self._stmts(node.body)
        self.fn_depth = saved
        self.stack.pop()
        return node

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def _function(self, node):
        # decorators / defaults / annotations evaluate in the enclosing scope: left alone,
        # except lambdas inside them
        self.stack.append(node.name)
        saved = self.fn_depth
        self.fn_depth = 1
        args = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        if node.args.vararg:
            args.append(node.args.vararg.arg)
        if node.args.kwarg:
            args.append(node.args.kwarg.arg)
        glob = [n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names]
        self.fn_locals.append({*args, *_assigned(node.body)} - set(glob))
        self.fn_nodes.append(node)
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        new = self._stmts(body)
        enter = ast.Expr(_call("enter", ast.Constant(f"{self.mod}:{self._qual()}")))
        if node.body:
            ast.copy_location(enter, node.body[0])
        ast.fix_missing_locations(enter)
        node.body = doc + [enter] + new
        self.fn_locals.pop()
        self.fn_nodes.pop()
        self.fn_depth = saved
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        saved = self.fn_depth
        self.fn_depth = 1
        node.body = self.visit(node.body)
        self.fn_depth = saved
        return node

    def _loc(self, new, old):
        ast.copy_location(new, old)
        ast.fix_missing_locations(new)
        return new

    # -- expressions ----------------------------------------------------------------------
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        if self.fn_depth and isinstance(node.target, ast.Name):
            # annotations of function locals are never evaluated
            if node.value is None:
                return self._loc(ast.If(ast.Constant(False), [ast.Assign([node.target], ast.Constant(None))], []), node)
            return self._loc(ast.Assign([node.target], node.value), node)
        if self.fn_depth and isinstance(node.target, ast.Call):  # subscript store became a call
            raise SyntaxError("annotated subscript store")
        return node

    def visit_Expr(self, node):
        c = node.value
        if self.fn_depth and isinstance(c, ast.Call) and not _no_thunk(c):
            fs = [c.func.body, c.func.orelse] if isinstance(c.func, ast.IfExp) else [c.func]
            if all(isinstance(f, ast.Attribute) and f.attr in _LOGCALLS for f in fs):
                import copy

                func = self.visit(copy.deepcopy(c.func))
                self.generic_visit(node)
                node.value = self._loc(_call("log", _thunk(func), _thunk(node.value)), c)
                return node
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.fn_depth:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
            return node
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "__vf__":
            return node
        return self._loc(ast.Call(_vf("call"), [node.func, *node.args], node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.fn_depth:
            return node
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                # operands evaluate left to right: keep the order
                return self._loc(_call("in_", a, b), node)
            if isinstance(op, ast.NotIn):
                return self._loc(_call("not_in_", a, b), node)
            none = isinstance(b, ast.Constant) and b.value is None
            if isinstance(op, ast.Is):
                return self._loc(_call("is_none", a) if none else _call("is_", a, b), node)
            if isinstance(op, ast.IsNot):
                return self._loc(_call("is_not_none", a) if none else _call("is_not", a, b), node)
            if isinstance(op, ast.Eq):
                return self._loc(_call("eq", a, b), node)
            if isinstance(op, ast.NotEq):
                return self._loc(_call("ne", a, b), node)
            return node
        if any(_no_thunk(c) for c in node.comparators):
            return node
        args = [node.left]
        for op, c in zip(node.ops, node.comparators):
            args += [ast.Constant(type(op).__name__), _thunk(c)]
        return self._loc(_call("chain", *args), node)

    def visit_BoolOp(self, node):
        skip = any(_no_thunk(v) for v in node.values)
        self.generic_visit(node)
        if not self.fn_depth or skip:
            return node
        name = "and_" if isinstance(node.op, ast.And) else "or_"
        return self._loc(_call(name + ("t" if getattr(node, "vf_test", False) else ""), *[_thunk(v) for v in node.values]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.fn_depth and isinstance(node.op, ast.Not):
            return self._loc(_call("not_", node.operand), node)
        return node

    def visit_IfExp(self, node):
        skip = _no_thunk(node.body) or _no_thunk(node.orelse)
        self.generic_visit(node)
        if not self.fn_depth or skip:
            return node
        return self._loc(_call("ifexp", node.test, _thunk(node.body), _thunk(node.orelse)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn_depth and isinstance(node.op, ast.Mod) and not isinstance(node.right, ast.Constant):
            return self._loc(_call("mod", node.left, node.right), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(_vf("slice"), [s.lower or n, s.upper or n, s.step or n], [])
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.fn_depth or not isinstance(node.ctx, ast.Load):
            return node
        if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts):
            return node
        return self._loc(_call("getitem", node.value, self._slice(node.slice)), node)

    def visit_JoinedStr(self, node):
        if not self.fn_depth:
            return node
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            else:
                v = self.visit(p.value)
                spec = ast.Constant("") if p.format_spec is None else self.visit(p.format_spec)
                parts.append(ast.Tuple([v, ast.Constant(p.conversion), spec], ast.Load()))
        return self._loc(_call("fstr", *parts), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if self.fn_depth and isinstance(node.ctx, ast.Load) and not node.elts:
            return self._loc(_call("mklist"), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.fn_depth or any(k is None for k in node.keys):
            return node
        if not node.keys:
            return self._loc(_call("mkdict", ast.List([], ast.Load())), node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return self._loc(_call("mkdict", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())), node)

    def _inline_walrus(self, node):
        """`[f for .. if c and (f := X) ..]` -> X in place of f, for a pure X and an f used nowhere else."""
        import copy

        ws = [n for i in node.generators[-1].ifs for n in ast.walk(i) if isinstance(n, ast.NamedExpr)]
        if len(ws) != 1 or not self.fn_nodes:
            return
        w = ws[0]
        pure = (ast.Name, ast.Subscript, ast.Constant, ast.Attribute, ast.expr_context)
        if not all(isinstance(n, pure) for n in ast.walk(w.value)):
            return
        count = lambda t: sum(1 for n in ast.walk(t) if isinstance(n, ast.Name) and n.id == w.target.id)  # noqa: E731
        if count(self.fn_nodes[-1]) != count(node):
            return

        class R(ast.NodeTransformer):
            def visit_NamedExpr(self, n):
                return self.visit(n.value)

            def visit_Name(self, n):
                return copy.deepcopy(w.value) if n.id == w.target.id and isinstance(n.ctx, ast.Load) else n

        last = node.generators[-1]
        last.ifs = [R().visit(i) for i in last.ifs]
        for f in ("elt", "key", "value"):
            if hasattr(node, f):
                setattr(node, f, R().visit(getattr(node, f)))

    def _comp(self, node, kind):
        if self.fn_depth:
            self._inline_walrus(node)
        last = node.generators[-1]
        bad = any(g.is_async for g in node.generators) or _contains(node, (ast.Await, ast.NamedExpr, ast.Yield)) or _contains_super(node)
        filtered = bool(last.ifs)
        self.generic_visit(node)
        if not self.fn_depth or bad:
            return node
        if not filtered and kind != "dictcomp":
            return self._map_comp(node, kind)
        if len(node.generators) == 1:
            last.iter = _call("guard_iter", last.iter)
        if filtered:
            cond = last.ifs[0] if len(last.ifs) == 1 else _call("and_t", *[_thunk(i) for i in last.ifs])
            last.ifs = []
        else:
            cond = ast.Constant(True)
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == "dictcomp" else node.elt
        gen = ast.GeneratorExp(ast.Tuple([_thunk(cond), _thunk(elt)], ast.Load()), node.generators)
        return self._loc(_call(kind, gen), node)

    def _map_comp(self, node, kind):
        """Unfiltered comprehension over one source: evaluated per guarded member when the source is a guarded list."""
        import copy

        if len(node.generators) != 1 or isinstance(node.generators[0].iter, (ast.List, ast.Tuple, ast.Constant)):
            return node
        src = node.generators[0].iter
        plain, per = copy.deepcopy(node), copy.deepcopy(node)
        plain.generators[0].iter = ast.Name("__vf_src", ast.Load())
        per.generators[0].iter = ast.Name("__vf_src", ast.Load())
        per = ast.GeneratorExp(ast.Tuple([_thunk(ast.Constant(True)), _thunk(per.elt)], ast.Load()), per.generators)
        args = ast.arguments(posonlyargs=[], args=[ast.arg("__vf_src")], kwonlyargs=[], kw_defaults=[], defaults=[])
        return self._loc(_call("map_comp", ast.Constant(kind), src, ast.Lambda(args, plain), ast.Lambda(copy.deepcopy(args), per)), node)

    def visit_ListComp(self, node):
        return self._comp(node, "listcomp")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "genexp")

    def visit_SetComp(self, node):
        return self._comp(node, "setcomp")

    def visit_DictComp(self, node):
        return self._comp(node, "dictcomp")

    # -- statements -----------------------------------------------------------------------
    def _tmpname(self):
        self.tmp += 1
        return f"__vf_t{self.tmp}"

    def visit_Assign(self, node):
        if self.fn_depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            val = self.visit(node.value)
            base = self.visit(t.value)
            key = self._slice(self.visit(t.slice))
            # Python evaluates the right-hand side first
            return self._loc(ast.Expr(_call("assign_item", val, base, key)), node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if self.fn_depth and isinstance(node.target, ast.Subscript):
            t = node.target
            a, b, c = self._tmpname(), self._tmpname(), self._tmpname()
            st = lambda n: ast.Name(n, ast.Store())  # noqa: E731
            ld = lambda n: ast.Name(n, ast.Load())  # noqa: E731
            out = [
                ast.Assign([st(a)], self.visit(t.value)),
                ast.Assign([st(b)], self._slice(self.visit(t.slice))),
                ast.Assign([st(c)], _call("getitem", ld(a), ld(b))),
                ast.AugAssign(st(c), node.op, self.visit(node.value)),
                ast.Expr(_call("setitem", ld(a), ld(b), ld(c))),
            ]
            return [self._loc(o, node) for o in out]
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        if not self.fn_depth:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(self._loc(ast.Expr(_call("delitem", self.visit(t.value), self._slice(self.visit(t.slice)))), node))
            else:
                out.append(self._loc(ast.Delete([self.visit(t)]), node))
        return out

    # loops -------------------------------------------------------------------------------
    def _loop_copies(self, node):
        import copy

        return copy.deepcopy(node)

    def visit_While(self, node):
        if not self.fn_depth or self.in_contract_copy or self.in_merge:
            self.generic_visit(node)
            return node
        orig = self._loop_copies(node)
        names = _assigned([node])
        self.generic_visit(node)  # native copy
        lp = self._tmpname()
        self.in_contract_copy += 1
        test = self.visit(orig.test)
        body = self._stmts(orig.body)
        orelse = self._stmts(orig.orelse)
        self.in_contract_copy -= 1
        once = ast.For(ast.Name("__vf_once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()), body,
                       [ast.Expr(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "back", ast.Load()), [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))])
        contract = [*self._havoc(lp, names),
                    ast.If(test, [once], orelse or [ast.Pass()])]
        out = [
            ast.Assign([ast.Name(lp, ast.Store())], self._loop_call("while", names, None)),
            ast.If(ast.Compare(ast.Name(lp, ast.Load()), [ast.Is()], [ast.Constant(None)]), [node], contract),
        ]
        return [self._loc(o, node) for o in out]

    def _loop_call(self, kind, names, it):
        site = ast.Tuple([ast.Constant(self.mod), ast.Constant(self._qual()), ast.Constant(kind),
                          ast.Tuple([ast.Constant(n) for n in names], ast.Load())], ast.Load())
        return _call("loop", site, it or ast.Constant(None), ast.Call(ast.Name("locals", ast.Load()), [], []))

    def _havoc(self, lp, names):
        loc = self.fn_locals[-1] if self.fn_locals else set()
        names = [n for n in names if n in loc]
        call = ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "head", ast.Load()),
                        [ast.Tuple([ast.Constant(n) for n in names], ast.Load()), ast.Call(ast.Name("locals", ast.Load()), [], [])], [])
        if not names:
            return [ast.Expr(call)]
        return [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], call)]

    def visit_AsyncFor(self, node):
        if not self.fn_depth or self.in_contract_copy or self.in_merge:
            self.generic_visit(node)
            return node
        orig = self._loop_copies(node)
        names = _assigned([node])
        self.generic_visit(node)  # native copy
        itn, lp = self._tmpname(), self._tmpname()
        it_expr, node.iter = node.iter, ast.Name(itn, ast.Load())
        self.in_contract_copy += 1
        body = self._stmts(orig.body)
        orelse = self._stmts(orig.orelse)
        self.in_contract_copy -= 1
        once = ast.For(ast.Name("__vf_once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                       [ast.Assign([orig.target], ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "item", ast.Load()), [], [])), *body],
                       [ast.Expr(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "back", ast.Load()), [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))])
        contract = [*self._havoc(lp, names),
                    ast.If(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "more", ast.Load()), [], []), [once], orelse or [ast.Pass()])]
        out = [ast.Assign([ast.Name(itn, ast.Store())], it_expr),
               ast.Assign([ast.Name(lp, ast.Store())], self._loop_call("async for", names, ast.Name(itn, ast.Load()))),
               ast.If(ast.Compare(ast.Name(lp, ast.Load()), [ast.Is()], [ast.Constant(None)]), [node], contract)]
        return [self._loc(o, node) for o in out]

    def visit_For(self, node):
        if not self.fn_depth:
            self.generic_visit(node)
            return node
        orig = self._loop_copies(node)
        morig = self._loop_copies(node)
        names = _assigned([node])
        loc = self.fn_locals[-1] if self.fn_locals else set()
        rets, inner_rets = _returns(node.body)
        mergeable = (not self.in_merge and not self.in_contract_copy and not node.orelse and not _has_flow(node.body, returns=True) and not inner_rets
                     and not _contains_super(node) and set(names) <= loc
                     and not any(isinstance(x, ast.For) for b in node.body for x in ast.walk(b)))  # innermost loops only
        contractable = not self.in_contract_copy and not self.in_merge
        saved_m = self.in_merge
        self.generic_visit(node)  # native copy: nested loops keep their own hooks
        if not contractable and not mergeable:
            return node
        itn, lp = self._tmpname(), self._tmpname()
        it_expr = node.iter
        node.iter = ast.Name(itn, ast.Load())
        # contract copy
        self.in_contract_copy += 1
        body = self._stmts(orig.body)
        orelse = self._stmts(orig.orelse)
        target = orig.target
        self.in_contract_copy -= 1
        once = ast.For(ast.Name("__vf_once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                       [ast.Assign([target], ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "item", ast.Load()), [], [])), *body],
                       [ast.Expr(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "back", ast.Load()), [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))])
        contract = [*self._havoc(lp, names),
                    ast.If(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "more", ast.Load()), [], []), [once], orelse or [ast.Pass()])]
        if mergeable:
            self.in_merge += 1
            mbody = self._stmts(morig.body)
            self.in_merge = saved_m
            fn, getf, putf, arg = self._tmpname(), self._tmpname(), self._tmpname(), self._tmpname()
            a0 = ast.arguments([], [ast.arg(arg)], None, [], [], None, [])
            bodyfn = ast.FunctionDef(
                fn, a0,
                [ast.Nonlocal(names), ast.Assign([morig.target], ast.Name(arg, ast.Load())),
                 *[_ContinueToReturn().visit(s) for s in mbody]], [], None, None, type_params=[])
            # getter/putter over the assigned locals plus the containers visible in the function
            keep = sorted(loc - {"self", "cls"})
            getter = ast.FunctionDef(
                getf, ast.arguments([], [], None, [], [], None, []),
                [ast.Return(_call("snap_locals", ast.Call(ast.Name("locals", ast.Load()), [], []),
                                  ast.Tuple([ast.Constant(n) for n in names], ast.Load()))),
                 ast.If(ast.Constant(False), [ast.Expr(ast.Name(n, ast.Load())) for n in keep] or [ast.Pass()], [])],
                [], None, None, type_params=[])
            putter = ast.FunctionDef(
                putf, a0 if False else ast.arguments([], [ast.arg(arg)], None, [], [], None, []),
                [ast.Nonlocal(names), ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], ast.Name(arg, ast.Load()))],
                [], None, None, type_params=[])
            merged = [*[ast.If(ast.Compare(ast.Constant(n), [ast.NotIn()], [ast.Call(ast.Name("locals", ast.Load()), [], [])]),
                               [ast.Assign([ast.Name(n, ast.Store())], _vf("UNBOUND"))], []) for n in names],
                      bodyfn, getter, putter,
                      ast.Assign([ast.Name(arg, ast.Store())],
                                 _call("merge_for", ast.Name(itn, ast.Load()), ast.Name(fn, ast.Load()), ast.Name(getf, ast.Load()), ast.Name(putf, ast.Load())))]
            if rets:
                value = ast.Subscript(ast.Name(arg, ast.Load()), ast.Constant(0), ast.Load()) if any(r.value is not None for r in rets) else None
                merged.append(ast.If(ast.Compare(ast.Name(arg, ast.Load()), [ast.IsNot()], [ast.Constant(None)]), [ast.Return(value)], []))
            native = [ast.If(_call("merging", ast.Constant(f"{self.mod}:{self._qual()}"), ast.Name(itn, ast.Load())), merged, [node])]
        else:
            native = [node]
        out = [ast.Assign([ast.Name(itn, ast.Store())], it_expr)]
        if contractable:
            out += [
                ast.Assign([ast.Name(lp, ast.Store())], self._loop_call("for", names, ast.Name(itn, ast.Load()))),
                ast.If(ast.Compare(ast.Name(lp, ast.Load()), [ast.Is()], [ast.Constant(None)]), native, contract),
            ]
        else:
            out += native
        return [self._loc(o, node) for o in out]


def transform(source, modname, filename):
    tree = ast.parse(source, filename)
    _mark_tests(tree)
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from vf import rt

        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__["__vf__"] = rt.HOOK
        code = _cached_code(src, module.__name__, self.path)
        SOURCES[module.__name__] = hashlib.sha256(src.encode()).hexdigest()
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path, encoding="utf-8") as f:
            return f.read()


SOURCES = {}


def _cached_code(src, name, path):
    return compile(transform(src, name, path), path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(self.repo, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(fullname, p, loader=_Loader(p, True), submodule_search_locations=[base])
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(p, False))
        return None


def install(repo="/repo"):
    """Instrument every later import of the library (and drop any earlier plain import)."""
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    sys.meta_path.insert(0, Finder(repo))


class ContractsFinder(importlib.abc.MetaPathFinder):
    """Contract modules run under the same instrumentation, so plain Python works in them."""

    def __init__(self, here):
        self.here = here

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("contracts."):
            return None
        p = os.path.join(self.here, *fullname.split(".")) + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(p, False))
        return None


def install_contracts(here):
    for m in [m for m in sys.modules if m.startswith("contracts.")]:
        del sys.modules[m]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, ContractsFinder)]
    sys.meta_path.insert(0, ContractsFinder(here))
