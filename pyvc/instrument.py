"""Loads lsst.skymap from /repo/python with a mechanical source transformation.

On every run each module's current source is parsed, rewritten and compiled; the
rewriting replaces constructs CPython cannot run on symbolic values (builtin
conversions, loops, comprehensions, list displays, `in`, string formatting) by calls
into rt.py that behave identically on ordinary values.  Nothing is dropped from
function bodies except annotations; docstrings stay.
"""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys

BUILTINS = {"int", "float", "bool", "len", "range", "sum", "min", "max", "abs", "round", "enumerate",
            "zip", "reversed", "sorted", "list", "tuple", "any", "all", "isinstance", "divmod", "iter",
            "next", "set", "frozenset", "str", "repr", "hash", "pow", "map", "filter", "dict", "type"}

RT = "_pyvc_rt"


# ---------------------------------------------------------------- liveness
class Names:
    """Backward liveness of local names over the statement tree."""

    def uses(self, node):
        """Names read by an expression (including inside nested scopes)."""
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                out.add(n.id)
        return out

    def binds(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out

    def block(self, stmts, live, brk=frozenset(), cont=frozenset()):
        for s in reversed(stmts):
            live = self.stmt(s, live, brk, cont)
        return live

    def expr(self, e, live):
        """live before evaluating e (walrus bindings never kill)."""
        return live | self.uses(e) if e is not None else live

    def target(self, t, live):
        if isinstance(t, ast.Name):
            return live - {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                live = self.target(x, live)
            return live
        if isinstance(t, ast.Starred):
            return self.target(t.value, live)
        return live | self.uses(t)

    def stmt(self, s, live, brk, cont):
        live = set(live)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                live = self.target(t, live)
            return self.expr(s.value, live)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return live
            return self.expr(s.value, self.target(s.target, live))
        if isinstance(s, ast.AugAssign):
            live |= self.uses(s.target) | self.binds(s.target)
            return self.expr(s.value, live)
        if isinstance(s, (ast.Return, ast.Raise)):
            out = set()
            for n in ast.iter_child_nodes(s):
                out |= self.uses(n)
            return out
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.If):
            a = self.block(s.body, live, brk, cont)
            b = self.block(s.orelse, live, brk, cont)
            return self.expr(s.test, a | b)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop_head(s, live, brk, cont) | (self.uses(s.iter) if isinstance(s, ast.For) else set())
        if isinstance(s, ast.With):
            b = self.block(s.body, live, brk, cont) | live
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    b = self.target(it.optional_vars, b)
                b = self.expr(it.context_expr, b)
            return b
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, live, brk, cont)
            els = self.block(s.orelse, fin, brk, cont)
            hs = set()
            for h in s.handlers:
                hb = self.block(h.body, fin, brk, cont)
                if h.name:
                    hb -= {h.name}
                if h.type is not None:
                    hb |= self.uses(h.type)
                hs |= hb
            # anything live in a handler is live throughout the body
            return self.block(s.body, els, brk, cont) | hs | fin
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return (live - {s.name}) | self.uses(s)
        if isinstance(s, ast.Delete):
            return live | self.uses(s)
        out = live
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                out = out | self.uses(n)
            elif isinstance(n, ast.AST):
                out = out | self.uses(n)
        return out

    def loop_head(self, s, after, brk, cont):
        """Names live at the head of the loop (before the target is bound)."""
        els = self.block(s.orelse, after, brk, cont)
        head = set(els)
        for _ in range(4):
            if isinstance(s, ast.For):
                inner = self.block(s.body, head, frozenset(after), frozenset(head))
                new = head | self.target(s.target, inner)
            else:
                inner = self.block(s.body, head, frozenset(after), frozenset(head))
                new = head | self.expr(s.test, inner)
            if new == head:
                break
            head = new
        return head


NAMES = Names()


def assigned(stmts, target=None):
    """Names bound by the statements (not inside nested functions)."""
    out = set()
    todo = list(stmts)
    if target is not None:
        todo.append(target)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        todo.extend(ast.iter_child_nodes(n))
    return out


# -------------------------------------------------------------- transformation
def rtcall(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


class Scope:
    def __init__(self, kind, locs=()):
        self.kind = kind        # "module" | "class" | "function"
        self.locals = set(locs)
        self.pre = None         # list receiving hoisted definitions
        self.collector = None   # name of the list a generator appends to


class Transform:
    def __init__(self, modname, fname):
        self.modname, self.fname = modname, fname
        self.uid = 0
        self.scopes = []
        self.keep = []

    def fresh(self, base):
        self.uid += 1
        return "_pyvc_%s%d" % (base, self.uid)

    def lid(self, node):
        # stable under edits elsewhere in the file: qualified by function and ordinal
        f = "/".join(s.name for s in self.scopes if getattr(s, "name", None))
        self.ord = getattr(self, "ord", {})
        self.ord[f] = self.ord.get(f, 0) + 1
        return "%s:%s#%d" % (self.modname.replace("lsst.skymap.", ""), f, self.ord[f])

    @property
    def scope(self):
        return self.scopes[-1]

    def infunc(self):
        return self.scope.kind == "function"

    def shadowed(self, n):
        return any(n in s.locals for s in self.scopes if s.kind != "class") or n in self.modlocals

    # ---- module
    def module(self, tree):
        self.modlocals = assigned(tree.body)
        sc = Scope("module")
        self.scopes.append(sc)
        tree.body = self.stmts(tree.body)
        self.scopes.pop()
        ast.fix_missing_locations(tree)
        return tree

    # ---- statements
    def stmts(self, body, after=None):
        out = []
        for i, s in enumerate(body):
            save = self.scope.pre
            self.scope.pre = []
            self.after = body[i + 1:]
            new = self.stmt(s)
            out.extend(self.scope.pre)
            self.scope.pre = save
            if isinstance(new, list):
                out.extend(new)
            elif new is not None:
                out.append(new)
        return out

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s)
        for f, v in ast.iter_fields(s):
            if isinstance(v, ast.expr):
                setattr(s, f, self.expr(v))
            elif isinstance(v, list):
                if v and isinstance(v[0], ast.stmt):
                    setattr(s, f, self.stmts(v))
                elif v and isinstance(v[0], ast.expr):
                    setattr(s, f, [self.expr(x) for x in v])
        return s

    def s_FunctionDef(self, s):
        s.decorator_list = [self.expr(d) for d in s.decorator_list]
        s.args.defaults = [self.expr(d) for d in s.args.defaults]
        s.args.kw_defaults = [self.expr(d) if d is not None else None for d in s.args.kw_defaults]
        s.returns = None
        for a in s.args.args + s.args.kwonlyargs + s.args.posonlyargs:
            a.annotation = None
        for a in (s.args.vararg, s.args.kwarg):
            if a is not None:
                a.annotation = None
        params = {a.arg for a in s.args.args + s.args.kwonlyargs + s.args.posonlyargs}
        params |= {a.arg for a in (s.args.vararg, s.args.kwarg) if a is not None}
        glob = set()
        for n in ast.walk(s):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
        sc = Scope("function", (assigned(s.body) | params) - glob)
        sc.name = s.name
        sc.params = params
        sc.nonlocal_ = glob
        gen = self.is_generator(s) and not any(isinstance(d, ast.Name) or isinstance(d, ast.Attribute)
                                              and d.attr == "contextmanager" for d in s.decorator_list
                                              if getattr(d, "id", getattr(d, "attr", "")).endswith("contextmanager"))
        if gen:
            sc.collector = self.fresh("out")
        sc.root = s
        doc = []
        body = s.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        self.live = getattr(self, "live", {})
        self.scopes.append(sc)
        self.compute_live(body)
        new = self.stmts(body)
        self.scopes.pop()
        if gen:
            c = sc.collector
            new = [ast.Assign(targets=[name(c, True)], value=rtcall("mklist"))] + new \
                + [ast.Return(value=rtcall("viter", name(c)))]
        q = ".".join([x.name for x in self.scopes if getattr(x, "name", None)] + [s.name])
        if not s.name.startswith("_pyvc_"):
            new = [ast.Expr(value=rtcall("mark", const(self.modname.replace("lsst.skymap.", "") + ":" + q)))] + new
        s.body = doc + new or [ast.Pass()]
        return s

    def is_generator(self, f):
        todo = list(f.body)
        ok = False
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                ok = True
                if n.value.value is not None:
                    todo.append(n.value.value)
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return False
            todo.extend(ast.iter_child_nodes(n))
        return ok

    def compute_live(self, body):
        """Names live after and at the head of every loop of the function."""
        def visit(stmts, live, brk, cont):
            for s in reversed(stmts):
                if isinstance(s, (ast.For, ast.While)):
                    head = NAMES.loop_head(s, set(live), brk, cont)
                    self.live[id(s)] = (set(head), set(live))
                    self.keep.append(s)
                    visit(s.body, head, frozenset(live), frozenset(head))
                    visit(s.orelse, live, brk, cont)
                elif isinstance(s, ast.If):
                    visit(s.body, live, brk, cont)
                    visit(s.orelse, live, brk, cont)
                elif isinstance(s, ast.With):
                    visit(s.body, live, brk, cont)
                elif isinstance(s, ast.Try):
                    fin = NAMES.block(s.finalbody, live, brk, cont)
                    hs = set()
                    for h in s.handlers:
                        hs |= NAMES.block(h.body, fin, brk, cont)
                        visit(h.body, fin, brk, cont)
                    visit(s.finalbody, live, brk, cont)
                    visit(s.orelse, fin, brk, cont)
                    visit(s.body, NAMES.block(s.orelse, fin, brk, cont) | hs, brk, cont)
                live = NAMES.stmt(s, live, brk, cont)
        visit(body, set(), frozenset(), frozenset())

    def s_ClassDef(self, s):
        s.decorator_list = [self.expr(d) for d in s.decorator_list]
        s.bases = [self.expr(b) for b in s.bases]
        sc = Scope("class", assigned(s.body))
        sc.name = s.name
        self.scopes.append(sc)
        s.body = self.stmts(s.body)
        self.scopes.pop()
        return s

    def s_Return(self, s):
        if self.infunc() and self.scope.collector:
            # bare return in a generator
            return ast.Return(value=rtcall("viter", name(self.scope.collector)))
        if s.value is not None:
            s.value = self.expr(s.value)
        return s

    def s_Expr(self, s):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)) and self.infunc() and self.scope.collector:
            c = self.scope.collector
            v = self.expr(s.value.value) if s.value.value is not None else const(None)
            meth = "append" if isinstance(s.value, ast.Yield) else "extend"
            return ast.Expr(value=ast.Call(func=ast.Attribute(value=name(c), attr=meth, ctx=ast.Load()),
                                           args=[v], keywords=[]))
        s.value = self.expr(s.value)
        return s

    def s_AnnAssign(self, s):
        if self.scope.kind != "function":
            if s.value is not None:
                s.value = self.expr(s.value)
            return s
        if s.value is None:
            return ast.Pass()
        return self.s_Assign(ast.Assign(targets=[s.target], value=s.value))

    def s_Assign(self, s):
        s.value = self.expr(s.value)
        s.targets = [self.target(t) for t in s.targets]
        out = []
        if self.infunc():
            for t in s.targets:
                out += self.attr_hooks(t)
        return out + [s] if out else s

    def attr_hooks(self, t):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            return [ast.Expr(value=rtcall("attr_set", name(t.value.id), const(t.attr)))]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for x in t.elts:
                out += self.attr_hooks(x)
            return out
        return []

    def s_AugAssign(self, s):
        s.value = self.expr(s.value)
        s.target = self.target(s.target)
        out = self.attr_hooks(s.target) if self.infunc() else []
        return out + [s] if out else s

    def target(self, t):
        if isinstance(t, ast.Attribute):
            t.value = self.expr(t.value)
        elif isinstance(t, ast.Subscript):
            t.value = self.expr(t.value)
            t.slice = self.expr(t.slice)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self.target(x) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self.target(t.value)
        return t

    def s_Try(self, s):
        s.body = self.stmts(s.body)
        for h in s.handlers:
            if h.type is None or isinstance(h.type, ast.Name) and h.type.id == "BaseException":
                h.type = name("Exception")
            else:
                h.type = self.expr(h.type)
            h.body = self.stmts(h.body)
        s.orelse = self.stmts(s.orelse)
        s.finalbody = self.stmts(s.finalbody)
        return s

    def locals_dict(self, names):
        """rt.snapshot(lambda-free): {name: value or UNBOUND}"""
        return rtcall("snap", ast.Call(func=name("locals"), args=[], keywords=[]),
                      ast.Tuple(elts=[const(n) for n in sorted(names)], ctx=ast.Load()))

    def s_For(self, s):
        if not self.infunc():
            s.iter = self.expr(s.iter)
            s.body = self.stmts(s.body)
            s.orelse = self.stmts(s.orelse)
            return s
        head, after = self.live.get(id(s), (self.scope.locals, self.scope.locals))
        ass = assigned(s.body, s.target)
        glob = getattr(self.scope, "nonlocal_", set())
        it = self.fresh("it")
        lid = self.lid(s)
        pre = [ast.Assign(targets=[name(it, True)],
                          value=rtcall("for_iter", self.expr(s.iter), const(lid)))]
        tb = assigned([], s.target)
        carried = (ass & head) | ((ass - tb) & after)
        if ass & glob:
            carried |= {"*nonlocal*"}
        unb = sorted(ass - carried)
        return self.loop(s, it, lid, pre, carried, unb,
                         lambda body: ast.For(target=self.target(s.target), iter=name(it), body=body, orelse=[]))

    def loop(self, s, it, lid, pre, carried, unb, mk):
        cl = sorted(carried)
        ent = ast.Assign(
            targets=[ast.Tuple(elts=[name(c, True) for c in cl], ctx=ast.Store())],
            value=rtcall("enter", name(it), ast.Call(func=name("locals"), args=[], keywords=[]),
                         ast.Tuple(elts=[const(c) for c in cl], ctx=ast.Load()))) if cl and "*nonlocal*" not in cl \
            else ast.Expr(value=rtcall("enter", name(it), ast.Call(func=name("locals"), args=[], keywords=[]),
                                       ast.Tuple(elts=[const(c) for c in cl], ctx=ast.Load())))
        iscut = ast.If(test=rtcall("is_cut", name(it)), body=[ent], orelse=[])
        if unb:
            iscut.body.append(ast.Assign(targets=[ast.Tuple(elts=[name(u, True) for u in unb], ctx=ast.Store())],
                                         value=rtcall("unbound", const(len(unb)))))
        save = getattr(self, "in_cut", None)
        body = self.stmts(s.body)
        orelse = self.stmts(s.orelse)
        self.in_cut = save
        f = mk(body)
        f.orelse = [ast.Expr(value=rtcall("finish", name(it),
                                          ast.Call(func=name("locals"), args=[], keywords=[])))] + orelse
        return pre + [iscut, ast.Try(body=[f], handlers=[], orelse=[],
                                     finalbody=[ast.Expr(value=rtcall("leave", name(it)))])]

    def s_While(self, s):
        if not self.infunc():
            s.test = self.expr(s.test)
            s.body = self.stmts(s.body)
            s.orelse = self.stmts(s.orelse)
            return s
        head, after = self.live.get(id(s), (self.scope.locals, self.scope.locals))
        ass = assigned(s.body)
        for n in ast.walk(s.test):
            if isinstance(n, ast.NamedExpr):
                ass.add(n.target.id)
        carried = (ass & head) | (ass & after)
        unb = sorted(ass - carried)
        it = self.fresh("w")
        lid = self.lid(s)
        pre = [ast.Assign(targets=[name(it, True)], value=rtcall("while_iter", const(lid)))]
        test = self.expr(s.test)
        orelse = s.orelse
        s.orelse = []

        def mk(body):
            done = self.stmts(orelse) + [ast.Break()]
            guard = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=rtcall("while_cond", name(it), test)),
                           body=done, orelse=[])
            return ast.For(target=name(self.fresh("u"), True), iter=name(it), body=[guard] + body, orelse=[])
        return self.loop(s, it, lid, pre, carried, unb, mk)

    # ---- expressions
    def expr(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        return self.generic(e)

    def generic(self, e):
        for f, v in ast.iter_fields(e):
            if isinstance(v, ast.expr):
                setattr(e, f, self.expr(v))
            elif isinstance(v, list):
                setattr(e, f, [self.expr(x) if isinstance(x, ast.expr) else
                               (self.kw(x) if isinstance(x, ast.keyword) else x) for x in v])
            elif isinstance(v, ast.slice if hasattr(ast, "slice") else ()):
                setattr(e, f, self.expr(v))
        return e

    def kw(self, k):
        k.value = self.expr(k.value)
        return k

    def e_Lambda(self, e):
        e.args.defaults = [self.expr(d) for d in e.args.defaults]
        sc = Scope("lambda", {a.arg for a in e.args.args})
        self.scopes.append(sc)
        e.body = self.expr(e.body)
        self.scopes.pop()
        return e

    def e_Call(self, e):
        f = e.func
        starred = any(isinstance(a, ast.Starred) for a in e.args)
        if isinstance(f, ast.Name) and f.id in BUILTINS and not self.shadowed(f.id):
            e.func = ast.Attribute(value=name(RT), attr="b_" + f.id, ctx=ast.Load())
        elif isinstance(f, ast.Name) and f.id == "super" and not e.args:
            return e
        else:
            e.func = self.expr(f)
        e.args = [self.expr(a) for a in e.args]
        e.keywords = [self.kw(k) for k in e.keywords]
        if starred and self.scope.kind != "module" and isinstance(e.args[-1], ast.Starred) \
                and sum(isinstance(a, ast.Starred) for a in e.args) == 1 \
                and all(k.arg is not None for k in e.keywords):
            return ast.Call(func=ast.Attribute(value=name(RT), attr="starcall", ctx=ast.Load()),
                            args=[e.func, ast.Tuple(elts=e.args[:-1], ctx=ast.Load()), e.args[-1].value],
                            keywords=e.keywords)
        return e

    def e_Starred(self, e):
        e.value = self.expr(e.value)
        return e

    def e_List(self, e):
        e.elts = [self.expr(x) for x in e.elts]
        if self.scope.kind in ("function", "lambda") and isinstance(e.ctx, ast.Load):
            return rtcall("mklist", ast.Tuple(elts=e.elts, ctx=ast.Load()))
        return e

    def e_Compare(self, e):
        e.left = self.expr(e.left)
        e.comparators = [self.expr(c) for c in e.comparators]
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            c = rtcall("contains", e.left, e.comparators[0])
            return rtcall("not_", c) if isinstance(e.ops[0], ast.NotIn) else c
        return e

    def e_BinOp(self, e):
        e.left = self.expr(e.left)
        e.right = self.expr(e.right)
        if isinstance(e.op, ast.Mod):
            return rtcall("mod", e.left, e.right)
        return e

    def e_Subscript(self, e):
        e.value = self.expr(e.value)
        e.slice = self.expr(e.slice)
        if isinstance(e.ctx, ast.Load) and self.scope.kind in ("function", "lambda"):
            return rtcall("getitem", e.value, e.slice if not isinstance(e.slice, ast.Slice) else
                          ast.Call(func=ast.Attribute(value=name(RT), attr="slice", ctx=ast.Load()),
                                   args=[e.slice.lower or const(None), e.slice.upper or const(None),
                                         e.slice.step or const(None)], keywords=[]))
        return e

    def e_NamedExpr(self, e):
        e.value = self.expr(e.value)
        return e

    def comp(self, e, gen):
        if self.scope.kind != "function":
            return self.generic_comp(e)
        bound = set()
        for g in e.generators:
            bound |= assigned([], g.target)
            if g.is_async:
                return self.generic_comp(e)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                return self.generic_comp(e)
        fn = self.fresh("comp")
        out = self.fresh("r")
        src = self.fresh("src")
        inner = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(out), attr="append", ctx=ast.Load()),
                                         args=[e.elt], keywords=[]))]
        for i, g in reversed(list(enumerate(e.generators))):
            for c in reversed(g.ifs):
                inner = [ast.If(test=c, body=inner, orelse=[])]
            inner = [ast.For(target=g.target, iter=name(src) if i == 0 else g.iter, body=inner, orelse=[])]
        first = e.generators[0].iter
        body = [ast.Assign(targets=[name(out, True)], value=ast.List(elts=[], ctx=ast.Load()))] + inner \
            + [ast.Return(value=name(out))]
        fd = ast.FunctionDef(name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=src)], vararg=None,
                                                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                             body=body, decorator_list=[], returns=None, type_params=[])
        ast.copy_location(fd, e)
        ast.fix_missing_locations(fd)
        firstx = self.expr(first)
        pre = self.scope.pre
        fd = self.s_FunctionDef(fd)
        self.scope.pre = pre
        pre.append(fd)
        call = ast.Call(func=name(fn), args=[firstx], keywords=[])
        return rtcall("viter", call) if gen else call

    def generic_comp(self, e):
        sc = Scope("lambda", set().union(*[assigned([], g.target) for g in e.generators]))
        for i, g in enumerate(e.generators):
            g.iter = self.expr(g.iter)
            if i == 0:
                self.scopes.append(sc)
            g.ifs = [self.expr(c) for c in g.ifs]
        if isinstance(e, ast.DictComp):
            e.key, e.value = self.expr(e.key), self.expr(e.value)
        else:
            e.elt = self.expr(e.elt)
        self.scopes.pop()
        return e

    def e_ListComp(self, e):
        return self.comp(e, False)

    def e_GeneratorExp(self, e):
        return self.comp(e, True)

    def e_SetComp(self, e):
        if self.scope.kind != "function":
            return self.generic_comp(e)
        return rtcall("b_set", self.comp(e, False))

    def e_DictComp(self, e):
        if self.scope.kind != "function":
            return self.generic_comp(e)
        lc = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(lc, e)
        return rtcall("mkdict", self.comp(lc, False))


def transform(source, modname, fname):
    tree = ast.parse(source, fname)
    return Transform(modname, fname).module(tree)


# ------------------------------------------------------------------- loader
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, rt):
        self.root, self.rt = root, rt
        self.hashes = {}
        self.functions = {}

    def path_of(self, fullname):
        rel = fullname.split(".")[2:]
        base = os.path.join(self.root, "python", "lsst", "skymap", *rel)
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        return base + ".py", False

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "lsst.skymap" and not fullname.startswith("lsst.skymap."):
            return None
        p, pkg = self.path_of(fullname)
        if not os.path.exists(p):
            return None
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=p, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(p)]
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = module.__spec__.origin
        with open(p, "rb") as f:
            src = f.read()
        self.hashes[os.path.relpath(p, self.root)] = hashlib.sha256(src).hexdigest()
        tree = transform(src.decode("utf8"), module.__name__, p)
        code = compile(tree, p, "exec", dont_inherit=True)
        module.__dict__[RT] = self.rt
        module.__dict__["__builtins__"] = self.rt.builtins_dict()
        module.__file__ = p
        exec(code, module.__dict__)


def install(root="/repo"):
    from . import rt
    f = Finder(root, rt)
    sys.meta_path.insert(0, f)
    return f
