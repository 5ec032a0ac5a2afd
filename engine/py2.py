"""
Python 2 -> instrumented Python 3.

The AST of every module of /repo/src (and of the harness) is produced on each run by Jython's own Python 2.7
parser (dump_ast.py).  This module turns those ASTs into Python 3 code objects with Python 2 semantics whose
operations go through the hooks below, so that they work on symbolic values.
"""

import ast as A
import builtins
import json
import subprocess
import sys
import types
import os
import functools
import itertools
import copy as _copy

import sym
from sym import (SymInt, SymBool, SymStr, UStr, Unsupported, mkstr, promote, is_sym, sym_not, concretize,
                 _mkbool, _mkint, b_and, b_or, n_ite, b_ite, ctx)

# ---------------------------------------------------------------------------------------------
# Transpiler
# ---------------------------------------------------------------------------------------------

STRMETHODS = set("join find rfind index rindex count startswith endswith replace split rsplit splitlines partition "
                 "strip lstrip rstrip upper lower encode decode format isdigit isspace isalpha isalnum zfill ljust rjust "
                 "translate title capitalize swapcase islower isupper istitle center rpartition".split())
LISTMETHODS = set(["sort", "index", "count", "remove", "next"])

BINOPS = {"Add": A.Add, "Sub": A.Sub, "Mult": A.Mult, "Pow": A.Pow, "LShift": A.LShift, "RShift": A.RShift,
          "BitOr": A.BitOr, "BitXor": A.BitXor, "BitAnd": A.BitAnd, "FloorDiv": A.FloorDiv}

PURE_BIN = set(["Add", "Sub", "Mult"])


def dec(v):
    if isinstance(v, dict) and v.get("_") in ("$str", "$unicode"):
        return "".join(map(chr, v["v"]))
    return v


class Transpiler(object):

    def __init__(self, modname, path):
        self.modname = modname
        self.path = path
        self.infunc = 0
        self.leak = frozenset()
        self.nowalrus = 0
        self.tmp = 0
        self.funcs = []
        self.qual = []

    def name(self, n):
        return dec(n)

    def loc(self, node, src):
        ln = src.get("@") if isinstance(src, dict) else None
        if ln is None:
            ln = getattr(self, "curline", 1)
        else:
            self.curline = ln
        node.lineno = ln
        node.col_offset = 0
        node.end_lineno = ln
        node.end_col_offset = 0
        return node

    def hook(self, fn, *args):
        return A.Call(func=A.Attribute(value=A.Name(id="_P_", ctx=A.Load()), attr=fn, ctx=A.Load()), args=list(args), keywords=[])

    def module(self, m):
        body = self.body(m["body"], toplevel=True)
        mod = A.Module(body=body, type_ignores=[])
        A.fix_missing_locations(mod)
        return mod

    def body(self, stmts, toplevel=False):
        out = []
        for s in stmts:
            r = self.stmt(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        if not out and not toplevel:
            out.append(A.Pass(lineno=1, col_offset=0))
        return out

    # -- statements
    def stmt(self, s):
        ln = s.get("@")
        if ln is not None:
            self.curline = ln
        r = getattr(self, "s_" + s["_"])(s)
        for x in (r if isinstance(r, list) else [r]):
            if x is not None:
                self.loc(x, s)
        return r

    def s_FunctionDef(self, s):
        args, pre = self.arguments(s["args"])
        decs = [self.expr(d) for d in s["decorator_list"]]
        self.infunc += 1
        self.qual.append(self.name(s["name"]))
        leak, now = self.leak, self.nowalrus
        self.leak, self.nowalrus = self.leaks(s["body"]), 0
        body = self.body(s["body"])
        self.leak, self.nowalrus = leak, now
        qn = ".".join(self.qual)
        self.qual.pop()
        self.infunc -= 1
        # record function entry for the evidence
        self.funcs.append(qn)
        ent = A.Expr(value=A.Call(func=A.Name(id="_E_", ctx=A.Load()), args=[A.Constant(value=self.modname + ":" + qn)], keywords=[]))
        self.loc(ent, s)
        return A.FunctionDef(name=self.name(s["name"]), args=args, body=[ent] + pre + body, decorator_list=decs, returns=None, type_params=[])

    def leaks(self, body):
        """names bound by list comprehensions of a function and used outside of these: in Python 2 they are its variables"""
        names = set()

        def bound(n, out):
            if isinstance(n, list):
                for x in n:
                    bound(x, out)
            elif isinstance(n, dict):
                if n.get("_") == "Name":
                    out.add(self.name(n["id"]))
                for k in ("elts",):
                    if k in n:
                        bound(n[k], out)

        def uses(n, hidden, out):
            if isinstance(n, list):
                for x in n:
                    uses(x, hidden, out)
            elif isinstance(n, dict):
                if n.get("_") == "ListComp":
                    b = set()
                    for g in n["generators"]:
                        bound(g["target"], b)
                    names.update(b)
                    hidden = hidden | b
                elif n.get("_") == "Name":
                    x = self.name(n["id"])
                    if x not in hidden:
                        out.add(x)
                    return
                for k, v in n.items():
                    if isinstance(v, (dict, list)):
                        uses(v, hidden, out)
        out = set()
        uses(body, frozenset(), out)
        return frozenset(names & out)

    def arguments(self, a):
        pre = []
        args = []
        for x in a["args"]:
            if x["_"] == "Name":
                args.append(A.arg(arg=self.name(x["id"]), annotation=None))
            else:
                self.tmp += 1
                nm = "_tp%d" % self.tmp
                args.append(A.arg(arg=nm, annotation=None))
                pre.append(A.Assign(targets=[self.target(x)], value=A.Name(id=nm, ctx=A.Load())))
        for p in pre:
            A.fix_missing_locations(p)
        return A.arguments(posonlyargs=[], args=args,
                           vararg=A.arg(arg=self.name(a["vararg"]), annotation=None) if a["vararg"] else None,
                           kwonlyargs=[], kw_defaults=[],
                           kwarg=A.arg(arg=self.name(a["kwarg"]), annotation=None) if a["kwarg"] else None,
                           defaults=[self.expr(d) for d in a["defaults"]]), pre

    def s_ClassDef(self, s):
        inf = self.infunc
        self.infunc = 0
        self.qual.append(self.name(s["name"]))
        body = self.body(s["body"])
        self.qual.pop()
        self.infunc = inf
        decs = [self.expr(d) for d in s["decorator_list"]]
        decs.append(A.Attribute(value=A.Name(id="_P_", ctx=A.Load()), attr="fixclass", ctx=A.Load()))
        return A.ClassDef(name=self.name(s["name"]), bases=[self.expr(b) for b in s["bases"]], keywords=[], body=body, decorator_list=decs, type_params=[])

    def s_Return(self, s):
        return A.Return(value=self.expr(s["value"]) if s["value"] else None)

    def s_Delete(self, s):
        return A.Delete(targets=[self.target(t, A.Del) for t in s["targets"]])

    def s_Assign(self, s):
        return A.Assign(targets=[self.target(t) for t in s["targets"]], value=self.expr(s["value"]))

    def s_AugAssign(self, s):
        op = s["op"]["_"]
        t = s["target"]
        if op in ("Div", "Mod"):
            load = dict(t)
            return A.Assign(targets=[self.target(t)], value=self.binop(op, self.expr(load), self.expr(s["value"])))
        return A.AugAssign(target=self.target(t), op=BINOPS[op](), value=self.expr(s["value"]))

    def s_Print(self, s):
        vals = [self.expr(v) for v in s["values"]]
        dest = self.expr(s["dest"]) if s["dest"] else A.Constant(value=None)
        return A.Expr(value=self.hook("print_", dest, A.Constant(value=bool(s["nl"])), *vals))

    def s_For(self, s):
        return A.For(target=self.target(s["target"]), iter=self.hook("iter_", self.expr(s["iter"])), body=self.loop(s["body"]), orelse=self.body(s["orelse"], True))

    def loop(self, b):
        tick = A.Expr(value=A.Call(func=A.Name(id="_T_", ctx=A.Load()), args=[], keywords=[]))
        A.fix_missing_locations(self.loc(tick, {}))
        return [tick] + self.body(b, True)

    def s_While(self, s):
        return A.While(test=self.expr(s["test"]), body=self.loop(s["body"]), orelse=self.body(s["orelse"], True))

    def s_If(self, s):
        return A.If(test=self.expr(s["test"]), body=self.body(s["body"]), orelse=self.body(s["orelse"], True))

    def s_With(self, s):
        return A.With(items=[A.withitem(context_expr=self.expr(s["context_expr"]), optional_vars=self.target(s["optional_vars"]) if s["optional_vars"] else None)], body=self.body(s["body"]))

    def s_Raise(self, s):
        if s["type"] is None:
            return A.Raise(exc=None, cause=None)
        t = self.expr(s["type"])
        if s["inst"] is not None:
            return A.Raise(exc=self.hook("mkexc", t, self.expr(s["inst"])), cause=None)
        return A.Raise(exc=t, cause=None)

    def s_TryExcept(self, s):
        hs = []
        for h in s["handlers"]:
            self.loc(A.Pass(), h)
            typ = self.expr(h["type"]) if h["type"] else A.Name(id="_Exc_", ctx=A.Load())
            pre = []
            nm = None
            if h["name"] is not None:
                self.tmp += 1
                nm = "_ex%d" % self.tmp
                a = A.Assign(targets=[self.target(h["name"])], value=A.Name(id=nm, ctx=A.Load()))
                A.fix_missing_locations(self.loc(a, h))
                pre = [a]
            hs.append(self.loc(A.ExceptHandler(type=typ, name=nm, body=pre + self.body(h["body"])), h))
        return A.Try(body=self.body(s["body"]), handlers=hs, orelse=self.body(s["orelse"], True), finalbody=[])

    def s_TryFinally(self, s):
        return A.Try(body=self.body(s["body"]), handlers=[], orelse=[], finalbody=self.body(s["finalbody"]))

    def s_Assert(self, s):
        return A.Assert(test=self.expr(s["test"]), msg=self.expr(s["msg"]) if s["msg"] else None)

    def s_Import(self, s):
        return A.Import(names=[A.alias(name=self.name(n["name"]), asname=self.name(n["asname"]) if n["asname"] else None) for n in s["names"]])

    def s_ImportFrom(self, s):
        mod = self.name(s["module"]) if s["module"] else None
        if mod == "__future__":
            return None
        lv = int(s["level"]["v"]) if s["level"] else 0
        return A.ImportFrom(module=mod, names=[A.alias(name=self.name(n["name"]), asname=self.name(n["asname"]) if n["asname"] else None) for n in s["names"]], level=lv)

    def s_Global(self, s):
        return A.Global(names=[self.name(n) for n in s["names"]])

    def s_Expr(self, s):
        return A.Expr(value=self.expr(s["value"]))

    def s_Pass(self, s):
        return A.Pass()

    def s_Break(self, s):
        return A.Break()

    def s_Continue(self, s):
        return A.Continue()

    def s_Exec(self, s):
        return A.Raise(exc=self.hook("mkexc", A.Name(id="NotImplementedError", ctx=A.Load()), A.Constant(value="exec")), cause=None)

    # -- targets
    def target(self, t, cx=A.Store):
        k = t["_"]
        if k == "Name":
            return self.loc(A.Name(id=self.name(t["id"]), ctx=cx()), t)
        if k in ("Tuple", "List"):
            return self.loc(getattr(A, k)(elts=[self.target(e, cx) for e in t["elts"]], ctx=cx()), t)
        if k == "Attribute":
            return self.loc(A.Attribute(value=self.expr(t["value"]), attr=self.name(t["attr"]), ctx=cx()), t)
        if k == "Subscript":
            return self.loc(A.Subscript(value=self.expr(t["value"]), slice=self.slice(t["slice"]), ctx=cx()), t)
        raise NotImplementedError(k)

    def slice(self, s):
        k = s["_"]
        if k == "Index":
            return self.expr(s["value"])
        if k == "Slice":
            return A.Slice(lower=self.expr(s["lower"]) if s["lower"] else None,
                           upper=self.expr(s["upper"]) if s["upper"] else None,
                           step=self.expr(s["step"]) if s["step"] else None)
        raise NotImplementedError(k)

    # -- expressions
    def expr(self, e):
        ln = e.get("@")
        if ln is not None:
            self.curline = ln
        r = getattr(self, "e_" + e["_"])(e)
        return self.loc(r, e)

    def pure(self, e):
        """side-effect free and cheap to evaluate eagerly"""
        k = e["_"]
        if k in ("Name", "Num", "Str"):
            return True
        if k == "Attribute":
            return self.pure(e["value"])
        if k == "Compare":
            return self.pure(e["left"]) and all(self.pure(c) for c in e["comparators"])
        if k == "BoolOp":
            return all(self.pure(v) for v in e["values"])
        if k == "UnaryOp":
            return self.pure(e["operand"])
        if k in ("Tuple", "List"):
            return all(self.pure(x) for x in e["elts"])
        if k == "BinOp":
            if e["op"]["_"] in PURE_BIN:
                return self.pure(e["left"]) and self.pure(e["right"])
            if e["op"]["_"] in ("Div", "Mod", "FloorDiv"):
                return self.pure(e["left"]) and e["right"]["_"] == "Num"
        return False

    def lam(self, body):
        return A.Lambda(args=A.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body)

    def e_BoolOp(self, e):
        vals = e["values"]
        isand = e["op"]["_"] == "And"
        if self.infunc and any(self.pure(v) for v in vals[1:]):
            # left fold
            cur = self.expr(vals[0])
            for v in vals[1:]:
                if self.pure(v):
                    cur = self.hook("and_" if isand else "or_", cur, self.lam(self.expr(v)))
                else:
                    cur = A.BoolOp(op=A.And() if isand else A.Or(), values=[cur, self.expr(v)])
            return cur
        return A.BoolOp(op=A.And() if isand else A.Or(), values=[self.expr(v) for v in vals])

    def binop(self, op, l, r):
        if op == "Div":
            return self.hook("div", l, r)
        if op == "Mod":
            return self.hook("mod", l, r)
        return A.BinOp(left=l, op=BINOPS[op](), right=r)

    def e_BinOp(self, e):
        return self.binop(e["op"]["_"], self.expr(e["left"]), self.expr(e["right"]))

    def e_UnaryOp(self, e):
        op = e["op"]["_"]
        v = self.expr(e["operand"])
        if op == "Not":
            return self.hook("not_", v)
        return A.UnaryOp(op={"USub": A.USub, "UAdd": A.UAdd, "Invert": A.Invert}[op](), operand=v)

    def e_Lambda(self, e):
        args, pre = self.arguments(e["args"])
        if pre:
            raise NotImplementedError("lambda tuple params")
        self.infunc += 1
        leak, now = self.leak, self.nowalrus
        self.leak, self.nowalrus = frozenset(), 0
        b = self.expr(e["body"])
        self.leak, self.nowalrus = leak, now
        self.infunc -= 1
        return A.Lambda(args=args, body=b)

    def e_IfExp(self, e):
        if self.infunc and self.pure(e["body"]) and self.pure(e["orelse"]):
            return self.hook("ifexp", self.expr(e["test"]), self.lam(self.expr(e["body"])), self.lam(self.expr(e["orelse"])))
        return A.IfExp(test=self.expr(e["test"]), body=self.expr(e["body"]), orelse=self.expr(e["orelse"]))

    def e_Dict(self, e):
        return self.hook("mkdict", A.Dict(keys=[], values=[]) if not e["keys"] else
                         A.List(elts=[A.Tuple(elts=[self.expr(k), self.expr(v)], ctx=A.Load()) for k, v in zip(e["keys"], e["values"])], ctx=A.Load()))

    def e_Set(self, e):
        return self.hook("mkset", A.List(elts=[self.expr(x) for x in e["elts"]], ctx=A.Load()))

    def comps(self, gens, leaking=False):
        if leaking and self.leak and not self.nowalrus and self.infunc:
            out = []
            for g in gens:
                self.nowalrus += 1
                it = self.hook("iter_", self.expr(g["iter"]))
                self.nowalrus -= 1
                t = self.target(g["target"])
                ren = []
                for n in A.walk(t):
                    if isinstance(n, A.Name) and isinstance(n.ctx, A.Store) and n.id in self.leak:
                        self.tmp += 1
                        nm = "_lc%d" % self.tmp
                        ren.append(A.NamedExpr(target=A.Name(id=n.id, ctx=A.Store()), value=A.Name(id=nm, ctx=A.Load())))
                        n.id = nm
                ifs = [self.expr(i) for i in g["ifs"]]
                if ren:
                    ifs.insert(0, A.Subscript(value=A.Tuple(elts=ren + [A.Constant(value=True)], ctx=A.Load()), slice=A.Constant(value=-1), ctx=A.Load()))
                out.append(A.comprehension(target=t, iter=it, ifs=ifs, is_async=0))
            return out
        return [A.comprehension(target=self.target(g["target"]), iter=self.hook("iter_", self.expr(g["iter"])), ifs=[self.expr(i) for i in g["ifs"]], is_async=0) for g in gens]

    def e_ListComp(self, e):
        gens = self.comps(e["generators"], True)
        return A.ListComp(elt=self.expr(e["elt"]), generators=gens)

    def e_SetComp(self, e):
        self.nowalrus += 1
        r = self.hook("mkset", A.ListComp(elt=self.expr(e["elt"]), generators=self.comps(e["generators"])))
        self.nowalrus -= 1
        return r

    def e_GeneratorExp(self, e):
        self.nowalrus += 1
        r = A.GeneratorExp(elt=self.expr(e["elt"]), generators=self.comps(e["generators"]))
        self.nowalrus -= 1
        return r

    def e_DictComp(self, e):
        self.nowalrus += 1
        r = self.hook("mkdict", A.ListComp(elt=A.Tuple(elts=[self.expr(e["key"]), self.expr(e["value"])], ctx=A.Load()), generators=self.comps(e["generators"])))
        self.nowalrus -= 1
        return r

    def e_Yield(self, e):
        return A.Yield(value=self.expr(e["value"]) if e["value"] else None)

    CMP = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "In": "in_", "NotIn": "notin"}

    def cmp1(self, op, l, r):
        if op in ("Eq", "NotEq"):
            return self.hook("eq" if op == "Eq" else "ne", l, r)
        if op in ("Is", "IsNot"):
            return A.Compare(left=l, ops=[getattr(A, op)()], comparators=[r])
        return self.hook(self.CMP[op], l, r)

    def e_Compare(self, e):
        ops = [o["_"] for o in e["ops"]]
        if len(ops) == 1:
            return self.cmp1(ops[0], self.expr(e["left"]), self.expr(e["comparators"][0]))
        items = [e["left"]] + e["comparators"]
        if all(self.pure(x) for x in items[1:-1]):
            parts = []
            for i, op in enumerate(ops):
                parts.append((self.cmp1(op, self.expr(items[i]), self.expr(items[i + 1])), self.pure(items[i + 1])))
            if not self.infunc:
                return A.BoolOp(op=A.And(), values=[p for p, _ in parts])
            cur = parts[0][0]
            for p, pu in parts[1:]:
                if pu:
                    cur = self.hook("and_", cur, self.lam(p))
                else:
                    cur = A.BoolOp(op=A.And(), values=[cur, p])
            return cur
        # general: (lambda t: left op t and t op right)(mid)
        nm = "_cc%d" % self.tmp
        self.tmp += 1
        if len(ops) == 2:
            lam = A.Lambda(args=A.arguments(posonlyargs=[], args=[A.arg(arg=nm, annotation=None)], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                           body=A.BoolOp(op=A.And(), values=[self.cmp1(ops[0], self.expr(items[0]), A.Name(id=nm, ctx=A.Load())),
                                                            self.cmp1(ops[1], A.Name(id=nm, ctx=A.Load()), self.expr(items[2]))]))
            return A.Call(func=lam, args=[self.expr(items[1])], keywords=[])
        raise NotImplementedError("long comparison chain")

    def e_Call(self, e):
        f = e["func"]
        args = [self.expr(a) for a in e["args"]]
        kws = [A.keyword(arg=self.name(k["arg"]), value=self.expr(k["value"])) for k in e["keywords"]]
        if e["starargs"]:
            args.append(A.Starred(value=self.expr(e["starargs"]), ctx=A.Load()))
        if e["kwargs"]:
            kws.append(A.keyword(arg=None, value=self.expr(e["kwargs"])))
        if f["_"] == "Attribute":
            nm = self.name(f["attr"])
            if nm in STRMETHODS or nm in LISTMETHODS:
                return A.Call(func=A.Attribute(value=A.Name(id="_P_", ctx=A.Load()), attr="meth", ctx=A.Load()),
                              args=[self.expr(f["value"]), A.Constant(value=nm)] + args, keywords=kws)
        if f["_"] == "Name" and self.name(f["id"]) in ("locals", "vars", "dir"):
            pass
        return A.Call(func=self.expr(f), args=args, keywords=kws)

    def e_Repr(self, e):
        return self.hook("repr_", self.expr(e["value"]))

    def e_Num(self, e):
        n = e["n"]
        if n["_"] == "$int":
            return A.Constant(value=int(n["v"]))
        if n["_"] == "$float":
            return A.Constant(value=float(n["v"]))
        raise NotImplementedError(str(n))

    def e_Str(self, e):
        s = e["s"]
        if s["_"] == "$unicode":
            return self.hook("ustr", A.Constant(value=dec(s)))
        return A.Constant(value=dec(s))

    def e_Attribute(self, e):
        return A.Attribute(value=self.expr(e["value"]), attr=self.name(e["attr"]), ctx=A.Load())

    def e_Subscript(self, e):
        s = e["slice"]
        v = self.expr(e["value"])
        if s["_"] == "Index":
            i = s["value"]
            if i["_"] in ("Num", "Str"):
                return A.Subscript(value=v, slice=self.expr(i), ctx=A.Load())
            return self.hook("getitem", v, self.expr(i))
        return A.Subscript(value=v, slice=self.slice(s), ctx=A.Load())

    def e_Name(self, e):
        nm = self.name(e["id"])
        if nm in ("None", "True", "False"):
            return A.Constant(value={"None": None, "True": True, "False": False}[nm])
        return A.Name(id=self.name(e["id"]), ctx=A.Load())

    def e_List(self, e):
        return A.List(elts=[self.expr(x) for x in e["elts"]], ctx=A.Load())

    def e_Tuple(self, e):
        return A.Tuple(elts=[self.expr(x) for x in e["elts"]], ctx=A.Load())


# ---------------------------------------------------------------------------------------------
# Runtime hooks
# ---------------------------------------------------------------------------------------------

def lift_eq(a, b):
    """== with merging over tuples/lists that contain symbolic values"""
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = lift_eq(x, y)
            if e is False:
                return False
            if e is True:
                continue
            if isinstance(e, SymBool):
                r = e & r
            elif not e:
                return False
        return r
    if a is b and isinstance(a, (str, int, type(None), SymStr, SymInt)):
        return True
    r = (a == b)
    return r


class _Missing(object):
    pass


_missing = _Missing()


def symkey(k):
    """True if k must be looked up by symbolic comparison instead of by hash"""
    if isinstance(k, (SymInt, SymStr, SymBool)):
        return True
    if isinstance(k, tuple):
        for x in k:
            if symkey(x):
                return True
        return False
    c = type(k)
    if getattr(c, "_p2_eqkey", False):
        return True
    return False


class _K(object):
    """identity wrapper for a symbolic key"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "K(%r)" % (self.k,)


class PDict(dict):
    """dict with Python 2 methods and symbolic keys.  nsym counts keys held behind identity wrappers."""
    __slots__ = ("nsym",)

    def __init__(self, *a, **k):
        self.nsym = 0
        dict.__init__(self)
        if a or k:
            self.update(*a, **k)

    def _find(self, k):
        """the stored dict key equal to k, or _missing"""
        if symkey(k):
            for sk in dict.keys(self):
                rk = sk.k if isinstance(sk, _K) else sk
                if rk is k:
                    return sk
            for sk in list(dict.keys(self)):
                rk = sk.k if isinstance(sk, _K) else sk
                if _compat(rk, k) and lift_eq(rk, k):
                    return sk
            return _missing
        if dict.__contains__(self, k):
            return k
        if self.nsym:
            for sk in list(dict.keys(self)):
                if isinstance(sk, _K) and _compat(sk.k, k) and lift_eq(sk.k, k):
                    return sk
        return _missing

    def __getitem__(self, k):
        if not self.nsym and not symkey(k):
            return dict.__getitem__(self, k)
        s = self._find(k)
        if s is _missing:
            raise KeyError(k)
        return dict.__getitem__(self, s)

    def __setitem__(self, k, v):
        if not self.nsym and not symkey(k):
            return dict.__setitem__(self, k, v)
        s = self._find(k)
        if s is _missing:
            if symkey(k):
                s = _K(k)
                self.nsym += 1
            else:
                s = k
        dict.__setitem__(self, s, v)

    def __delitem__(self, k):
        s = self._find(k)
        if s is _missing:
            raise KeyError(k)
        if isinstance(s, _K):
            self.nsym -= 1
        dict.__delitem__(self, s)

    def __contains__(self, k):
        return self._find(k) is not _missing
    has_key = __contains__

    def get(self, k, d=None):
        s = self._find(k)
        return d if s is _missing else dict.__getitem__(self, s)

    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is _missing:
            self[k] = d
            return d
        return dict.__getitem__(self, s)

    def pop(self, k, *d):
        s = self._find(k)
        if s is _missing:
            if d:
                return d[0]
            raise KeyError(k)
        if isinstance(s, _K):
            self.nsym -= 1
        return dict.pop(self, s)

    def popitem(self):
        k = self.keys()[0]
        return (k, self.pop(k))

    def clear(self):
        self.nsym = 0
        dict.clear(self)

    def __iter__(self):
        for k in dict.__iter__(self):
            yield k.k if isinstance(k, _K) else k

    def keys(self):
        if not self.nsym:
            return list(dict.keys(self))
        return [k.k if isinstance(k, _K) else k for k in dict.keys(self)]

    def values(self):
        return list(dict.values(self))

    def items(self):
        if not self.nsym:
            return list(dict.items(self))
        return [(k.k if isinstance(k, _K) else k, v) for k, v in dict.items(self)]

    def iterkeys(self):
        return iter(self.keys())

    def itervalues(self):
        return iter(self.values())

    def iteritems(self):
        return iter(self.items())

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, PDict):
                for x, y in o.items():
                    self[x] = y
            elif hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, y in o:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def copy(self):
        return PDict(self)

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        r = True
        for k, v in self.items():
            if isinstance(o, PDict):
                s = o._find(k)
                if s is _missing:
                    return False
                w = dict.__getitem__(o, s)
            else:
                if k not in o:
                    return False
                w = o[k]
            e = lift_eq(v, w)
            if isinstance(e, SymBool):
                r = e & r
            elif not e:
                return False
        return r

    def __ne__(self, o):
        return sym_not(self == o)

    __hash__ = None


def _compat(a, b):
    """can the two keys possibly be equal (cheap type filter)"""
    ta = _kind(a)
    tb = _kind(b)
    return ta == tb and (ta != "o" or isinstance(a, type(b)) or isinstance(b, type(a)))


def _kind(a):
    if isinstance(a, (str, SymStr)):
        return "s"
    if isinstance(a, (int, SymInt, SymBool, float)):
        return "i"
    if isinstance(a, tuple):
        return "t"
    if a is None:
        return "n"
    return "o"


class PSet(object):
    """set with symbolic elements (insertion ordered)"""
    __slots__ = ("d",)

    def __init__(self, it=()):
        self.d = PDict()
        for x in it:
            self.d[x] = True

    def add(self, x):
        self.d.setdefault(x, True)

    def remove(self, x):
        del self.d[x]

    def discard(self, x):
        self.d.pop(x, None)

    def pop(self):
        k = self.d.keys()[0]
        del self.d[k]
        return k

    def clear(self):
        self.d.clear()

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d.keys())

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = PSet(self)
        r.update(*its)
        return r

    def difference(self, *its):
        o = PSet()
        for it in its:
            o.update(it)
        return PSet(x for x in self if x not in o)

    def intersection(self, it):
        o = it if isinstance(it, PSet) else PSet(it)
        return PSet(x for x in self if x in o)

    def symmetric_difference(self, it):
        o = PSet(it)
        return PSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, it):
        for x in list(it):
            self.discard(x)

    def intersection_update(self, it):
        o = PSet(it)
        for x in list(self):
            if x not in o:
                self.discard(x)

    def issubset(self, o):
        o = PSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def copy(self):
        return PSet(self)

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, PSet):
            return False
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        return not self == o

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __hash__(self):
        return hash(frozenset(self.d.keys()))

    def __repr__(self):
        return "set(%r)" % (self.d.keys(),)


class SymHash(object):
    """hash() of something symbolic: equal iff the hashed structures are equal"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return lift_eq(self.t, o.t)
        # a concrete hash: equal when the hashed structure is equal to the concrete one on this path
        return _conc_hash(self) == o if isinstance(o, int) else False

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        raise Unsupported("native hash of symbolic hash")


def _conc_hash(h):
    if isinstance(h, SymHash):
        if h.t[0] == "v":
            return hash(concretize(h.t[1]))
        return hash(tuple(_conc_hash(i) for i in h.t[1:]))
    return h


class _StrMeta(type):
    def __instancecheck__(c, x):
        return (isinstance(x, str) and not isinstance(x, UStr)) or (isinstance(x, SymStr) and not x.uni)

    def __eq__(c, o):
        return o is c or o is str

    def __hash__(c):
        return hash(str)


class p_str(str, metaclass=_StrMeta):
    def __new__(cls, x=""):
        return to_str(x)


class _UniMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, UStr) or (isinstance(x, SymStr) and x.uni)


class p_unicode(str, metaclass=_UniMeta):
    def __new__(cls, x="", enc=None, errors=None):
        if isinstance(x, SymStr):
            return x if x.uni else x.decode(enc or "ascii")
        if isinstance(x, UStr):
            return x
        if isinstance(x, str):
            return str_decode(x, enc or "ascii")
        return UStr(to_str(x))


class _BaseMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (str, SymStr))


class p_basestring(object, metaclass=_BaseMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (int, SymInt, SymBool))

    def __eq__(c, o):
        return o is c or o is int

    def __hash__(c):
        return hash(int)


class p_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x.toint()
        if isinstance(x, SymStr):
            return sym.sym_int_parse(x, base or 10)
        if isinstance(x, str):
            if "_" in x:
                raise ValueError("invalid literal for int() with base 10: %r" % (x,))
            return int(x, base) if base is not None else int(x)
        return int(x)


class _LongMeta(type):
    def __instancecheck__(c, x):
        return False


class p_long(int, metaclass=_LongMeta):
    def __new__(cls, x=0, base=None):
        return p_int(x, base)


class _BoolMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (bool, SymBool))


class p_bool(int, metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return x != 0
        return bool(x)


class _DictMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, dict)


class p_dict(PDict, metaclass=_DictMeta):
    def __new__(cls, *a, **k):
        if cls is not p_dict:
            return dict.__new__(cls)
        return PDict(*a, **k)


class _SetMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (set, frozenset, PSet))


class p_set(object, metaclass=_SetMeta):
    def __new__(cls, it=()):
        return PSet(it)


class p_frozenset(object, metaclass=_SetMeta):
    def __new__(cls, it=()):
        return PSet(it)


class _FloatMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, float)


class p_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if is_sym(x):
            x = concretize(x)
        if isinstance(x, str) and "_" in x:
            raise ValueError("could not convert string to float")
        return float(x)


def str_encode(s, enc):
    e = enc.lower().replace("_", "-")
    if isinstance(s, UStr):
        return s.encode(e).decode("latin-1")
    # byte string: implicit ascii decode first
    s.encode("ascii")
    return s.encode(e).decode("latin-1")


def str_decode(s, enc):
    return UStr(s.encode("latin-1").decode(enc))


def repr_(x):
    if isinstance(x, SymInt):
        return sym.sym_int_to_str(x)
    if isinstance(x, (SymStr, SymBool)):
        x = concretize(x)
    if isinstance(x, (list, tuple, PDict, PSet)):
        # containers: render elements
        if isinstance(x, list):
            return "[" + ", ".join(_cs(repr_(i)) for i in x) + "]"
        if isinstance(x, tuple):
            if len(x) == 1:
                return "(" + _cs(repr_(x[0])) + ",)"
            return "(" + ", ".join(_cs(repr_(i)) for i in x) + ")"
        if isinstance(x, PDict):
            return "{" + ", ".join(_cs(repr_(k)) + ": " + _cs(repr_(v)) for k, v in x.items()) + "}"
        return "set([" + ", ".join(_cs(repr_(k)) for k in x) + "])"
    if isinstance(x, UStr):
        return "u" + repr(str(x))
    if type(x).__module__ != "builtins" and hasattr(type(x), "_p2"):
        return type(x).__repr__(x)
    return repr(x)


def _cs(x):
    return concretize(x)


def to_str(x):
    if isinstance(x, SymStr):
        return x if not x.uni else x.encode("ascii")
    if isinstance(x, UStr):
        return str_encode(x, "ascii")
    if isinstance(x, str):
        return x
    if isinstance(x, SymInt):
        return sym.sym_int_to_str(x)
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, float):
        # Python 2 str(float) keeps 12 significant digits
        r = "%.12g" % x
        return r if any(c in r for c in ".en") else r + ".0"
    if isinstance(x, BaseException):
        f = type(x).__str__
        if hasattr(type(x), "_p2") and f is not BaseException.__str__:
            return f(x)
        if len(x.args) == 1:
            return to_str(x.args[0])
        return "" if not x.args else repr_(x.args)
    f = getattr(type(x), "__str__", None)
    if hasattr(type(x), "_p2") and f is not None and f is not object.__str__:
        return f(x)
    return repr_(x)


import re as _re
_fmt_re = _re.compile(r"%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\d+|\*)?(\.(?P<prec>\d+))?(?P<conv>.)", _re.S)


def fmt_percent(fmt, args):
    uni = isinstance(fmt, UStr)
    mapping = None
    if isinstance(args, dict):
        mapping = args
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    pos = 0
    ai = 0
    for m in _fmt_re.finditer(fmt):
        if m.start() > pos:
            out.append(str(fmt[pos:m.start()]))
        pos = m.end()
        conv = m.group("conv")
        if conv == "%":
            out.append("%")
            continue
        if m.group("key") is not None:
            v = mapping[m.group("key")]
        else:
            if ai >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[ai]
            ai += 1
        fl = m.group("flags")
        w = int(m.group("width") or 0)
        prec = m.group("prec")
        if conv in "di" or conv == "u":
            if isinstance(v, SymBool):
                v = v.toint()
            if isinstance(v, SymInt):
                if "0" in fl and "-" not in fl and v.n.lo >= 0 and v.n.hi < 10 ** w and "+" not in fl:
                    r = sym.sym_int_to_str_padded(v, w)
                else:
                    r = sym.sym_int_to_str(v, w, "0" in fl, "+" in fl, "-" in fl)
            else:
                if isinstance(v, (str, SymStr)) or v is None:
                    raise TypeError("%d format: a number is required")
                r = ("%" + fl + (str(w) if w else "") + "d") % (v,)
        elif conv in "sr":
            if conv == "s":
                r = v if isinstance(v, (str, SymStr)) else to_str(v)
            else:
                r = repr_(v)
            if sym._isuni(r):
                uni = True
            if prec is not None:
                r = r[:int(prec)]
            if w:
                r = promote(r)
                r = r.ljust(w) if "-" in fl else r.rjust(w)
        else:
            r = ("%" + fl + (str(w) if w else "") + ("." + prec if prec is not None else "") + conv) % (concretize(v),)
        out.append(r)
    if mapping is None and ai < len(args):
        raise TypeError("not all arguments converted during string formatting")
    if pos < len(fmt):
        out.append(str(fmt[pos:]))
    cs = []
    for o in out:
        cs.extend(sym._codes(o))
    return mkstr(cs, uni)


_brace_re = _re.compile(r"\{\{|\}\}|\{(?P<f>[^{}:!]*)(!(?P<c>.))?(:(?P<s>[^{}]*))?\}")


def fmt_format(fmt, args, kw):
    out = []
    pos = 0
    auto = 0
    for m in _brace_re.finditer(fmt):
        out.append(str(fmt[pos:m.start()]))
        pos = m.end()
        t = m.group(0)
        if t == "{{" or t == "}}":
            out.append(t[0])
            continue
        f = m.group("f")
        head = _re.split(r"[.\[]", f, 1)[0]
        rest = f[len(head):]
        if head == "":
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kw[head]
        if rest:
            for part in _re.findall(r"\.(\w+)|\[([^\]]*)\]", rest):
                if part[0]:
                    v = getattr(v, part[0])
                else:
                    v = v[int(part[1])] if part[1].isdigit() else v[part[1]]
        sp = m.group("s")
        if m.group("c") == "r":
            v = repr_(v)
        if sp:
            mm = _re.match(r"^0(\d+)d?$", sp)
            if mm and isinstance(v, SymInt):
                r = fmt_percent("%0" + mm.group(1) + "d", (v,))
            else:
                r = format(concretize(v), sp)
        else:
            r = v if isinstance(v, (str, SymStr)) else to_str(v)
        out.append(r)
    out.append(str(fmt[pos:]))
    cs = []
    uni = isinstance(fmt, UStr)
    for o in out:
        cs.extend(sym._codes(o))
    return mkstr(cs, uni)


def _rank(x):
    """Python 2 ordering between unrelated types: None < numbers < others by type name"""
    if x is None:
        return (0, "")
    if isinstance(x, (int, float, SymInt, SymBool)):
        return (1, "")
    if isinstance(x, UStr):
        return (2, "unicode")
    if isinstance(x, (str, SymStr)):
        return (2, "str")
    if isinstance(x, PDict):
        return (2, "dict")
    if isinstance(x, tuple):
        return (2, "tuple")
    if isinstance(x, list):
        return (2, "list")
    return (2, type(x).__name__)


def _seqlt(a, b, strict):
    """lexicographic comparison of two sequences"""
    for x, y in zip(a, b):
        e = lift_eq(x, y)
        if isinstance(e, SymBool):
            e = bool(e)
        if not e:
            return H.lt(x, y)
    return len(a) < len(b) if strict else len(a) <= len(b)


class H(object):
    """The hooks called by transpiled code (bound as _P_)"""

    @staticmethod
    def div(a, b):
        if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
            return a // b
        return a / b

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            return fmt_percent(a, b)
        return a % b

    @staticmethod
    def eq(a, b):
        if isinstance(a, (tuple, list)):
            return lift_eq(a, b)
        return a == b

    @staticmethod
    def ne(a, b):
        if isinstance(a, (tuple, list)):
            return sym_not(lift_eq(a, b))
        return a != b

    @staticmethod
    def _ord(a, b, op):
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            if op == "lt":
                return _seqlt(a, b, True)
            if op == "le":
                return _seqlt(a, b, False)
            if op == "gt":
                return _seqlt(b, a, True)
            return _seqlt(b, a, False)
        try:
            if op == "lt":
                return a < b
            if op == "le":
                return a <= b
            if op == "gt":
                return a > b
            return a >= b
        except TypeError:
            ra, rb = _rank(a), _rank(b)
            if ra == rb:
                raise Unsupported("ordering of %r and %r" % (type(a), type(b)))
            if op in ("lt", "le"):
                return ra < rb
            return ra > rb

    @staticmethod
    def lt(a, b):
        return H._ord(a, b, "lt")

    @staticmethod
    def le(a, b):
        return H._ord(a, b, "le")

    @staticmethod
    def gt(a, b):
        return H._ord(a, b, "gt")

    @staticmethod
    def ge(a, b):
        return H._ord(a, b, "ge")

    @staticmethod
    def in_(a, b):
        if isinstance(b, str):
            if isinstance(a, SymStr):
                if len(a) == 1:
                    return sym._cb(sym._c_in(a.cs[0], frozenset(map(ord, b))))
                return promote(b).contains(a)
            return a in b
        if isinstance(b, SymStr):
            return b.contains(a)
        if isinstance(b, (tuple, list)):
            r = False
            for y in b:
                if y is a:
                    return True
                e = lift_eq(y, a)
                if e is True:
                    return True
                if isinstance(e, SymBool):
                    r = e | r
                elif e:
                    return True
            return r
        return a in b

    @staticmethod
    def notin(a, b):
        return sym_not(H.in_(a, b))

    @staticmethod
    def not_(x):
        if isinstance(x, SymBool):
            return sym_not(x)
        if isinstance(x, SymInt):
            return x == 0
        return not x

    @staticmethod
    def and_(a, f):
        if isinstance(a, SymBool):
            if a.n.id in ctx.known:
                return f() if a else a
            try:
                b = f()
            except Exception:
                return f() if a else a
            if isinstance(b, (bool, SymBool)):
                return a & b
            if isinstance(b, SymInt):
                return a & (b != 0) if False else (b if a else a)
            return b if a else a
        return f() if a else a

    @staticmethod
    def or_(a, f):
        if isinstance(a, SymBool):
            try:
                b = f()
            except Exception:
                return a if a else f()
            if isinstance(b, (bool, SymBool)):
                return a | b
            return a if a else b
        return a if a else f()

    @staticmethod
    def ifexp(c, f, g):
        if isinstance(c, SymInt):
            c = c != 0
        if isinstance(c, SymBool):
            d = ctx.decide(c.n)
            if d is not None:
                return f() if c else g()
            try:
                a = f()
                b = g()
            except Exception:
                return f() if c else g()
            ia, ib = sym._num(a), sym._num(b)
            if ia is not None and ib is not None and not isinstance(a, bool) and not isinstance(b, bool):
                return _mkint(ia[0] if c.v else ib[0], n_ite(c.n, ia[1], ib[1]))
            if a is b:
                return a
            return a if c else b
        return f() if c else g()

    @staticmethod
    def getitem(o, i):
        if isinstance(i, SymBool):
            i = i.toint()
        if isinstance(i, SymInt) and isinstance(o, (tuple, list)):
            # merge over an integer table when possible
            n = len(o)
            lo, hi = ctx.interval(i.n)
            if not (lo >= -n and hi < n):
                inside = (i >= -n) & (i < n) if True else None
                if not inside:
                    raise IndexError("index out of range")
                lo, hi = max(lo, -n), min(hi, n - 1)
            vals = [(k, o[k]) for k in range(lo, hi + 1)]
            if all(sym._num(v) is not None and not isinstance(v, bool) for _k, v in vals):
                last = sym._num(vals[-1][1])[1]
                nd = last
                for k, v in reversed(vals[:-1]):
                    nd = n_ite(sym.b_eq0(sym.n_sub(i.n, k)), sym._num(v)[1], nd)
                return _mkint(sym._num(o[i.v])[0], nd)
            return o[concretize(i)]
        return o[i]

    @staticmethod
    def iter_(x):
        return x

    @staticmethod
    def mkdict(items):
        d = PDict()
        for k, v in (items if not isinstance(items, dict) else ()):
            d[k] = v
        return d

    @staticmethod
    def mkset(items):
        return PSet(items)

    @staticmethod
    def ustr(s):
        return UStr(s)

    @staticmethod
    def repr_(x):
        return repr_(x)

    @staticmethod
    def mkexc(t, v):
        if isinstance(t, type):
            if isinstance(v, t):
                return v
            return t(*v) if isinstance(v, tuple) else t(v)
        return t

    @staticmethod
    def print_(dest, nl, *vals):
        f = dest if dest is not None else STDOUT
        if f is None:
            return
        f.write(" ".join(concretize(to_str(v)) for v in vals) + ("\n" if nl else " "))

    @staticmethod
    def meth(o, name, *a, **k):
        if isinstance(o, str):
            if name == "join":
                items = list(a[0])
                for x in items:
                    if isinstance(x, (SymStr, UStr)):
                        return promote(o).join(items)
                return o.join(items)
            if name == "format":
                return fmt_format(o, a, k)
            if name == "encode":
                return str_encode(o, *(a or ("ascii",)))
            if name == "decode":
                return str_decode(o, *(a or ("ascii",)))
            if name == "translate":
                return sym.py_translate(o, *a)
            for x in a:
                if isinstance(x, (SymStr, SymInt)) or (isinstance(x, tuple) and any(is_sym(y) for y in x)):
                    return getattr(promote(o), name)(*a, **k)
            r = getattr(o, name)(*a, **k)
            if isinstance(o, UStr):
                return H._u(r)
            if name in ("upper", "lower", "isspace", "isdigit", "isalpha", "isalnum", "strip", "lstrip", "rstrip", "split", "title", "capitalize", "splitlines") and not o.isascii():
                return H._bytes(o, name, a, k)
            return r
        if name == "next" and not hasattr(o, "next") and hasattr(o, "__next__"):
            return o.__next__()
        if isinstance(o, list):
            if name == "sort":
                return list_sort(o, *a, **k)
            if name in ("index", "count", "remove"):
                return list_meth(o, name, *a)
        return getattr(o, name)(*a, **k)

    @staticmethod
    def _u(r):
        if type(r) is str:
            return UStr(r)
        if type(r) is list:
            return [H._u(x) for x in r]
        if type(r) is tuple:
            return tuple(H._u(x) for x in r)
        return r

    @staticmethod
    def _bytes(o, name, a, k):
        """byte string semantics: only ASCII letters/space are special"""
        b = o.encode("latin-1")
        a = tuple(x.encode("latin-1") if isinstance(x, str) else x for x in a)
        r = getattr(b, name)(*a, **k)
        if isinstance(r, bytes):
            return r.decode("latin-1")
        if isinstance(r, list):
            return [x.decode("latin-1") for x in r]
        return r

    @staticmethod
    def fixclass(c):
        d = c.__dict__
        c._p2 = True
        if any("__cmp__" in b.__dict__ for b in c.__mro__):
            for n, f in (("__eq__", lambda s, o: s.__cmp__(o) == 0), ("__lt__", lambda s, o: s.__cmp__(o) < 0), ("__le__", lambda s, o: s.__cmp__(o) <= 0),
                         ("__gt__", lambda s, o: s.__cmp__(o) > 0), ("__ge__", lambda s, o: s.__cmp__(o) >= 0), ("__ne__", lambda s, o: s.__cmp__(o) != 0)):
                if not any(n in b.__dict__ for b in c.__mro__[:-1]):
                    if n == "__eq__" and "__hash__" not in d:
                        c.__hash__ = lambda self, _c=c: super(_c, self).__hash__()
                        c.__hash__._p2default = True
                    setattr(c, n, f)
        if "__eq__" in d:
            if "__hash__" not in d or d["__hash__"] is None:
                def _h(self, _c=c):
                    return super(_c, self).__hash__()
                _h._p2default = True
                c.__hash__ = _h
            ne = None
            for b in c.__mro__[:-1]:
                if "__ne__" in b.__dict__:
                    ne = b
                    break
            if ne is None:
                c.__ne__ = lambda self, o: self is not o
        for b in c.__mro__[:-1]:
            if "__hash__" in b.__dict__ and b.__dict__["__hash__"] is not None:
                c._p2_eqkey = not getattr(b.__dict__["__hash__"], "_p2default", False)
                if not c._p2_eqkey:
                    continue
                break
        if "__nonzero__" in d:
            c.__bool__ = lambda self: bool(self.__nonzero__())
        return c


def list_meth(o, name, *a):
    x = a[0]
    if name == "count":
        return sum(1 for y in o if lift_eq(y, x))
    start = a[1] if len(a) > 1 else 0
    for i in range(start, len(o)):
        y = o[i]
        if y is x or lift_eq(y, x):
            if name == "index":
                return i
            del o[i]
            return None
    raise ValueError("x not in list")


def p_cmp(a, b):
    e = H.eq(a, b)
    if e:
        return 0
    return -1 if H.lt(a, b) else 1


class _Key(object):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return bool(H.lt(self.k, o.k))


def list_sort(o, cmp=None, key=None, reverse=False):
    o[:] = p_sorted(o, cmp, key, reverse)


def p_sorted(it, cmp=None, key=None, reverse=False):
    it = list(it)
    if cmp is not None:
        f = functools.cmp_to_key(lambda a, b: int(concretize(cmp(a, b))))
        if key is None:
            return sorted(it, key=f, reverse=reverse)
        return sorted(it, key=lambda x: f(key(x)), reverse=reverse)
    if key is None:
        return sorted(it, key=_Key, reverse=reverse)
    return sorted(it, key=lambda x: _Key(key(x)), reverse=reverse)


def p_minmax(lt):
    def f(*a, **k):
        key = k.get("key")
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            raise ValueError("min() arg is an empty sequence")
        r = xs[0]
        for x in xs[1:]:
            if key is None and sym._num(x) is not None and sym._num(r) is not None and (is_sym(x) or is_sym(r)):
                c = (x < r) if lt else (x > r)
                r = H.ifexp(c, lambda: x, lambda: r)
            else:
                kx, kr = (key(x), key(r)) if key else (x, r)
                if (H.lt(kx, kr) if lt else H.gt(kx, kr)):
                    r = x
        return r
    return f


def p_hash(x):
    if isinstance(x, (SymInt, SymStr, SymBool)):
        return SymHash(("v", x))
    if isinstance(x, tuple):
        hs = [p_hash(i) for i in x]
        if any(isinstance(h, SymHash) for h in hs):
            return SymHash(("t",) + tuple(hs))
        return hash(tuple(hs))
    if isinstance(x, SymHash):
        return x
    if isinstance(x, list) or isinstance(x, (dict, PSet)):
        raise TypeError("unhashable type: '%s'" % (type(x).__name__,))
    if hasattr(type(x), "_p2"):
        return type(x).__hash__(x)
    return hash(x)


def p_len(x):
    return len(x)


def p_range(*a):
    return list(range(*[concretize(x) for x in a]))


def p_xrange(*a):
    return range(*[concretize(x) for x in a])


def p_map(f, *its):
    if f is None:
        return list(its[0]) if len(its) == 1 else list(itertools.zip_longest(*its))
    return [f(x) for x in its[0]] if len(its) == 1 else [f(*x) for x in itertools.zip_longest(*its)]


def p_filter(f, it):
    r = [x for x in it if (f(x) if f is not None else x)]
    if isinstance(it, tuple):
        return tuple(r)
    if isinstance(it, (str, SymStr)):
        return H.meth("", "join", r)
    return r


def p_zip(*a):
    return list(zip(*a))


def p_ord(c):
    if isinstance(c, SymStr):
        if len(c.cs) != 1:
            raise TypeError("ord() expected a character")
        return c.cs[0]
    return ord(c)


def p_chr(i):
    if isinstance(i, SymInt):
        return mkstr((i,))
    return chr(i)


def p_unichr(i):
    return UStr(chr(concretize(i)))


def p_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def p_any(it):
    for x in it:
        if x:
            return True
    return False


def p_all(it):
    for x in it:
        if not x:
            return False
    return True


def p_round(x, n=0):
    # half away from zero
    import decimal
    if is_sym(x):
        return float(x)
    return float(decimal.Decimal(x).quantize(decimal.Decimal(1).scaleb(-n), rounding=decimal.ROUND_HALF_UP))


class _TypeMeta(type):
    def __call__(c, *a):
        if c is not p_type:
            return type.__call__(c, *a)
        if len(a) != 1:
            return type(*a)
        t = type(a[0])
        if t is SymInt:
            return p_int
        if t is SymBool:
            return p_bool
        if t is SymStr:
            return p_unicode if a[0].uni else p_str
        return _TYPES.get(t, t)

    def __instancecheck__(c, x):
        return isinstance(x, type)


class p_type(type, metaclass=_TypeMeta):
    pass


def p_divmod(a, b):
    return (a // b, a % b)


def p_tuple(it=()):
    return tuple(it)


STDOUT = None


class StringIO(object):
    """cStringIO.StringIO over symbolic strings"""

    def __init__(self, s=""):
        self.parts = [s] if len(s) else []
        self.pos = 0
        self.reading = bool(len(s))

    def _flat(self):
        if len(self.parts) != 1:
            cs = []
            uni = False
            for p in self.parts:
                cs.extend(sym._codes(p))
            self.parts = [mkstr(cs, uni)]
        return self.parts[0]

    def write(self, s):
        c = sym._codes(s)
        if c is None:
            raise TypeError("write: expected string, got %r" % (type(s).__name__,))
        if isinstance(s, UStr):
            s = str_encode(s, "ascii")
        elif isinstance(s, SymStr) and s.uni:
            s = s.encode("ascii")
        self.parts.append(s)
        self.pos += len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def getvalue(self):
        return self._flat()

    def read(self, n=-1):
        v = self._flat()
        if n < 0:
            r = v[self.pos:]
        else:
            r = v[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self, n=-1):
        v = self._flat()
        if isinstance(v, SymStr):
            i = v.find("\n", self.pos)
        else:
            i = v.find("\n", self.pos)
        e = len(v) if i < 0 else i + 1
        r = v[self.pos:e]
        self.pos = e
        return r

    def readlines(self):
        out = []
        while True:
            l = self.readline()
            if not len(l):
                return out
            out.append(l)

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, p, w=0):
        self.pos = p if w == 0 else (self.pos + p if w == 1 else len(self._flat()) + p)

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def truncate(self, n=None):
        v = self._flat()
        self.parts = [v[:self.pos if n is None else n]]


# ---------------------------------------------------------------------------------------------
# Module loading
# ---------------------------------------------------------------------------------------------

def dump_asts(items, workdir):
    """items: list of (modname, path).  Parses them with Jython; returns {modname: {path, ast}}"""
    lst = os.path.join(workdir, "list.txt")
    out = os.path.join(workdir, "ast.json")
    with open(lst, "w") as f:
        for n, p in items:
            f.write("%s=%s\n" % (n, p))
    env = jython_env()
    here = os.path.dirname(os.path.abspath(__file__))
    subprocess.run(["jython", "-B", os.path.join(here, "dump_ast.py"), out, "@" + lst], check=True, env=env, timeout=300,
                   stdin=subprocess.DEVNULL)
    with open(out, "rb") as f:
        return json.load(f)


def jython_env():
    env = dict(os.environ)
    for k in ("PYTHONPATH", "JYTHONPATH", "CLASSPATH", "JAVA_TOOL_OPTIONS", "PYTHONHOME"):
        env.pop(k, None)
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


class World(object):
    """A set of transpiled modules with their own import system"""

    def __init__(self, asts):
        self.code = {}
        self.path = {}
        self.mods = {}
        self.funcs = {}
        self.pkgs = set()
        self.errors = {}
        for name, d in asts.items():
            if "error" in d:
                self.errors[name] = d["error"]
                continue
            ispkg = d["path"].endswith("__init__.py")
            mname = name[:-len(".__init__")] if name.endswith(".__init__") else name
            if ispkg:
                self.pkgs.add(mname)
            self.path[mname] = d["path"]
            self.code[mname] = d["ast"]
        self.compiled = {}
        self.builtins = self.make_builtins()
        self.entered = set()

    def compile(self, name):
        c = self.compiled.get(name)
        if c is None:
            t = Transpiler(name, self.path[name])
            mod = t.module(self.code[name])
            c = compile(mod, self.path[name], "exec")
            self.compiled[name] = c
            self.funcs[name] = t.funcs
        return c

    def make_builtins(self):
        b = dict(vars(builtins))
        b.update({
            "str": p_str, "unicode": p_unicode, "basestring": p_basestring, "int": p_int, "long": p_long, "bool": p_bool,
            "dict": p_dict, "set": p_set, "frozenset": p_frozenset, "float": p_float,
            "xrange": p_xrange, "range": p_range, "map": p_map, "filter": p_filter, "zip": p_zip, "sorted": p_sorted,
            "cmp": p_cmp, "reduce": functools.reduce, "hash": p_hash, "abs": abs, "min": p_minmax(True), "max": p_minmax(False),
            "sum": p_sum, "ord": p_ord, "chr": p_chr, "unichr": p_unichr, "any": p_any, "all": p_all, "divmod": p_divmod,
            "repr": repr_, "round": p_round, "type": p_type, "bytes": p_str, "apply": lambda f, a=(), k={}: f(*a, **k), "intern": lambda x: x, "open": p_open, "file": p_open, "raw_input": None, "StandardError": Exception,
            "_P_": H, "_E_": self._enter, "_T_": _tick, "_Exc_": Exception, "True": True, "False": False, "None": None,
        })
        b["__import__"] = self.do_import
        return b

    def _enter(self, name):
        self.entered.add(name)
        if ctx.deadline is not None:
            ctx.steps += 1
            if ctx.steps & 0x3FF == 0:
                _check_deadline()

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            if "." in name:
                setattr(self.load(name.rsplit(".", 1)[0]), name.rsplit(".", 1)[1], m)
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                # the package itself imported it
                return self.mods[name]
        else:
            parent = None
        if name not in self.code:
            if name in self.errors:
                raise SyntaxError(self.errors[name])
            raise ImportError("No module named %s" % (name,))
        m = types.ModuleType(name)
        m.__file__ = self.path[name]
        m.__dict__["__builtins__"] = self.builtins
        if name in self.pkgs:
            m.__path__ = [os.path.dirname(self.path[name])]
        self.mods[name] = m
        try:
            exec(self.compile(name), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def has(self, name):
        return name in self.code or name in self.errors

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        cur = (globals or {}).get("__name__", "")
        pkg = cur if cur in self.pkgs else (cur.rsplit(".", 1)[0] if "." in cur else "")
        full = None
        if level > 0:
            base = pkg
            for _ in range(level - 1):
                base = base.rsplit(".", 1)[0]
            full = base + ("." + name if name else "")
            head = full
        elif pkg and self.has(pkg + "." + name.split(".")[0]):
            full = pkg + "." + name
            head = pkg + "." + name.split(".")[0]
        elif self.has(name.split(".")[0]) and name.split(".")[0] in self.code:
            full = name
            head = name.split(".")[0]
        if full is not None:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and self.has(full + "." + f):
                        self.load(full + "." + f)
                return m
            return self.load(head)
        return self.std_import(name, fromlist)

    def std_import(self, name, fromlist):
        m = STD.get(name)
        if m is None:
            if name in PASS or name.split('.')[0] in sys.stdlib_module_names:
                m = __import__(name, fromlist=fromlist or ())
                if fromlist and "." in name:
                    m = sys.modules[name]
                return m
            raise ImportError("No module named %s" % (name,))
        if not fromlist and "." in name:
            # import a.b as c in py3.7+ uses IMPORT_FROM on the top package
            top = types.ModuleType(name.split(".")[0])
            cur = top
            parts = name.split(".")
            for i, p in enumerate(parts[1:], 1):
                nxt = m if i == len(parts) - 1 else types.ModuleType(".".join(parts[:i + 1]))
                setattr(cur, p, nxt)
                cur = nxt
            return top
        return m


def p_open(*a, **k):
    raise IOError("file access is outside the model")


def _tick():
    if ctx.deadline is not None:
        ctx.steps += 1
        if ctx.steps & 0x3FF == 0:
            _check_deadline()


def _check_deadline():
    import time
    if time.time() > ctx.deadline:
        raise sym.PathLimit("time")


PASS = set(["os", "os.path", "operator", "copy", "hashlib", "time", "math", "errno",
            "base64", "traceback", "getopt", "tarfile", "random", "threading", "tempfile", "shutil"])


def _mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


def _json_conv(x):
    if isinstance(x, dict):
        d = PDict()
        for k, v in x.items():
            d[_json_conv(k)] = _json_conv(v)
        return d
    if isinstance(x, list):
        return [_json_conv(i) for i in x]
    if isinstance(x, str):
        return UStr(x)
    return x


def _json_out(x):
    if isinstance(x, dict):
        return dict((_json_out(k), _json_out(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [_json_out(i) for i in x]
    if is_sym(x):
        x = concretize(x)
    if isinstance(x, UStr):
        return str(x)
    if isinstance(x, str):
        return x.encode("latin-1").decode("utf-8")
    return x


def _json_loads(s, **k):
    s = concretize(s)
    if isinstance(s, UStr):
        t = str(s)
    else:
        t = s.encode("latin-1").decode("utf-8")
    return _json_conv(json.loads(t))


def _json_dumps(o, **k):
    k.pop("encoding", None)
    if k.get("indent") is not None and "separators" not in k:
        k["separators"] = (", ", ": ")
    return json.dumps(_json_out(o), **k)


class Element(object):
    """A small xml.etree.cElementTree element (text and tags may be symbolic)"""

    def __init__(self, tag, attrib=None, **k):
        self.tag = tag
        self.attrib = PDict(attrib or {})
        self.attrib.update(k)
        self.text = None
        self.tail = None
        self._c = []

    def append(self, e):
        self._c.append(e)

    def insert(self, i, e):
        self._c.insert(i, e)

    def remove(self, e):
        self._c.remove(e)

    def getchildren(self):
        return self._c

    def __iter__(self):
        return iter(self._c)

    def __len__(self):
        return len(self._c)

    def __getitem__(self, i):
        return self._c[i]

    def __bool__(self):
        return len(self._c) > 0

    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def set(self, k, v):
        self.attrib[k] = v

    def find(self, tag):
        for c in self._c:
            if c.tag == tag:
                return c
        return None

    def findall(self, tag):
        return [c for c in self._c if c.tag == tag]

    def iter(self):
        yield self
        for c in self._c:
            for x in c.iter():
                yield x
    getiterator = iter


def SubElement(parent, tag, attrib=None, **k):
    e = Element(tag, attrib, **k)
    parent.append(e)
    return e


def _xml_esc(s, attr=False):
    if not isinstance(s, (str, SymStr)):
        raise TypeError("cannot serialize %r" % (s,))
    for a, b in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;")) + ((('"', "&quot;"), ("\n", "&#10;")) if attr else ()):
        s = H.meth(s, "replace", a, b)
    return s


def _xml_qname(tag, ns):
    t = concretize(tag)
    if t[:1] == "{":
        uri, name = t[1:].rsplit("}", 1)
        if uri not in ns:
            ns[uri] = "ns%d" % len(ns)
        return ns[uri] + ":" + name
    return t


def _xml_ser(e, out, ns, decl):
    t = _xml_qname(e.tag, ns)
    out.append("<" + t)
    for k, v in e.attrib.items():
        out.append(" " + _xml_qname(k, ns) + '="')
        out.append(_xml_esc(v, True))
        out.append('"')
    if decl:
        out.append(_DECL)
    if e.text or len(e._c):
        out.append(">")
        if e.text:
            out.append(_xml_esc(e.text))
        for c in e._c:
            _xml_ser(c, out, ns, False)
        out.append("</" + t + ">")
    else:
        out.append(" />")
    if e.tail:
        out.append(_xml_esc(e.tail))


class _Decl(object):
    pass


_DECL = _Decl()


def _xml_tostring(e, encoding=None, **k):
    out = []
    ns = {}
    _xml_ser(e, out, ns, True)
    decl = "".join(' xmlns:%s="%s"' % (p, u) for u, p in sorted(ns.items(), key=lambda x: x[1]))
    r = ""
    for o in out:
        r = r + (decl if o is _DECL else o)
    return r


class ParseError(SyntaxError):
    pass


class _md5(object):
    def __init__(self, s=""):
        import hashlib
        self.h = hashlib.md5(concretize(s).encode("latin-1"))

    def update(self, s):
        self.h.update(concretize(s).encode("latin-1"))

    def hexdigest(self):
        return self.h.hexdigest()


_XML = _mod("xml.etree.cElementTree", Element=Element, SubElement=SubElement, tostring=_xml_tostring, ParseError=ParseError)
_uuid_ctr = [0]


def _uuid4():
    _uuid_ctr[0] += 1
    import uuid
    return uuid.UUID(int=_uuid_ctr[0])


def _bisect_right(a, x, lo=0, hi=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if H.lt(x, a[mid]):
            hi = mid
        else:
            lo = mid + 1
    return lo


def _bisect_left(a, x, lo=0, hi=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if H.lt(a[mid], x):
            lo = mid + 1
        else:
            hi = mid
    return lo


def _insort_right(a, x, lo=0, hi=None):
    a.insert(_bisect_right(a, x, lo, hi), x)


_TYPES = {int: p_int, bool: p_bool, str: p_str, UStr: p_unicode, PDict: p_dict, PSet: p_set, float: p_float}


def _strmethod(name):
    def f(o, *a, **k):
        return H.meth(o, name, *a, **k)
    f.__name__ = name
    return staticmethod(f)


for _n in STRMETHODS:
    for _t in (p_str, p_unicode):
        if not hasattr(_t, _n) or getattr(_t, _n) is getattr(str, _n, None):
            setattr(_t, _n, _strmethod(_n))


def _std_itertools():
    import itertools
    m = _mod("itertools", **{k: v for k, v in vars(itertools).items() if not k.startswith("_")})
    m.izip = zip
    m.imap = lambda f, *its: (tuple(x) if f is None else f(*x) for x in zip(*its))
    m.ifilter = lambda f, it: (x for x in it if (x if f is None else f(x)))
    m.ifilterfalse = lambda f, it: (x for x in it if not (x if f is None else f(x)))
    m.izip_longest = itertools.zip_longest
    for k in ("zip_longest", "filterfalse", "accumulate", "pairwise", "batched"):
        m.__dict__.pop(k, None)
    return m


def _maketrans(a, b):
    t = list(map(chr, range(256)))
    for x, y in zip(concretize(a), concretize(b)):
        t[ord(x)] = y
    return "".join(t)


def _std_string():
    import string
    m = _mod("string", **{k: v for k, v in vars(string).items() if not k.startswith("_")})
    m.maketrans = _maketrans
    m.letters, m.lowercase, m.uppercase = string.ascii_letters, string.ascii_lowercase, string.ascii_uppercase
    for n in ("lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "replace", "find", "rfind", "index", "count", "capitalize", "zfill", "ljust", "rjust"):
        setattr(m, n, (lambda n: lambda s, *a: H.meth(s, n, *a))(n))
    m.join = lambda l, sep=" ": H.meth(sep, "join", l)
    m.atoi = lambda s, b=10: p_int(s, b)
    return m


class OrderedDict(PDict):
    def copy(self):
        return OrderedDict(self.items())
    __copy__ = copy

    def popitem(self, last=True):
        k = self.keys()[-1 if last else 0]
        return (k, self.pop(k))

    def __reversed__(self):
        return iter(self.keys()[::-1])

    def __repr__(self):
        return H.mod("OrderedDict(%s)", (repr_(self.items()) if len(self) else "",))


class defaultdict(PDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        PDict.__init__(self, *a, **k)

    def __getitem__(self, k):
        s = self._find(k)
        if s is _missing:
            if self.default_factory is None:
                raise KeyError(k)
            self[k] = v = self.default_factory()
            return v
        return dict.__getitem__(self, s)

    def copy(self):
        return defaultdict(self.default_factory, self)
    __copy__ = copy


class Counter(PDict):
    def __init__(self, it=None, **k):
        PDict.__init__(self)
        self.update(it, **k)

    def __getitem__(self, k):
        return self.get(k, 0)

    def update(self, it=None, **k):
        if it is not None:
            for x, n in (it.items() if isinstance(it, dict) else [(x, 1) for x in it]):
                self[x] = self[x] + n
        for x, n in k.items():
            self[x] = self[x] + n

    def elements(self):
        return iter([x for x, n in self.items() for _ in range(n)])

    def most_common(self, n=None):
        return sorted(self.items(), key=lambda x: -x[1])[:n]


def _std_collections():
    import collections
    m = _mod("collections", namedtuple=collections.namedtuple, deque=collections.deque)
    m.OrderedDict, m.defaultdict, m.Counter = OrderedDict, defaultdict, Counter
    for n in ("Mapping", "MutableMapping", "Sequence", "Iterable", "Callable", "Hashable", "Set", "Iterator"):
        setattr(m, n, getattr(collections.abc, n))
    return m


def _std_types():
    m = _mod("types", **{k: v for k, v in vars(types).items() if not k.startswith("_")})
    m.StringType, m.UnicodeType, m.StringTypes = p_str, p_unicode, (p_str, p_unicode)
    m.IntType, m.LongType, m.BooleanType, m.FloatType = p_int, p_long, p_bool, float
    m.ListType, m.TupleType, m.DictType, m.NoneType = list, tuple, p_dict, type(None)
    return m


def _std_sys():
    m = _mod("sys", **{k: v for k, v in vars(sys).items() if not k.startswith("_")})
    m.maxint = 2147483647
    return m


def _total_ordering(c):
    def own(n):
        return any(n in b.__dict__ and not getattr(b.__dict__[n], "_p2cmp", False) for b in c.__mro__[:-1])
    d = {}
    if own("__lt__"):
        d = {"__gt__": lambda s, o: not (s < o or s == o), "__le__": lambda s, o: s < o or s == o, "__ge__": lambda s, o: not s < o}
    elif own("__le__"):
        d = {"__ge__": lambda s, o: not s <= o or s == o, "__lt__": lambda s, o: s <= o and not s == o, "__gt__": lambda s, o: not s <= o}
    elif own("__gt__"):
        d = {"__lt__": lambda s, o: not (s > o or s == o), "__ge__": lambda s, o: s > o or s == o, "__le__": lambda s, o: not s > o}
    elif own("__ge__"):
        d = {"__le__": lambda s, o: not s >= o or s == o, "__gt__": lambda s, o: s >= o and not s == o, "__lt__": lambda s, o: not s >= o}
    else:
        raise ValueError("must define at least one ordering operation: < > <= >=")
    for k, v in d.items():
        if not own(k):
            setattr(c, k, v)
    return c


def _std_functools():
    m = _mod("functools", **{k: v for k, v in vars(functools).items() if not k.startswith("_")})
    m.total_ordering = _total_ordering
    return m


import py2re

STD = {
    "functools": _std_functools(),
    "itertools": _std_itertools(),
    "string": _std_string(),
    "collections": _std_collections(),
    "types": _std_types(),
    "sys": _std_sys(),
    "re": py2re.mod,
    "bisect": _mod("bisect", bisect_right=_bisect_right, bisect_left=_bisect_left, bisect=_bisect_right, insort=_insort_right,
                   insort_right=_insort_right, insort_left=lambda a, x: a.insert(_bisect_left(a, x), x)),
    "uuid": _mod("uuid", uuid4=_uuid4, uuid1=_uuid4),
    "cStringIO": _mod("cStringIO", StringIO=StringIO),
    "StringIO": _mod("StringIO", StringIO=StringIO),
    "json": _mod("json", loads=_json_loads, dumps=_json_dumps),
    "xml.etree.cElementTree": _XML,
    "xml.etree.ElementTree": _XML,
    "hashlib": _mod("hashlib", md5=_md5),
    "urllib": _mod("urllib"),
    "__future__": _mod("__future__"),
}
