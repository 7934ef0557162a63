"""Executes the repository's current source with the stand-ins of shim.py."""
import ast
import builtins
import os
import sys
import types
from fractions import Fraction as Fr

from . import core, shim

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Lift(ast.NodeTransformer):
    """Float literals become exact rationals, '/' and '**' exact on numbers.  Nothing else is touched."""

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name("__sx_lit__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__sx_div__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name("__sx_pow__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__sx_mod__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [n.target], ast.Call(ast.Name("__sx_idiv__", ast.Load()),
                                     [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n


_lits = {}


def lit(s):
    v = _lits.get(s)
    if v is None:
        f = float(s)
        v = _lits[s] = f if (f != f or f in (float("inf"), float("-inf"))) else core.rconst(Fr(s))
    return v


def mod_(a, b):
    if isinstance(a, str):
        return text_mod(a, b)
    return a % b


import re  # noqa: E402
_fmt = re.compile(r"%[-+ #0]*(\*|\d+)?(\.(\*|\d+))?[diouxXeEfFgGcrsa%]")


def text_mod(s, args):
    """'%'-formatting; symbolic numbers print as read-back tokens."""
    tup = args if isinstance(args, tuple) else (args,)
    if not any(isinstance(x, (core.R, core.Ang, core.Cond)) for x in tup):
        return s % args
    it = iter(tup)

    def rep(m):
        spec = m.group(0)
        if spec[-1] == "%":
            return "%"
        v = next(it)
        if isinstance(v, core.R) and spec[-1] in "dioxX":
            return spec % int(v)
        if isinstance(v, core.R) and spec[-1] in "eEfFgG":
            return format(v, ".6" + spec[-1] if "." not in spec else spec[spec.index("."):])
        if isinstance(v, (core.R, core.Ang)):
            return str(v)
        if isinstance(v, core.Cond):
            return spec % bool(v)
        return spec % (v,)
    return _fmt.sub(rep, s)


_code = {}


def compiled(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Lift().visit(tree))
        c = _code[path] = compile(tree, path, "exec", dont_inherit=True)
    return c


class World:
    """One fresh set of module instances (one per path)."""

    def __init__(self, stubs=None, builtins_extra=None):
        self.mods = {}
        self.stubs = {"numpy": shim.NP, "numpy.linalg": shim.LA, "math": shim.MATH}
        self.stubs.update(stubs or {})
        b = dict(builtins.__dict__)
        b.update(shim.BUILTINS)
        b.update(builtins_extra or {})
        b["__import__"] = self.imp
        b["__sx_lit__"], b["__sx_div__"], b["__sx_idiv__"], b["__sx_pow__"], b["__sx_mod__"] = \
            lit, shim.div, shim.idiv, shim.power, mod_
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        base = os.path.join(REPO_SRC, *name.split("."))
        pkg = os.path.isdir(base)
        path = os.path.join(base, "__init__.py") if pkg else base + ".py"
        space = pkg and not os.path.exists(path)
        if not os.path.exists(path) and not space:
            raise ImportError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [base]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            setattr(parent, name.rpartition(".")[2], m)
        if not space:
            exec(compiled(path), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        if full in self.stubs and (fromlist or "." not in full):
            return self.stubs[full]
        if full.split(".")[0] == "bgem":
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f) and hasattr(m, "__path__"):
                    try:
                        self.load(full + "." + f)
                    except ImportError:
                        pass
            return m if fromlist else self.load(full.split(".")[0])
        top = full.split(".")[0]
        if top in self.stubs:
            m = self.stubs[top]
            if not fromlist:
                return m
            for part in full.split(".")[1:]:
                m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)
