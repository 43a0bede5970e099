"""AST interpreter over pyvc values: the Python subset used by /repo."""
import ast, os, hashlib
import builtins as pybuiltins
from fractions import Fraction
import z3
from .core import *
from . import core


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.binds = {}
        self.star = []
        for s in tree.body:
            self.collect(s)

    def collect(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.binds[s.name] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.binds[t.id] = s
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.binds[s.target.id] = s
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if a.name == "*":
                    self.star.append(s)
                else:
                    self.binds[(a.asname or a.name).split(".")[0] if isinstance(s, ast.Import) and not a.asname else (a.asname or a.name)] = (s, a)
        elif isinstance(s, ast.Try):
            for x in s.body:
                self.collect(x)
        elif isinstance(s, ast.If):
            for x in s.body + s.orelse:
                self.collect(x)


class ModV(Value):
    def __init__(self, mod):
        self.mod = mod


class ExtV(Value):
    """something from outside the repository, by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class ClassV(Value):
    def __init__(self, mod, node, bases, name, attrs):
        self.mod, self.node, self.bases, self.name, self.attrs = mod, node, bases, name, attrs
        self.qual = "%s:%s" % (mod.name, name) if mod else name

    def __repr__(self):
        return "Class(%s)" % self.name


class NTClass(Value):
    def __init__(self, name, fields, defaults=None):
        self.name, self.fields, self.defaults = name, list(fields), defaults


class EnumMember(Value):
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls, self.name)


class Closure(Value):
    def __init__(self, node, frame, mod, qual, defaults, kwdefaults, owner=None):
        self.node, self.frame, self.mod, self.qual = node, frame, mod, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.owner = owner

    def __repr__(self):
        return "fn(%s)" % self.qual


class Bound(Value):
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Prop(Value):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClassM(Value):
    def __init__(self, fn):
        self.fn = fn


class StaticM(Value):
    def __init__(self, fn):
        self.fn = fn


class PartialV(Value):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class ExcV(Value):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return "Exc(%s)" % (self.cls,)


class SuperV(Value):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Frame:
    def __init__(self, loc, parent, mod, qual, closure=None, self_=None):
        self.loc, self.parent, self.mod, self.qual = loc, parent, mod, qual
        self.closure = closure
        self.nonlocals = set()
        self.globals = set()
        self.loop_no = 0


class Op:
    """logged accumulator operation"""

    def __init__(self, kind, loc, path, val, binders=(), cond=True):
        self.kind, self.loc, self.path, self.val = kind, loc, tuple(path), val
        self.binders, self.cond = list(binders), cond

    def lift(self, binders, cond):
        self.binders = list(binders) + self.binders
        self.cond = And(cond, self.cond)


class Fold:
    def __init__(self):
        self.reads = []


BUILTIN_EXC = {n: getattr(pybuiltins, n) for n in dir(pybuiltins) if isinstance(getattr(pybuiltins, n), type) and issubclass(getattr(pybuiltins, n), BaseException)}


class Interp(Engine):
    def __init__(self, repo, models):
        super().__init__()
        self.repo = repo
        self.models = models  # dotted name -> python model (E, args, kw) or value
        self.modules = {}
        self.digest = hashlib.sha256()
        self.used_models = set()
        self.current = None
        self.max_depth = 60

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                src = open(p).read()
                m = Module(name, p, ast.parse(src), src)
                m.is_pkg = p.endswith("__init__.py")
                self.digest.update(src.encode())
                self.modules[name] = m
                return m
        return None

    def modglobals(self, mod):
        loc = ("mod", mod.name)
        if loc not in self.heap:
            self.heap[loc] = {}
        return loc

    def lookup_global(self, mod, name):
        loc = self.modglobals(mod)
        g = self.heap[loc]
        if name in g:
            return g[name]
        b = mod.binds.get(name)
        if b is None:
            for s in mod.star:
                m2 = self.resolve_from(mod, s)
                if isinstance(m2, ModV):
                    v = self.lookup_global(m2.mod, name)
                    if v is not None:
                        return v
            return None
        v = self.eval_binding(mod, name, b)
        self.heap[loc] = dict(self.heap[loc], **{name: v})
        return v

    def resolve_from(self, mod, s):
        if s.level:
            pkg = mod.name.split(".")
            if not mod.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - (s.level - 1)]
            full = ".".join(pkg + ([s.module] if s.module else []))
        else:
            full = s.module
        m = self.module(full) if full.split(".")[0] == "gerrychain" else None
        return ModV(m) if m else ExtV(full)

    def eval_binding(self, mod, name, b):
        fr = Frame(("mod", mod.name), None, mod, mod.name)
        if isinstance(b, tuple):
            s, a = b
            if isinstance(s, ast.Import):
                full = a.name if a.asname else a.name.split(".")[0]
                m = self.module(full) if full.split(".")[0] == "gerrychain" else None
                return ModV(m) if m else ExtV(full)
            src = self.resolve_from(mod, s)
            if isinstance(src, ModV):
                if src.mod is not mod:
                    v = self.lookup_global(src.mod, a.name)
                    if v is not None:
                        return v
                m = self.module(src.mod.name + "." + a.name)
                if m:
                    return ModV(m)
                raise Unsupported("import %s from %s" % (a.name, src.mod.name))
            return self.ext(src.name + "." + a.name)
        if isinstance(b, ast.FunctionDef):
            return self.make_function(b, fr)
        if isinstance(b, ast.ClassDef):
            return self.make_class(b, fr)
        if isinstance(b, (ast.Assign, ast.AnnAssign)):
            v = self.ev(b.value, fr)
            if isinstance(b, ast.Assign) and not isinstance(b.targets[0], ast.Name):
                raise Unsupported("module-level unpacking")
            return v
        raise Unsupported("module binding %s" % name)

    def ext(self, name):
        if name in self.models and not callable(self.models[name]):
            return self.models[name]
        return ExtV(name)

    # ------------------------------------------------------------ frames
    def new_frame(self, parent, mod, qual, closure=None):
        loc = "F%d" % self.uid()
        self.heap[loc] = {}
        return Frame(loc, parent, mod, qual, closure)

    def getvar(self, name, fr):
        f = fr
        while f is not None:
            d = self.heap.get(f.loc)
            if d is None and isinstance(f.loc, tuple):
                break
            if name in d and not (name in f.globals):
                v = d[name]
                if isinstance(v, Poison):
                    raise Unsupported("variable %s: %s" % (name, v.why))
                return v
            f = f.parent
        v = self.lookup_global(fr.mod, name)
        if v is not None:
            return v
        if name in NAMED_CONST:
            return NAMED_CONST[name]
        if "builtins." + name in self.models:
            return ExtV("builtins." + name)
        if name in BUILTIN_EXC:
            return ExtV("builtins." + name)
        raise Unsupported("name %s" % name)

    def setvar(self, name, v, fr):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while name not in self.heap[f.loc]:
                f = f.parent
        if name in fr.globals:
            raise Unsupported("global assignment")
        self.heap[f.loc] = dict(self.heap[f.loc], **{name: v})

    # ------------------------------------------------------------ functions and classes
    def make_function(self, node, fr, owner=None):
        q = fr.qual + (":" if ":" not in fr.qual else ".") + node.name if not owner else "%s:%s.%s" % (fr.mod.name, owner, node.name)
        defaults = [self.ev(d, fr) for d in node.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        v = Closure(node, fr, fr.mod, q, defaults, kwd, owner)
        for d in reversed(node.decorator_list):
            v = self.decorate(d, v, fr)
        return v

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod"):
            return {"property": Prop, "classmethod": ClassM, "staticmethod": StaticM}[d.id](v)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            return ("setter", d.value.id, v)
        f = self.ev(d, fr)
        return self.call(f, [v], {})

    def make_class(self, node, fr):
        bases = []
        for b in node.bases:
            bases.append(self.ev(b, fr))
        cls = ClassV(fr.mod, node, bases, node.name, {})
        decs = list(node.decorator_list)
        ens = any(isinstance(b, ExtV) and b.name in ("enum.Enum", "enum.IntEnum") for b in bases)
        cfr = Frame(fr.loc, fr.parent, fr.mod, fr.qual)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = self.make_function(s, cfr, owner=node.name)
                if isinstance(f, tuple):
                    cls.attrs[f[1]] = Prop(cls.attrs[f[1]].fget, f[2])
                else:
                    cls.attrs[s.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name):
                    if t.id in ("__slots__", "__doc__"):
                        continue
                    cls.attrs[t.id] = ("lazy", s.value, cfr)
                    if ens:
                        cls.attrs[t.id] = EnumMember(cls.name, t.id, self.ev(s.value, cfr))
        for d in reversed(decs):
            r = self.call(self.ev(d, fr), [cls], {})
            if r is not cls:
                raise Unsupported("class decorator")
        return cls

    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            if isinstance(b, ClassV):
                out += [c for c in self.mro(b) if c not in out]
            else:
                out.append(b)
        return out

    def class_attr(self, cls, name, after=None):
        ms = self.mro(cls)
        if after is not None:
            ms = ms[[c.name if isinstance(c, ClassV) else None for c in ms].index(after.name) + 1:]
        for c in ms:
            if isinstance(c, ClassV):
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, tuple) and v[0] == "lazy":
                        loc = ("mod", "%s.%s" % (c.mod.name, c.name))
                        if loc not in self.heap:
                            self.heap[loc] = {}
                        if name not in self.heap[loc]:
                            x = self.ev(v[1], v[2])
                            self.heap[loc] = dict(self.heap[loc], **{name: x})
                        return self.heap[loc][name]
                    return v
            elif isinstance(c, ExtV):
                k = c.name + "." + name
                if k in self.models:
                    return ExtMethod(k)
        return None

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.force(f)
        self.depth += 1
        try:
            if self.depth > self.max_depth:
                raise Unsupported("call depth")
            return self.call_(f, list(args), dict(kw))
        finally:
            self.depth -= 1

    def call_(self, f, args, kw):
        if isinstance(f, PyFn):
            return f.fn(self, *[self.force(a) for a in args], **{k: self.force(a) for k, a in kw.items()})
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, PartialV):
            return self.call(f.fn, f.args + args, {**f.kw, **kw})
        if isinstance(f, (ClassM, StaticM)):
            return self.call(f.fn, args, kw)
        if isinstance(f, Closure):
            c = self.contracts.get(f.qual)
            if c is not None and f.qual != self.current:
                return c(self, *args, **kw)
            return self.apply(f, args, kw)
        if isinstance(f, (ExtV, ExtMethod)):
            m = self.models.get(f.name)
            if callable(m):
                self.used_models.add(f.name)
                return m(self, *args, **kw)
            if f.name.startswith("builtins.") and f.name[9:] in BUILTIN_EXC:
                return ExcV(BUILTIN_EXC[f.name[9:]], args)
            raise Unsupported("external function %s" % f.name)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, NTClass):
            vals = dict(zip(f.fields, args))
            vals.update(kw)
            for n, d in getattr(f, "dmap", {}).items():
                vals.setdefault(n, d)
            if any(n not in vals for n in f.fields):
                raise PyRaise(ExcV(TypeError))
            return Tup([vals[n] for n in f.fields], f)
        if isinstance(f, Opaque) and f.call is not None:
            return f.call(self, *args, **kw)
        c = self.content(f)
        if isinstance(c, ObjC):
            m = self.class_attr(c.cls, "__call__")
            if m is not None:
                return self.call(m, [f] + args, kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kw):
        c = self.contracts.get(cls.qual)
        if c is not None and self.current != cls.qual:
            return c(self, *args, **kw)
        for b in self.mro(cls):
            if isinstance(b, ExtV) and b.name.startswith("builtins.") and b.name[9:] in BUILTIN_EXC:
                return ExcV(cls, args)
        o = self.alloc(ObjC(cls, {}))
        init = self.class_attr(cls, "__init__")
        if init is None and getattr(cls, "dcfields", None) is not None:
            vals = dict(zip([n for n, _ in cls.dcfields], args), **kw)
            for n, d in cls.dcfields:
                if n not in vals:
                    if d is None:
                        raise PyRaise(ExcV(TypeError))
                    vals[n] = self.class_attr(cls, n)
            self.heap[o.loc] = ObjC(cls, vals)
            return o
        if init is not None:
            self.call(init, [o] + args, kw)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        env = {}
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise(ExcV(TypeError))
            env[a.vararg.arg] = Tup(args[len(names):])
            args = args[: len(names)]
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            env[n] = v
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in env:
                    raise PyRaise(ExcV(TypeError))
                env[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            raise PyRaise(ExcV(TypeError))
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(RecC(extra))
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            env.setdefault(n, d)
        for k, d in f.kwdefaults.items():
            env.setdefault(k, d)
        for n in names + kwn:
            if n not in env:
                raise PyRaise(ExcV(TypeError))
        return env

    def apply(self, f, args, kw):
        self.inlined.add(f.qual)
        env = self.bind(f, args, kw)
        fr = self.new_frame(f.frame, f.mod, f.qual, f)
        self.heap[fr.loc] = env
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fr)
        isgen = f.node.__dict__.get("_isgen")
        if isgen is None:
            isgen = f.node._isgen = has_yield(f.node)
        if isgen:
            h = self.models.get("generator")
            if h is not None:
                r = h(self, f, fr)
                if r is not None:
                    return r
            out = self.alloc(ListC([]))
            fr.yields = out
            try:
                self.ex(f.node.body, fr)
            except ReturnX:
                pass
            return self.as_iterable(out)
        try:
            self.ex(f.node.body, fr)
        except ReturnX as r:
            return r.v
        return None

    def as_iterable(self, ref):
        return ref

    # ------------------------------------------------------------ statements
    def ex(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        t = type(s).__name__
        m = getattr(self, "s_" + t, None)
        if m is None:
            raise Unsupported("statement %s" % t)
        try:
            m(s, fr)
        except Unsupported as u:
            if not getattr(u, "where", None):
                u.where = "%s line %d" % (fr.qual, s.lineno)
            raise

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, fr) if s.value.value else None
            self.do_yield(v, fr)
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value, fr)
            self.list_extend(fr.yields, v)
            return
        self.ev(s.value, fr)

    def do_yield(self, v, fr):
        h = getattr(fr, "on_yield", None)
        if h is not None:
            return h(v)
        self.list_append(fr.yields, v)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            self.setvar(a.asname or a.name.split(".")[0], self.eval_binding(fr.mod, None, (s, a)), fr)

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            self.setvar(a.asname or a.name, self.eval_binding(fr.mod, None, (s, a)), fr)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Global(self, s, fr):
        fr.globals |= set(s.names)

    def s_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_FunctionDef(self, s, fr):
        self.setvar(s.name, self.make_function(s, fr), fr)

    def s_ClassDef(self, s, fr):
        self.setvar(s.name, self.make_class(s, fr), fr)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [n for n, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                items = self.concrete_items(v)
                n = stars[0]
                m = len(t.elts) - n - 1
                vals = items[:n] + [self.alloc(ListC(items[n:len(items) - m]))] + items[len(items) - m:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise PyRaise(ExcV(ValueError))
            return list(v.items)
        c = self.content(v)
        if isinstance(c, SeqC):
            if not self.branch(c.n == n):
                raise PyRaise(ExcV(ValueError))
            return [c.at(z3.IntVal(i)) for i in range(n)]
        items = self.concrete_items(v)
        if len(items) != n:
            raise PyRaise(ExcV(ValueError))
        return items

    def concrete_items(self, v):
        v = self.force(v)
        if isinstance(v, Tup):
            return list(v.items)
        c = self.content(v)
        if isinstance(c, ListC):
            return list(c.items)
        segs = self.segments(v)
        if any(isinstance(s, Iter) for s in segs):
            raise Unsupported("sequence of unknown length")
        return [s for s in segs]

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(t.id, fr)
            r = self.inplace(s.op, cur, self.ev(s.value, fr))
            self.setvar(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            r = self.inplace(s.op, self.getattr(o, t.attr), self.ev(s.value, fr))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            r = self.inplace(s.op, cur, self.ev(s.value, fr))
            if r is not cur:
                self.setitem(o, k, r)
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, a, b):
        """in-place operators on mutable containers"""
        a = self.force(a)
        if isinstance(a, (Ref, PathRef)):
            c = self.content(a)
            cc = c.base if isinstance(c, AccC) else c
            if isinstance(c, AccPath):
                cc = self.acc_orig(c)
            if isinstance(cc, SetC) and not cc.frozen:
                if isinstance(op, ast.BitOr):
                    self.set_update(a, b)
                    return a
                if isinstance(op, ast.Sub):
                    self.set_remove_all(a, b)
                    return a
                if isinstance(op, ast.BitAnd):
                    s2 = self.to_set(b)
                    c = self.real_content(a)
                    self.put_content(a, SetC(so(c.sort, s2.sort), lambda y, c=c, s2=s2: And(c.mem(y), s2.mem(y))))
                    return a
            if isinstance(cc, (ListC, BagC, SeqC, WorkC)) and isinstance(op, ast.Add):
                self.list_extend(a, b)
                return a
            if isinstance(cc, RecC) or isinstance(cc, MapC):
                if isinstance(op, ast.BitOr):
                    self.map_update(a, b)
                    return a
        return self.binop(op, a, b)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.map_del(self.ev(t.value, fr), self.ev(t.slice, fr))
            else:
                raise Unsupported("del")

    def s_If(self, s, fr):
        if self.truthy(self.ev(s.test, fr)):
            self.ex(s.body, fr)
        else:
            self.ex(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truthy(self.ev(s.test, fr)):
            raise PyRaise(ExcV(AssertionError))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur)
        e = self.ev(s.exc, fr)
        if isinstance(e, (ExtV, ClassV)):
            e = self.call(e, [], {})
        if not isinstance(e, ExcV):
            raise Unsupported("raise of %r" % (e,))
        raise PyRaise(e)

    def exc_matches(self, exc, h):
        """h: value of the handler's type expression"""
        if isinstance(h, Tup):
            return any(self.exc_matches(exc, x) for x in h.items)
        c = exc.cls
        if isinstance(h, ClassV):
            return isinstance(c, ClassV) and any(isinstance(x, ClassV) and x.qual == h.qual for x in self.mro(c))
        if isinstance(h, ExtV) and h.name.startswith("builtins."):
            hb = BUILTIN_EXC[h.name[9:]]
            if isinstance(c, type):
                return issubclass(c, hb)
            if isinstance(c, ClassV):
                return any(isinstance(x, ExtV) and issubclass(BUILTIN_EXC[x.name[9:]], hb) for x in self.mro(c) if isinstance(x, ExtV) and x.name[9:] in BUILTIN_EXC)
        raise Unsupported("except clause")

    def s_Try(self, s, fr):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            self.ex(s.body, fr)
        except PyRaise as p:
            for h in s.handlers:
                if h.type is None or self.exc_matches(p.exc, self.ev(h.type, fr)):
                    if h.name:
                        self.setvar(h.name, p.exc, fr)
                    old = getattr(fr, "handling", None)
                    fr.handling = p.exc
                    try:
                        self.ex(h.body, fr)
                    finally:
                        fr.handling = old
                    return
            raise
        self.ex(s.orelse, fr)

    def s_With(self, s, fr):
        raise Unsupported("with")

    # ------------------------------------------------------------ loops
    def loop_key(self, s, fr):
        """(qualname, n): the n-th loop of the function, in source order"""
        f = fr.closure.node if fr.closure is not None else None
        if f is None:
            return None
        loops = f.__dict__.get("_loops")
        if loops is None:
            loops = f._loops = [x for x in walk_fn(f) if isinstance(x, (ast.For, ast.While))]
        return (fr.qual, loops.index(s)) if s in loops else None

    def invariant(self, s, fr):
        key = self.loop_key(s, fr)
        if key is None:
            return None
        if any(k[0] == key[0] for k in self.invariants):
            want = known_loops().get(key[0])
            if want is not None and want != loop_shape(fr.closure.node):
                raise Unsupported("the loops of the function are not those its invariants were written for")
        return self.invariants.get(key)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        inv = self.invariant(s, fr)
        segs = self.segments(it)
        try:
            if inv is not None and any(isinstance(x, Iter) for x in segs):
                if len(segs) != 1:
                    raise Unsupported("invariant loop over several segments")
                self.inv_for(s, fr, segs[0], inv)
            else:
                for seg in segs:
                    if isinstance(seg, Iter):
                        body = self.grouping(s, fr)
                        if body is not None:
                            self.group_fold(seg, s, body, fr)
                            continue
                        self.fold(seg, lambda el: (self.assign(s.target, el, fr), self.ex(s.body, fr)))
                    else:
                        self.assign(s.target, seg, fr)
                        try:
                            self.ex(s.body, fr)
                        except ContinueX:
                            pass
        except BreakX:
            return
        self.ex(s.orelse, fr)

    def grouping(self, s, fr):
        """the idiom `if K not in M: M[K] = []` (or set(), {}) followed by uses of M[K] only: the same as M.setdefault(K, []);
        returns (M, factory, index of the statement, K) or None"""
        for j, st in enumerate(s.body):
            if not (isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.test, ast.Compare) and len(st.test.ops) == 1 and isinstance(st.test.ops[0], ast.NotIn)):
                continue
            m, k = st.test.comparators[0], st.test.left
            if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "keys" and not m.args and not m.keywords:
                m = m.func.value
            a = st.body[0]
            if isinstance(a, ast.AnnAssign):
                a = ast.Assign(targets=[a.target], value=a.value)
            if not (isinstance(m, ast.Name) and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Subscript)):
                continue
            t, v = a.targets[0], a.value
            kd = ast.dump(k)
            is_mk = lambda n: isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == m.id and ast.dump(n.slice) == kd
            if not is_mk(t):
                continue
            if isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "list", "dict") and not v.args and not v.keywords:
                kind = v.func.id if isinstance(v, ast.Call) else "list" if isinstance(v, ast.List) else "dict"
            else:
                continue
            later = [n for x in s.body[j + 1:] for n in ast.walk(x)]
            other = [n for i, x in enumerate(s.body) if i != j for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == m.id]
            if len(other) != sum(1 for n in later if is_mk(n)):
                return None
            knames = {n.id for n in ast.walk(k) if isinstance(n, ast.Name)}
            if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in knames | {m.id} for n in later):
                return None
            if any(isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and not is_mk(n) for n in later):
                return None
            if any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and is_mk(n.func.value)) for n in later):
                return None
            ref = self.force(self.ev(ast.Name(id=m.id, ctx=ast.Load()), fr))
            if not isinstance(ref, Ref):
                return None
            c = self.heap[ref.loc]
            if not (isinstance(c, RecC) and not c.d and c.default is None):
                return None
            return ref, kind, j, t
        return None

    def group_fold(self, seg, s, g, fr):
        ref, kind, j, t = g
        f = PyFn(lambda E: E.alloc({"list": lambda: ListC([]), "dict": lambda: RecC({}), "set": lambda: SetC(None, lambda y: z3.BoolVal(False))}[kind]()))
        self.heap = dict(self.heap)
        self.heap[ref.loc] = RecC({}, f)
        read = ast.Expr(value=ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()))
        ast.copy_location(read, s.body[j])
        ast.fix_missing_locations(read)
        body = s.body[:j] + [read] + s.body[j + 1:]
        self.fold(seg, lambda el: (self.assign(s.target, el, fr), self.ex(body, fr)))
        c = self.heap[ref.loc]
        self.heap = dict(self.heap)
        if isinstance(c, RecC):
            self.heap[ref.loc] = RecC(c.d)
        elif isinstance(c, MapC):
            self.heap[ref.loc] = MapC(c.ksort, c.dom0, c.get0, None, c.touched)
        else:
            raise Unsupported("grouping")

    def s_While(self, s, fr):
        inv = self.invariant(s, fr)
        if inv is not None:
            return self.inv_while(s, fr, inv)
        n = 0
        while True:
            c = self.truth(self.ev(s.test, fr))
            if not isinstance(c, bool):
                sc = z3.simplify(zbool(c))
                if not (z3.is_true(sc) or z3.is_false(sc)):
                    # symbolic loop without invariant: only loops whose body always leaves are handled
                    if n:
                        raise Unsupported("while loop without invariant")
                    if not self.branch(c):
                        break
                    try:
                        self.ex(s.body, fr)
                    except BreakX:
                        return
                    raise Unsupported("while loop without invariant")
                c = z3.is_true(sc)
            if not c:
                break
            n += 1
            if n > 64:
                raise Unsupported("while loop without invariant")
            try:
                self.ex(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                pass
        self.ex(s.orelse, fr)

    def poison_assigned(self, s, fr, inv):
        """every local assigned in the loop is unknown unless the invariant sets it"""
        names = {n.id for b in ([s.target] if isinstance(s, ast.For) else []) + s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        loc = self.heap[fr.loc]
        keep = getattr(inv, "keeps", ())
        self.heap[fr.loc] = dict(loc, **{n: Poison("assigned by a loop iteration") for n in names if n in loc and n not in keep})

    def frame_ok(self, snap, hs, fr, inv):
        """an arbitrary iteration changes nothing but what the invariant describes"""
        for loc, k in self.changed_slots(hs, self.heap):
            if loc == fr.loc or loc not in snap:
                continue
            if snap[loc] is not hs[loc]:
                continue
            raise Unsupported("the loop changes state its invariant does not describe")

    def inv_while(self, s, fr, inv):
        """inv: object with .havoc(E, fr) and .inv(E, fr) -> [(name, formula)]; partial correctness"""
        key = self.loop_key(s, fr)
        nm = "%s#loop%d" % key
        for n, f in inv.inv(self, fr):
            self.ensure("%s: invariant '%s' holds on entry" % (nm, n), f)
        snap = dict(self.heap)
        self.poison_assigned(s, fr, inv)
        inv.havoc(self, fr)
        for n, f in inv.inv(self, fr):
            self.assume(f)
        if hasattr(inv, "lemmas"):
            inv.lemmas(self, fr)
        h0, hs = snap, dict(self.heap)
        if self.truthy(self.ev(s.test, fr)):
            try:
                self.ex(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                pass
            self.frame_ok(h0, hs, fr, inv)
            if hasattr(inv, "after"):
                inv.after(self, fr)
            for n, f in inv.inv(self, fr):
                self.ensure("%s: invariant '%s' is preserved" % (nm, n), f)
            raise Infeasible()  # the arbitrary iteration ends here
        if hasattr(inv, "at_exit"):
            inv.at_exit(self, fr)

    def inv_for(self, s, fr, it, inv):
        """invariant over the set of elements already done (binder tuples)"""
        key = self.loop_key(s, fr)
        nm = "%s#loop%d" % key
        bs = self.bvars(it.sorts, "it")
        guard, el = it.mk(bs)
        none = lambda *xs: z3.BoolVal(False)
        for n, f in inv.inv(self, fr, none):
            self.ensure("%s: invariant '%s' holds on entry" % (nm, n), f)
        snap = dict(self.heap)
        self.poison_assigned(s, fr, inv)
        which = self.branch(self.fresh("in_loop", B))
        if which:
            done = self.fresh_fun("done", *(it.sorts + [B]))
            wit = [self.fresh("cur", srt) for srt in it.sorts]
            g, el = it.mk(wit)
            self.assume(g)
            self.assume(Not(done(*wit)))
            xs = self.bvars(it.sorts, "d")
            gx, _ = it.mk(xs)
            if it.seq:
                self.assume(ForAll(xs, done(*xs) == And(gx, it.seq(xs, wit))))
            else:
                self.assume(ForAll(xs, Implies(done(*xs), gx)))
            inv.cur = wit
            inv.havoc(self, fr, done)
            for n, f in inv.inv(self, fr, done):
                self.assume(f)
            hs = dict(self.heap)
            self.assign(s.target, el, fr)
            try:
                self.ex(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                return
            self.frame_ok(snap, hs, fr, inv)
            if hasattr(inv, "after"):
                inv.after(self, fr)
            done2 = lambda *ys: Or(done(*ys), And(*[y == w for y, w in zip(ys, wit)]))
            for n, f in inv.inv(self, fr, done2):
                self.ensure("%s: invariant '%s' is preserved" % (nm, n), f)
            raise Infeasible()
        alldone = lambda *ys: it.mk(list(ys))[0]
        inv.havoc(self, fr, alldone)
        for n, f in inv.inv(self, fr, alldone):
            self.assume(f)

    # ---- folding
    def fold(self, it, body):
        H0 = self.heap
        bs = self.bvars(it.sorts, "x")
        guard, el = it.mk(bs)
        guard = zbool(guard)
        if z3.is_false(z3.simplify(guard)):
            return
        slots = {}
        for attempt in range(7):
            self.heap = dict(H0)
            fold = Fold()
            for slot, base in slots.items():
                self.place(slot, base, fold)
            start = dict(self.heap)
            paths = self.explore(lambda: body(el), bs, guard)
            self.heap = H0
            changed = {}
            for p in paths:
                for slot in self.changed_slots(start, p.heap):
                    if slot not in slots:
                        changed[slot] = self.slot_value(H0, slot)
                for op in p.log:
                    pass
            if not changed:
                break
            memo = self.memo_entries(H0, paths, changed, bs)
            if memo:
                H0 = dict(H0)
                for loc, ent in memo.items():
                    H0[loc] = RecC({**H0[loc].d, **{k: self.adopt(v, H0) for k, v in ent.items()}}, H0[loc].default)
                    changed.pop((loc, None), None)
            slots.update(changed)
        else:
            raise Unsupported("loop: accumulators not stable")
        normal = [p for p in paths if p.kind == "ret"]
        exits = [p for p in paths if p.kind != "ret"]
        if exits:
            ec = Or(*[p.pc for p in exits])
            for p in exits:
                self.export_facts(p, bs, guard)
            if self.branch(Exists(bs, And(guard, ec))):
                w = [self.fresh("w", srt) for srt in it.sorts]
                g, elw = it.mk(w)
                self.assume(g)
                self.assume(z3.substitute(zbool(ec), *zip(bs, w)))
                if it.seq:
                    js = self.bvars(it.sorts, "j")
                    gj, _ = it.mk(js)
                    self.assume(ForAll(js, Implies(And(gj, it.seq(js, w)), Not(z3.substitute(zbool(ec), *zip(bs, js))))))
                self.heap = dict(self.heap)
                for slot in slots:
                    self.set_slot(slot, Poison("accumulator at an early loop exit"))
                body(elw)
                raise Infeasible()
            self.assume(ForAll(bs, Implies(guard, Not(ec))))
        for p in normal:
            self.export_facts(p, bs, guard)
        # compose
        self.heap = dict(H0)
        for loc, c in start.items():
            if isinstance(loc, tuple) and loc not in self.heap:
                self.heap[loc] = c
        ops = {}
        for p in normal:
            for op in p.log:
                op.val = self.materialize(op.val, p.heap)
                op.lift(bs, And(guard, p.pc))
                ops.setdefault(op.loc, []).append(op)
        touches = []
        for slot, base in slots.items():
            self.compose(slot, base, normal, ops, bs, guard, it, fold)
        for loc in ops:
            if (loc, None) not in slots:
                # operations on accumulators of an outer loop
                self.ctxs[-1].log.extend(ops[loc])

    def memo_entries(self, h0, paths, changed, bs):
        """records that only gain entries whose value is the same in every iteration (memo tables):
        the entries are added before the loop"""
        out = {}
        for loc, k in changed:
            if k is not None or not isinstance(h0[loc], RecC):
                continue
            old, ent = h0[loc], {}
            ok = True
            for p in paths:
                if p.kind != "ret":
                    continue
                c = p.heap[loc]
                if c is old:
                    continue
                if not isinstance(c, RecC) or any(c.d.get(x) is not v for x, v in old.d.items()):
                    ok = False
                    break
                for x, v in c.d.items():
                    if x in old.d:
                        continue
                    h, self.heap = self.heap, h0
                    try:
                        v = self.materialize(v, p.heap)
                    finally:
                        self.heap = h
                    if not self.binder_free(v, bs):
                        ok = False
                        break
                    ent.setdefault(x, v)
            if ok and ent:
                out[loc] = ent
        return out

    def binder_free(self, v, bs):
        if is_z(v):
            return not mentions(v, bs)
        if isinstance(v, CONCRETE) or isinstance(v, (Ref, Opaque)):
            return True
        if isinstance(v, NanNum):
            return self.binder_free(v.nan, bs) and self.binder_free(v.val, bs)
        if isinstance(v, (Tup, ListC)):
            return all(self.binder_free(x, bs) for x in v.items)
        if isinstance(v, RecC):
            return all(self.binder_free(x, bs) for x in v.d.values())
        if isinstance(v, SetC):
            return v.sort is None or self.binder_free(zbool(v.mem(self.bvars([v.sort], "m")[0])), bs)
        if isinstance(v, MapC):
            if v.touched or v.ksort is None:
                return False
            k = self.bvars([v.ksort], "m")[0]
            return self.binder_free(zbool(v.dom0(k)), bs) and self.binder_free(v.get0(k), bs)
        return False

    def adopt(self, v, heap):
        if isinstance(v, Content):
            loc = "L%d" % self.uid()
            heap[loc] = v
            return Ref(loc)
        return v

    def changed_slots(self, h0, h1):
        out = []
        for loc, c in h1.items():
            if loc not in h0 or h0[loc] is c:
                continue
            o = h0[loc]
            if isinstance(loc, tuple):
                continue
            if isinstance(c, dict):
                out += [(loc, k) for k in c if c[k] is not o.get(k, None) or k not in o]
            elif isinstance(c, ObjC) and isinstance(o, ObjC):
                if o.lazy is not None:
                    ch = [k for k in c.fields if k in o.fields and c.fields[k] is not o.fields[k]]
                    ch += [k for k in c.fields if k not in o.fields and k not in o.lazy]
                else:
                    ch = [k for k in c.fields if k not in o.fields or c.fields[k] is not o.fields[k]]
                out += [(loc, "." + k) for k in ch]
            elif isinstance(c, RecC) and isinstance(o, RecC) and set(c.d) == set(o.d) and c.d:
                out += [(loc, ("rec", k)) for k in c.d if c.d[k] is not o.d[k]]
            else:
                out.append((loc, None))
        return out

    def slot_value(self, h, slot):
        loc, k = slot
        c = h[loc]
        if k is None:
            return c
        if isinstance(c, dict):
            return c.get(k, Poison("unbound"))
        if isinstance(c, ObjC):
            return c.fields.get(k[1:], Poison("unset"))
        return c.d[k[1]]

    def set_slot(self, slot, v):
        loc, k = slot
        c = self.heap[loc]
        if k is None:
            self.heap[loc] = v
        elif isinstance(c, dict):
            self.heap[loc] = dict(c, **{k: v})
        elif isinstance(c, ObjC):
            self.heap[loc] = ObjC(c.cls, dict(c.fields, **{k[1:]: v}), c.lazy)
        else:
            self.heap[loc] = RecC(dict(c.d, **{k[1]: v}), c.default)

    def is_num(self, v):
        return isinstance(v, (int, Fraction, float, NanNum, AccNum)) and not isinstance(v, bool) or (is_z(v) and v.sort() in (I, R))

    def place(self, slot, base, fold):
        loc, k = slot
        if k is None:
            self.set_slot(slot, AccC(base, loc, fold))
        elif self.is_num(base):
            self.set_slot(slot, AccNum(slot, z3.IntVal(0)))
        else:
            self.set_slot(slot, Poison("assigned by an earlier iteration"))

    def compose(self, slot, base, normal, ops, bs, guard, it, fold):
        loc, k = slot
        if k is not None:
            deltas, assigns = [], []
            for p in normal:
                v = self.slot_value(p.heap, slot)
                if isinstance(v, AccNum) and v.slot == slot:
                    if not is_zero(z3.simplify(num(v.delta))) if not isinstance(v.delta, NanNum) else True:
                        deltas.append((p.pc, v.delta))
                elif isinstance(v, Poison):
                    pass
                else:
                    assigns.append((p.pc, v))
            if assigns and deltas:
                return self.set_slot(slot, Poison("mixed update in a loop"))
            if deltas:
                return self.set_slot(slot, self.add_sums(base, bs, guard, deltas))
            if assigns:
                vs = [v for _, v in assigns]
                if all(isinstance(v, CONCRETE) for v in vs) and all(type(v) == type(vs[0]) and v == vs[0] for v in vs):
                    c = Exists(bs, And(guard, Or(*[pc for pc, _ in assigns])))
                    if isinstance(base, Poison):
                        return self.set_slot(slot, base)
                    return self.set_slot(slot, self.ite(c, vs[0], base))
                return self.set_slot(slot, Poison("assigned in a loop"))
            return self.set_slot(slot, base)
        mine = ops.get(loc, [])
        self.heap[loc] = self.close(base, loc, mine, bs, it, fold)

    def add_sums(self, base, bs, guard, deltas):
        r = base
        for pc, d in deltas:
            if isinstance(d, NanNum):
                r = self.arith("+", r, NanNum(Exists(bs, And(guard, pc, d.nan)), self.sum(bs, And(guard, pc), d.val)))
            else:
                r = self.arith("+", r, self.sum(bs, And(guard, pc), d))
        return r

    def close(self, base, loc, ops, bs, it, fold):
        """closed form of a container after all iterations"""
        if isinstance(base, AccC):
            # accumulator of an enclosing loop: pass on, unless reads make it order dependent
            self.ctxs[-1].log.extend(ops)
            return base
        if fold.reads:
            self.check_reads(loc, ops, bs, it, fold)
        if not ops:
            return base
        kinds = {o.kind for o in ops}
        if isinstance(base, SetC):
            if kinds == {"add"}:
                srt = so(base.sort, enc(ops[0].val).sort())
                mem = lambda y: Or(base.mem(y), *[Exists(o.binders, And(o.cond, y == enc(o.val, srt))) for o in ops])
                return SetC(srt, mem)
            if kinds == {"rem"}:
                srt = base.sort
                mem = lambda y: And(base.mem(y), Not(Or(*[Exists(o.binders, And(o.cond, y == enc(o.val, srt))) for o in ops])))
                return SetC(srt, mem)
        if isinstance(base, WorkC) and kinds == {"append"}:
            if base.distinct:
                raise Unsupported("distinct worklist filled in a loop")
            return WorkC(base.sort, lambda y: Or(base.mem(y), *[Exists(o.binders, And(o.cond, y == enc(o.val, base.sort))) for o in ops]))
        if isinstance(base, (ListC, BagC)) and kinds == {"append"}:
            segs = list(base.items) if isinstance(base, ListC) else list(base.segs)
            for o in ops:
                segs.append(self.op_iter(o))
            return BagC(segs)
        if isinstance(base, RecC) and not base.d:
            base = MapC(None, lambda k: z3.BoolVal(False), lambda k: Poison("empty map"), base.default)
        if isinstance(base, MapC):
            return self.close_map(base, ops)
        if isinstance(base, ObjC):
            raise Unsupported("object replaced in a loop")
        raise Unsupported("loop updates %s on %s" % (sorted(kinds), type(base).__name__))

    def op_iter(self, o):
        srts = [b.sort() for b in o.binders]
        from .subst import subst_value

        def mk(xs):
            sub = list(zip(o.binders, xs))
            return (z3.substitute(zbool(o.cond), *sub) if sub else zbool(o.cond)), subst_value(self, o.val, sub)
        return Iter(srts, mk)

    def check_reads(self, loc, ops, bs, it, fold):
        rd = [k for l, k in fold.reads if l == loc]
        if not rd:
            return
        real_ops = [o for o in ops if o.kind != "touch"]
        if not real_ops:
            return
        if len(bs) == 1 and it.distinct:
            keys = rd + [o.path[0] if o.path else o.val if o.kind in ("add", "rem") else None for o in real_ops]
            if all(is_z(k) and k.eq(bs[0]) for k in keys):
                return
        raise Unsupported("loop reads its own accumulator")

    def close_map(self, base, ops):
        from .subst import subst_value
        ks = base.ksort
        for o in ops:
            if ks is None:
                ks = enc(o.path[0]).sort() if not is_z(o.path[0]) else o.path[0].sort()
        key = lambda o: enc(o.path[0], ks)
        kinds = {o.kind for o in ops if o.kind != "touch"}
        touched = lambda k: [Exists(o.binders, And(o.cond, key(o) == k)) for o in ops]
        dom = lambda k: Or(self.map_dom(base, k), *touched(k))
        if not kinds:
            new = [Touch(o.binders, o.cond, key(o)) for o in ops]
            return MapC(ks, base.dom0, base.get0, base.default, base.touched + tuple(new))
        work = [o for o in ops if o.kind != "touch"]
        if kinds <= {"add"} or kinds <= {"ksum"} or kinds <= {"append"}:
            if base.default is None and base.ksort is not None:
                # acc_get has established that every updated key was there before the loop
                dom = lambda k: self.map_dom(base, k)

            def get(k):
                v = self.map_getd(base, k)
                return self.apply_ops(v, [(o, o.path[1:], key(o) == k) for o in work])
            return MapC(ks, dom, get, base.default)
        if kinds == {"put"} and any(len(o.path) == 2 for o in work):
            return self.close_nested(base, work, ks, dom)
        if kinds == {"put"}:
            def get(k):
                v = self.map_getd(base, k) if base.default is not None or base.dom0 is not None else Poison("missing")
                for o in work:
                    if len(o.path) != 1:
                        raise Unsupported("nested put in a loop")
                kk = key(work[0])
                # writers of k
                r = v
                if len(work) > 1:
                    # several writers: a selector says which one wrote last
                    sel = self.fresh("lastw", I)
                conds = []
                for n, o in enumerate(work):
                    bsn, cond, val = list(o.binders), And(o.cond, key(o) == k), o.val
                    sub = []
                    for b in list(bsn):
                        kx = key(o)
                        if kx.eq(b):
                            sub.append((b, k))
                            bsn = [x for x in bsn if not x.eq(b)]
                            break
                        comp = tuple_component(kx, b) or self.inverse(kx, b)
                        if comp is not None:
                            sub.append((b, comp(k)))
                            bsn = [x for x in bsn if not x.eq(b)]
                    if sub:
                        cond = z3.substitute(zbool(cond), *sub)
                        val = subst_value(self, val, sub)
                    if bsn:
                        wits = []
                        for b in bsn:
                            wits.append(self.wit(o, b, k))
                        wsub = list(zip(bsn, wits))
                        ex = Exists(bsn, cond)
                        cw = z3.substitute(zbool(cond), *wsub)
                        self.assume_k(k, Implies(ex, cw))
                        cond, val = cw, subst_value(self, val, wsub)
                    conds.append((cond, val))
                if len(work) == 1:
                    return conds[0][1] if isinstance(r, Poison) else self.ite(conds[0][0], conds[0][1], r)
                raise Unsupported("several writers of one map in a loop")
            if len(work) > 1:
                work2 = self.merge_writers(work)
                if work2 is None:
                    raise Unsupported("several writers of one map in a loop")
                work[:] = work2
            return MapC(ks, dom, get, base.default)
        raise Unsupported("loop updates %s on a map" % sorted(kinds))

    def inverse(self, kx, b):
        """the key is an injective function of the binder (declared by the contract)"""
        if not z3.is_app(kx) or kx.num_args() != 1 or not kx.arg(0).eq(b):
            return None
        f = kx.decl()
        inv = getattr(self, "inverses", {}).get(f.name())
        if inv is None:
            return None
        return lambda k: k.arg(0) if z3.is_app(k) and k.decl().eq(f) else inv(k)

    def merge_writers(self, work):
        """writers that differ only in the path condition of the same iteration"""
        o0 = work[0]
        for o in work[1:]:
            if len(o.binders) != len(o0.binders) or not all(x.eq(y) for x, y in zip(o.binders, o0.binders)):
                return None
            if len(o.path) != 1:
                return None
        same_key = all(enc(o.path[0]).eq(enc(o0.path[0])) for o in work[1:])
        if not same_key:
            for n, o in enumerate(work):
                for q in work[:n]:
                    if not self.entails(ForAll(o.binders, Not(And(o.cond, q.cond))), 300):
                        return None
            k = enc(work[-1].path[0])
            for o in reversed(work[:-1]):
                k = z3.If(zbool(o.cond), enc(o.path[0], k.sort()), k)
        v = work[-1].val
        for o in reversed(work[:-1]):
            v = self.ite(o.cond, o.val, v)
        return [Op("put", o0.loc, o0.path if same_key else (k,), v, o0.binders, Or(*[o.cond for o in work]))]

    def close_nested(self, base, work, ks, dom):
        """m[k1][k2] = v for every pair of loop variables (k1, k2), starting from an empty map of maps"""
        from .subst import subst_value
        o = work[0]
        if len(work) != 1 or len(o.path) != 2 or len(o.binders) not in (1, 2) or base.default is None or base.ksort is not None:
            raise Unsupported("nested put in a loop")
        b1, b2 = o.path
        if not is_z(b1) or not is_z(b2) or b1.eq(b2) or not all(any(p.eq(b) for p in (b1, b2)) for b in o.binders):
            raise Unsupported("nested put in a loop")

        def get(k):
            if len(o.binders) == 1 and o.binders[0].eq(b1):
                return MapC(b2.sort(), lambda j: And(z3.substitute(zbool(o.cond), (b1, k)), enc(j, b2.sort()) == b2), lambda j: subst_value(self, o.val, [(b1, k)]))
            if len(o.binders) == 1:
                return MapC(b2.sort(), lambda j: And(k == b1, z3.substitute(zbool(o.cond), (b2, enc(j, b2.sort())))), lambda j: subst_value(self, o.val, [(b2, enc(j, b2.sort()))]))
            sub = lambda j: [(b1, k), (b2, j)]
            return MapC(b2.sort(), lambda j: z3.substitute(zbool(o.cond), *sub(enc(j, b2.sort()))), lambda j: subst_value(self, o.val, sub(enc(j, b2.sort()))))
        return MapC(ks, dom, get, base.default)

    def wit(self, o, b, k):
        """witness function for binder b of the last writer of key k"""
        key = ("wit", id(o), b.get_id())
        tab = self.__dict__.setdefault("_wits", {})
        if key not in tab:
            used = [zbool(o.cond)] + [enc(x) for x in o.path[:1]]
            free = [x for x in self.binders() if any(mentions(u, [x]) for u in used)]
            f = z3.Function("wit!%d" % self.uid(), *([x.sort() for x in free] + [k.sort(), b.sort()]))
            tab[key] = (f, free, o)
        f, free, _ = tab[key]
        return f(*(free + [k]))

    def assume_k(self, k, f):
        """f speaks about the key expression k, which may contain variables bound later: assume it for all keys"""
        if mentions(f, [k]) and z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            self.assume(ForAll([k], f))
        else:
            x = z3.Const("kk!%d" % self.uid(), k.sort())
            self.assume(ForAll([x], z3.substitute(f, (k, x))))

    def apply_ops(self, v, items):
        """items: (op, remaining path, condition)"""
        if isinstance(v, ChoiceV):
            v = self.force(v)
        heads = [it for it in items if not it[1]]
        deeper = [it for it in items if it[1]]
        if deeper and heads:
            raise Unsupported("mixed depth updates")
        if deeper:
            if isinstance(v, RecC):
                d = dict(v.d)
                for k in {it[1][0] for it in deeper}:
                    d[k] = self.apply_ops(d[k], [(o, p[1:], c) for o, p, c in deeper if p[0] == k])
                return RecC(d, v.default)
            if isinstance(v, MapC) or isinstance(v, RecC):
                raise Unsupported("two-level map update in a loop")
            raise Unsupported("nested update in a loop")
        kinds = {o.kind for o, _, _ in heads}
        if kinds == {"add"} and isinstance(v, SetC):
            srt = so(v.sort, enc(heads[0][0].val).sort())
            return SetC(srt, lambda y: Or(v.mem(y), *[Exists(o.binders, And(o.cond, c, y == enc(o.val, srt))) for o, _, c in heads]), v.frozen)
        if kinds == {"ksum"}:
            r = v
            for o, _, c in heads:
                d = o.val
                if isinstance(d, NanNum):
                    r = self.arith("+", r, NanNum(Exists(o.binders, And(o.cond, c, d.nan)), self.sum(o.binders, And(o.cond, c), d.val)))
                else:
                    r = self.arith("+", r, self.sum(o.binders, And(o.cond, c), d))
            return r
        if kinds == {"append"} and isinstance(v, (ListC, BagC)):
            segs = list(v.items) if isinstance(v, ListC) else list(v.segs)
            for o, _, c in heads:
                segs.append(self.op_iter(Op(o.kind, o.loc, o.path, o.val, o.binders, And(o.cond, c))))
            return BagC(segs)
        raise Unsupported("update %s on %s" % (kinds, type(v).__name__))


class ExtMethod(Value):
    def __init__(self, name):
        self.name = name


NAMED_CONST = {"__name__": "module", "Ellipsis": None, "NotImplemented": None}


def tuple_component(kx, b):
    """if b is a component of the constructor term kx, the accessor"""
    if z3.is_app(kx) and core.tupinfo(kx.sort()) and kx.num_args():
        for n in range(kx.num_args()):
            if kx.arg(n).eq(b):
                return lambda k, n=n: core.simp_acc(k, n)
    return None


def walk_fn(f):
    """statements of f without nested function bodies, in source order"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            out.append(c)
            go(c)
    if isinstance(f, ast.Lambda):
        return out
    go(f)
    out.sort(key=lambda n: (getattr(n, "lineno", 0), getattr(n, "col_offset", 0)))
    return out


def has_yield(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_fn(f))


def loop_shape(f):
    """kinds and nesting depths of the loops of a function, in source order"""
    out = []

    def go(n, d):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(("for" if isinstance(c, ast.For) else "while") + str(d))
                go(c, d + 1)
            else:
                go(c, d)
    go(f, 0)
    return " ".join(out)


_KNOWN = []


def known_loops():
    if not _KNOWN:
        import json, os
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")
        _KNOWN.append(json.load(open(p)) if os.path.exists(p) else {})
    return _KNOWN[0]
