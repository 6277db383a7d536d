"""A small abstract interpreter for the Python part: classes of straight code over opaque values. Values are atoms (of
which nothing but identity is known), texts, None, booleans, dictionaries and lists on a heap, and objects; a construct
outside of this makes the question undecided."""
import ast

from .check import Undecided


class Atom:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class Obj:
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs or {}


class Bound:
    def __init__(self, me, fn):
        self.me, self.fn = me, fn


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def no(n, what='construct'):
    raise Undecided('Python %s %s at line %s' % (what, type(n).__name__, getattr(n, 'lineno', '?')))


class Py:
    def __init__(self, text, externs):
        self.mod = ast.parse(text)
        self.externs = externs
        self.top = {}
        for n in self.mod.body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                self.top[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.top[n.targets[0].id] = n.value
        self.calls = []

    def method(self, cls, name):
        for n in cls.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n
        return None

    def decorated(self, n, what):
        return any((isinstance(d, ast.Name) and d.id == what) or (isinstance(d, ast.Attribute) and d.attr == what) or
                   (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == what) for d in n.decorator_list)

    def new(self, cls, args, kw):
        o = Obj(cls)
        init = self.method(cls, '__init__')
        if init is not None:
            self.call_fn(init, [o] + args, kw)
            return o
        if not self.decorated(cls, 'dataclass'):
            no(cls, 'class')
        names = []
        for n in cls.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                names.append(n.target.id)
                i = len(names) - 1
                if i < len(args):
                    o.attrs[n.target.id] = args[i]
                elif n.target.id in kw:
                    o.attrs[n.target.id] = kw[n.target.id]
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'field':
                    k = {x.arg: x.value for x in n.value.keywords}
                    if 'default_factory' in k:
                        f = k['default_factory']
                        if isinstance(f, ast.Name) and f.id in ('dict', 'list'):
                            o.attrs[n.target.id] = {} if f.id == 'dict' else []
                        elif isinstance(f, ast.Lambda):
                            o.attrs[n.target.id] = self.ev(f.body, {})
                        else:
                            no(f)
                    elif 'default' in k:
                        o.attrs[n.target.id] = self.ev(k['default'], {})
                    else:
                        no(n)
                elif n.value is not None:
                    # a default of the class is one object for all
                    self.shared = getattr(self, 'shared', {})
                    o.attrs[n.target.id] = self.shared.setdefault(id(n), self.ev(n.value, {}))
                else:
                    raise Undecided('Python argument %s' % n.target.id)
        post = self.method(cls, '__post_init__')
        if post is not None:
            self.call_fn(post, [o], {})
        return o

    def call_fn(self, fn, args, kw):
        ps = [a.arg for a in fn.args.args]
        env = {}
        ds = fn.args.defaults
        for i, p in enumerate(ps):
            if i < len(args):
                env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
            elif len(ps) - i <= len(ds):
                env[p] = self.ev(ds[i - (len(ps) - len(ds))], {})
            else:
                no(fn, 'call')
        for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            env[a.arg] = kw.pop(a.arg) if a.arg in kw else self.ev(d, {})
        if fn.args.kwarg:
            env[fn.args.kwarg.arg] = dict(kw)
        elif kw:
            no(fn, 'call')
        if fn.args.vararg:
            no(fn, 'call')
        try:
            self.block(fn.body, env)
        except Ret as r:
            return r.v
        return None

    def block(self, body, env):
        for n in body:
            self.stmt(n, env)

    def stmt(self, n, env):
        if isinstance(n, ast.Expr):
            self.ev(n.value, env)
        elif isinstance(n, ast.Return):
            raise Ret(self.ev(n.value, env) if n.value else None)
        elif isinstance(n, ast.Assign):
            v = self.ev(n.value, env)
            for t in n.targets:
                self.assign(t, v, env)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, env), env)
        elif isinstance(n, ast.AugAssign):
            x, y = self.ev(n.target, env), self.ev(n.value, env)
            if isinstance(n.op, ast.BitOr) and isinstance(x, dict) and isinstance(y, dict):
                x.update(y)
            elif isinstance(n.op, ast.Add) and isinstance(x, list) and isinstance(y, list):
                x.extend(y)
            else:
                no(n)
        elif isinstance(n, ast.If):
            self.block(n.body if self.truth(self.ev(n.test, env), n) else n.orelse, env)
        elif isinstance(n, ast.For):
            for x in list(self.iter(self.ev(n.iter, env), n)):
                self.assign(n.target, x, env)
                self.block(n.body, env)
        elif isinstance(n, ast.FunctionDef):
            env[n.name] = n
        elif not isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom)):
            no(n)

    def iter(self, v, n):
        if isinstance(v, dict):
            return v.keys()
        if isinstance(v, (list, tuple)):
            return v
        no(n, 'loop')

    def truth(self, v, n):
        if isinstance(v, Atom):
            no(n, 'test of an unknown value')
        if isinstance(v, Obj):
            return True
        return bool(v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                no(t)
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if not isinstance(o, dict):
                no(t)
            o[self.ev(t.slice, env)] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (list, tuple)) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.assign(a, b, env)
        else:
            no(t)

    def ev(self, n, env):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id in self.externs:
                return ('extern', n.id)
            if n.id in self.top:
                x = self.top[n.id]
                return self.ev(x, {}) if isinstance(x, ast.expr) else x
            if n.id in ('dict', 'list', 'getattr', 'setattr', 'isinstance', 'str', 'len', 'tuple', 'hasattr', 'vars'):
                return ('builtin', n.id)
            no(n, 'name %s' % n.id)
        if isinstance(n, ast.Attribute):
            o = self.ev(n.value, env)
            return self.attr(o, n.attr, n)
        if isinstance(n, ast.Dict):
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    x = self.ev(v, env)
                    if not isinstance(x, dict):
                        no(n)
                    d.update(x)
                else:
                    d[self.ev(k, env)] = self.ev(v, env)
            return d
        if isinstance(n, ast.DictComp) and len(n.generators) == 1:
            g = n.generators[0]
            d = {}
            for x in list(self.iter(self.ev(g.iter, env), n)):
                e2 = dict(env)
                self.assign(g.target, x, e2)
                if all(self.truth(self.ev(c, e2), n) for c in g.ifs):
                    d[self.ev(n.key, e2)] = self.ev(n.value, e2)
            return d
        if isinstance(n, (ast.List, ast.Tuple)):
            return [self.ev(x, env) for x in n.elts]
        if isinstance(n, ast.JoinedStr):
            out = ''
            for p in n.values:
                v = p.value if isinstance(p, ast.Constant) else self.ev(p.value, env)
                if not isinstance(v, str):
                    no(n, 'text')
                out += v
            return out
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(n.op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(n.op, ast.BitOr) and isinstance(a, dict) and isinstance(b, dict):
                return {**a, **b}
            no(n)
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.truth(self.ev(n.test, env), n) else n.orelse, env)
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = self.ev(x, env)
                if self.truth(v, n) != isinstance(n.op, ast.And):
                    return v
            return v
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.truth(self.ev(n.operand, env), n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ev(n.left, env), self.ev(n.comparators[0], env)
            o = n.ops[0]
            if isinstance(o, (ast.Is, ast.IsNot)):
                return (a is b) == isinstance(o, ast.Is)
            if isinstance(o, (ast.Eq, ast.NotEq)) and not isinstance(a, Atom) and not isinstance(b, Atom):
                return (a == b) == isinstance(o, ast.Eq)
            if isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, (dict, list)):
                return (a in b) == isinstance(o, ast.In)
            no(n)
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value, env)
            if isinstance(o, (dict, list)):
                return o[self.ev(n.slice, env)]
            no(n)
        if isinstance(n, ast.Call):
            f = self.ev(n.func, env)
            args = [self.ev(a, env) for a in n.args]
            kw = {}
            for k in n.keywords:
                if k.arg is None:
                    kw.update(self.ev(k.value, env))
                else:
                    kw[k.arg] = self.ev(k.value, env)
            return self.apply(f, args, kw, n)
        if isinstance(n, ast.Lambda):
            no(n)
        no(n)

    def attr(self, o, name, n):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            m = self.method(o.cls, name)
            if m is not None:
                if self.decorated(m, 'property'):
                    return self.call_fn(m, [o], {})
                if self.decorated(m, 'staticmethod'):
                    return m
                return Bound(o.cls if self.decorated(m, 'classmethod') else o, m)
            no(n, 'attribute %s' % name)
        if isinstance(o, ast.ClassDef):
            m = self.method(o, name)
            if m is not None:
                return Bound(o, m) if self.decorated(m, 'classmethod') else m
        if isinstance(o, dict):
            return ('dict', o, name)
        if isinstance(o, list):
            return ('list', o, name)
        no(n, 'attribute %s' % name)

    def apply(self, f, args, kw, n):
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.me] + args, kw)
        if isinstance(f, ast.FunctionDef):
            return self.call_fn(f, args, kw)
        if isinstance(f, ast.ClassDef):
            return self.new(f, args, kw)
        if isinstance(f, tuple) and f[0] == 'extern':
            r = Atom('result of %s' % f[1])
            self.calls.append((f[1], args, kw, r))
            return r
        if isinstance(f, tuple) and f[0] == 'builtin':
            if f[1] == 'getattr':
                return self.attr(args[0], args[1], n)
            if f[1] == 'setattr' and isinstance(args[0], Obj):
                args[0].attrs[args[1]] = args[2]
                return None
            if f[1] == 'dict':
                d = dict(args[0]) if args else {}
                d.update(kw)
                return d
            if f[1] == 'list' and not kw:
                return list(self.iter(args[0], n)) if args else []
            if f[1] == 'len' and isinstance(args[0], (dict, list)):
                return len(args[0])
        if isinstance(f, tuple) and f[0] == 'dict':
            d, m = f[1], f[2]
            if m == 'update':
                for a in args:
                    if not isinstance(a, dict):
                        no(n, 'update')
                    d.update(a)
                d.update(kw)
                return None
            if m == 'items':
                return [[k, v] for k, v in d.items()]
            if m in ('keys', 'values'):
                return list(getattr(d, m)())
            if m == 'copy':
                return dict(d)
            if m == 'get':
                return d.get(*args)
            if m == 'setdefault':
                return d.setdefault(*args)
            if m == 'pop':
                return d.pop(*args)
            if m == 'clear':
                return d.clear()
        no(n, 'call')
