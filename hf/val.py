"""Abstract values of the value-flow engine."""


class V:
    __slots__ = ('k', 'h')

    def __hash__(self):
        h = self.h
        if h is None:
            h = self.h = hash((type(self).__name__, self.k))
        return h

    def __eq__(self, o):
        if self is o:
            return True
        return type(self) is type(o) and hash(self) == hash(o) and self.k == o.k

    def __ne__(self, o):
        return not self == o


class C(V):
    """A constant."""
    __slots__ = ()

    def __init__(self, v):
        self.k = (type(v).__name__, v)
        self.h = None

    @property
    def v(self):
        return self.k[1]

    def __repr__(self):
        return repr(self.k[1])


class T(V):
    """An uninterpreted term: the result of something the analysis does not look into."""
    __slots__ = ()

    def __init__(self, op, *args):
        self.k = (op, args)
        self.h = None

    @property
    def op(self):
        return self.k[0]

    @property
    def args(self):
        return self.k[1]

    def __repr__(self):
        o, a = self.k
        if o == 'word':
            return '<%s>' % a[0]
        if o == 'concat':
            return "'" + ''.join(x.v if isinstance(x, C) else repr(x) for x in a) + "'"
        if o == 'sym':
            return '$' + str(a[0])
        if o == 'f':
            return '%r.%s' % (a[0], a[1])
        if o == 'v':
            return '%r:%s' % (a[0], a[1])
        return '%s(%s)' % (o, ', '.join(map(repr, a)))


class Adt(V):
    __slots__ = ()

    def __init__(self, path, vi, vn, fs, names=()):
        self.k = (path, vi, vn, tuple(fs), tuple(names))
        self.h = None

    path = property(lambda s: s.k[0])
    vi = property(lambda s: s.k[1])
    vn = property(lambda s: s.k[2])
    fs = property(lambda s: s.k[3])
    names = property(lambda s: s.k[4])

    def field(self, name):
        if name in self.k[4]:
            return self.k[3][self.k[4].index(name)]
        return None

    def __repr__(self):
        p, vi, vn, fs, names = self.k
        short = p.split('::')[-1]
        h = vn if short in ('Option', 'Result', 'Poll', 'ControlFlow') or vn == short else short + '::' + vn
        if not fs:
            return h
        if names and not names[0].isdigit():
            return '%s{%s}' % (h, ', '.join('%s: %r' % x for x in zip(names, fs)))
        return '%s(%s)' % (h, ', '.join(map(repr, fs)))


class _Seq(V):
    __slots__ = ()

    def __init__(self, items):
        self.k = tuple(items)
        self.h = None

    @property
    def items(self):
        return self.k


class Tup(_Seq):
    __slots__ = ()

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.k))


class L(_Seq):
    """A sequence (vector, array, slice)."""
    __slots__ = ()

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.k))


class It(_Seq):
    """What is left of an iterator or stream."""
    __slots__ = ()

    def __repr__(self):
        return 'iter[%s]' % ', '.join(map(repr, self.k))


class M(V):
    """A map: pairs of key and value. A set has () as values."""
    __slots__ = ()

    def __init__(self, items=(), kind='map'):
        self.k = (tuple(items), kind)
        self.h = None

    items = property(lambda s: s.k[0])
    kind = property(lambda s: s.k[1])

    def __repr__(self):
        if self.kind.endswith('Set'):
            return '{%s}' % ', '.join(repr(k) for k, _ in self.items)
        return '{%s}' % ', '.join('%r: %r' % x for x in self.items)


class Clo(V):
    __slots__ = ('tsub',)

    def __init__(self, id, ups, tsub=None):
        self.k = (id, tuple(ups))
        self.h = None
        self.tsub = tsub

    id = property(lambda s: s.k[0])
    ups = property(lambda s: s.k[1])

    def __repr__(self):
        return '<%s %s>' % (self.id.split('::', 1)[-1], ', '.join(map(repr, self.ups)))


class Cor(Clo):
    __slots__ = ()


class FnV(V):
    """A function item used as a value."""
    __slots__ = ('const', 'types')

    def __init__(self, const, types):
        self.k = (const.get('ri') or const.get('fi') or const.get('f'), str(const.get('ga')))
        self.h = None
        self.const = const
        self.types = types

    def __repr__(self):
        return 'fn:' + self.k[0]


class Ref(V):
    """A mutable reference to a place."""
    __slots__ = ()

    def __init__(self, cell, path=()):
        self.k = (cell, tuple(path))
        self.h = None

    cell = property(lambda s: s.k[0])
    path = property(lambda s: s.k[1])

    def __repr__(self):
        return '&mut%r' % (self.k,)


class Obj(V):
    """A container with interior mutability; its content lives in a heap cell."""
    __slots__ = ()

    def __init__(self, cell):
        self.k = (cell,)
        self.h = None

    cell = property(lambda s: s.k[0])

    def __repr__(self):
        return 'obj%r' % (self.k[0],)


OPT = 'core::option::Option'
RES = 'core::result::Result'
UNIT = Tup(())
TRUE, FALSE = C(True), C(False)
NONE = Adt(OPT, 0, 'None', ())


def some(x):
    return Adt(OPT, 1, 'Some', (x,), ('0',))


def ok(x):
    return Adt(RES, 0, 'Ok', (x,), ('0',))


def err(x):
    return Adt(RES, 1, 'Err', (x,), ('0',))


def sym(n):
    return T('sym', n)


def is_some(v):
    return isinstance(v, Adt) and v.path == OPT and v.vi == 1


def is_ok(v):
    return isinstance(v, Adt) and v.path == RES and v.vi == 0


def is_err(v):
    return isinstance(v, Adt) and v.path == RES and v.vi == 1


def subterms(v, seen=None):
    """All values v is built from, v included."""
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        k = x.k
        stack = list(k) if isinstance(k, tuple) else [k]
        while stack:
            y = stack.pop()
            if isinstance(y, V):
                todo.append(y)
            elif isinstance(y, tuple):
                stack.extend(y)


def derives(v, root):
    return any(x == root for x in subterms(v))
