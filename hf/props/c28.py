"""Value-flow analysis of the Avro decoder: from an Avro schema of each type in each position (a column, optional, in a
record, in an array, nested) and rows holding unknown values, the schema mapping and the array builders are followed down
to the Arrow arrays and their parts (bitmaps, offsets, children), which are put together and validated as Arrow does. The
batch has to have the columns of the schema, in order and of the types that mean the same, and in every row the value the
record has for that name; or the read is an error, for the types that have no decoder."""
from .common import *
from ..models_avro import Avro, AVS, DT, NULL, datum_block
from .c11 import read

R = CORE + 'avro_to_arrow::arrow_array_reader::AvroArrowArrayReader::'


class Ty:
    def __init__(self, name, schema, same, values, nullable=False, decoded=True, listed=True):
        self.name, self.schema, self.same, self.values = name, schema, same, values
        self.nullable, self.decoded, self.listed = nullable, decoded, listed


def is_dt(*names):
    def f(t):
        return isinstance(t, Adt) and t.path == DT and t.vn in names
    return f


def is_unit(kind, unit):
    def f(t):
        return isinstance(t, Adt) and t.path == DT and t.vn == kind and variant(t.fs[0]) == unit
    return f


def is_fixed(n):
    def f(t):
        return isinstance(t, Adt) and t.path == DT and t.vn == 'FixedSizeBinary' and t.fs[0] == C(n)
    return f


def sym(n):
    return T('sym', n)


def types(A):
    """The types without parts."""
    out = []

    def t(name, schema, same, mkv, decoded=True, listed=False):
        out.append(Ty(name, schema, same, [mkv(n) for n in ('p', 'q')], decoded=decoded, listed=listed))

    def num(name, *same, listed=False, value=None):
        t(name, A.s(name), *same, lambda n: (A.v(value or name, sym(name + n)), sym(name + n)), listed=listed)
    t('Null', A.s('Null'), is_dt('Null'), lambda n: (A.v('Null'), NULL), listed=True)
    t('Boolean', A.s('Boolean'), is_dt('Boolean'), lambda n: (A.v('Boolean', C(n == 'p')), C(n == 'p')), listed=True)
    num('Int', is_dt('Int32'), listed=True)
    num('Long', is_dt('Int64'), listed=True)
    num('Float', is_dt('Float32'), listed=True)
    num('Double', is_dt('Float64'), listed=True)
    t('Bytes', A.s('Bytes'), is_dt('Binary', 'LargeBinary', 'BinaryView'), lambda n: (A.v('Bytes', sym('bytes' + n)), sym('bytes' + n)))
    t('String', A.s('String'), is_dt('Utf8', 'LargeUtf8', 'Utf8View'), lambda n: (A.v('String', word('s' + n, S.ALNUM)), word('s' + n, S.ALNUM)), listed=True)
    t('Enum', A.enum(), is_dt('Utf8', 'LargeUtf8', 'Utf8View', 'Dictionary'), lambda n: (A.v('Enum', C(0), word('e' + n, S.ALNUM)), word('e' + n, S.ALNUM)), listed=True)
    t('Fixed', A.fixed(4), is_fixed(4), lambda n: (A.v('Fixed', C(4), T('fixed-bytes', C(n), C(4))), T('fixed-bytes', C(n), C(4))))
    t('Fixed(16)', A.fixed(16), is_fixed(16), lambda n: (A.v('Fixed', C(16), T('fixed-bytes', C(n), C(16))), T('fixed-bytes', C(n), C(16))))
    t('Uuid', A.s('Uuid'), is_fixed(16), lambda n: (A.v('Uuid', sym('uuid' + n)), T('uuid-bytes', sym('uuid' + n))))
    num('Date', is_dt('Date32'))
    num('TimeMillis', is_unit('Time32', 'Millisecond'))
    num('TimeMicros', is_unit('Time64', 'Microsecond'))
    num('TimestampMillis', is_unit('Timestamp', 'Millisecond'))
    num('TimestampMicros', is_unit('Timestamp', 'Microsecond'))
    num('TimestampNanos', is_unit('Timestamp', 'Nanosecond'))
    return out


def refused(A):
    """Types without a decoder; a value of each."""
    out = []

    def t(name, schema, same, v, cell):
        out.append(Ty(name, schema, same, [(v, cell)], decoded=False, listed=False))
    t('Decimal', A.decimal(), is_dt('Decimal128', 'Decimal256'), A.v('Decimal', sym('dec')), sym('dec'))
    t('BigDecimal', A.s('BigDecimal'), is_dt('Binary', 'LargeBinary', 'Utf8', 'Decimal128', 'Decimal256'), A.v('BigDecimal', sym('big')), sym('big'))
    t('Duration', A.s('Duration'), is_dt('Interval', 'Duration', 'FixedSizeBinary'), A.v('Duration', sym('dur')), sym('dur'))
    for u in ('Millis', 'Micros', 'Nanos'):
        t('LocalTimestamp' + u, A.s('LocalTimestamp' + u), is_dt('Timestamp'), A.v('LocalTimestamp' + u, sym('lt')), sym('lt'))
    t('Ref', A.ref('f4'), is_fixed(4), A.v('Fixed', C(4), T('fixed-bytes', C('r'), C(4))), T('fixed-bytes', C('r'), C(4)))
    t('Map', A.map(A.s('Int')), is_dt('Map', 'Dictionary'), A.v('Map', M([(C('k'), A.v('Int', sym('mv')))], 'HashMap')), sym('map'))
    t('Map of String', A.map(A.s('String')), is_dt('Map', 'Dictionary'), A.v('Map', M([(C('k'), A.v('String', word('mv', S.ALNUM)))], 'HashMap')), sym('map'))
    t('Union(Int, String)', A.union(A.s('Int'), A.s('String')), is_dt('Union'), A.v('Union', C(1), A.v('String', word('us', S.ALNUM))), sym('union'))
    t('Union(Null, Int, String)', A.union(A.s('Null'), A.s('Int'), A.s('String')), is_dt('Union'), A.v('Union', C(2), A.v('String', word('us', S.ALNUM))), sym('union'))
    t('Union(Int)', A.union(A.s('Int')), is_dt('Union', 'Int32'), A.v('Union', C(0), A.v('Int', sym('u1'))), sym('u1'))
    return out


def opt(A, x, flip=False):
    i = 0 if flip else 1
    sch = A.union(x.schema, A.s('Null')) if flip else A.union(A.s('Null'), x.schema)
    vs = [(A.v('Union', C(1 - i), A.v('Null')), NULL)] + [(A.v('Union', C(i), v), cell) for v, cell in x.values]
    return Ty('Union(%s)' % ('%s, Null' % x.name if flip else 'Null, %s' % x.name), sch, x.same, vs[1:] + vs[:1] if flip else vs, True, x.decoded, x.listed)


def arr(A, x):
    def same(t):
        return isinstance(t, Adt) and t.vn in ('List', 'LargeList') and is_field(t.fs[0]) and x.same(t.fs[0].args[1]) and (not x.nullable or t.fs[0].args[2] == TRUE)
    n = len(x.values)
    picks = [list(range(n)), [], [n - 1], list(range(n))[::-1] + [0]]
    vs = [(A.v('Array', L([x.values[i][0] for i in p])), T('list', L([x.values[i][1] for i in p]))) for p in picks]
    return Ty('Array(%s)' % x.name, A.array(x.schema), same, vs, False, x.decoded and x.listed, x.decoded and x.listed)


def rec(A, fields, **kw):
    """A record of the types in fields; the values of the rows go through those of each field."""
    fs = [(n, x) for n, x in fields]

    def same(t):
        return (isinstance(t, Adt) and t.vn == 'Struct' and isinstance(t.fs[0], L) and len(t.fs[0].items) == len(fs) and
                all(is_field(f) and f.args[0] == C(n) and x.same(f.args[1]) and (not x.nullable or f.args[2] == TRUE) for f, (n, x) in zip(t.fs[0].items, fs)))
    k = max(len(x.values) for _, x in fs)
    vs = []
    for i in range(k):
        row = [(n, x.values[(i + j) % len(x.values)]) for j, (n, x) in enumerate(fs)]
        vs.append((A.v('Record', L([Tup((C(n), v)) for n, (v, _) in row])), T('struct', L([T('at', C(n), cell) for n, (_, cell) in row]))))
    return Ty('Record(%s)' % ', '.join('%s: %s' % (n, x.name) for n, x in fs), A.record('rec', *[(n, x.schema) for n, x in fs], **kw), same, vs, False, all(x.decoded for _, x in fs), True)


def is_field(f):
    return isinstance(f, T) and f.op == 'field' and len(f.args) == 3


def shapes(A, x):
    """The positions a type can take."""
    i = Ty('Int', A.s('Int'), is_dt('Int32'), [(A.v('Int', sym('id%d' % n)), sym('id%d' % n)) for n in range(3)], listed=True)
    yield x
    if x.name != 'Null' and not x.name.startswith('Union'):
        yield opt(A, x)
        yield opt(A, x, flip=True)
        yield arr(A, opt(A, x))
        yield rec(A, [('x', i), ('b', opt(A, x)), ('a', i)])
        yield opt(A, rec(A, [('b', opt(A, x)), ('a', i)]))
        yield opt(A, arr(A, opt(A, x)))
        yield arr(A, arr(A, opt(A, x)))
        yield arr(A, rec(A, [('a', i), ('b', opt(A, x))]))
    yield rec(A, [('b', x), ('a', i)], doc=True, aliases=('old',))
    yield opt(A, rec(A, [('b', x)]))
    yield rec(A, [('a', i), ('x', rec(A, [('c', i), ('x', x)])), ('c', i)])
    yield arr(A, x)
    yield opt(A, arr(A, x))
    yield arr(A, arr(A, x))
    yield arr(A, opt(A, arr(A, x)))
    yield opt(A, arr(A, opt(A, arr(A, x))))
    yield arr(A, rec(A, [('b', x)]))
    yield arr(A, opt(A, rec(A, [('a', i), ('b', x)])))
    yield opt(A, arr(A, rec(A, [('a', i), ('b', x)])))
    yield arr(A, arr(A, rec(A, [('b', x), ('a', i)])))
    yield opt(A, arr(A, arr(A, opt(A, rec(A, [('b', x), ('a', i)])))))
    yield rec(A, [('l', opt(A, arr(A, x))), ('a', i)])
    yield arr(A, rec(A, [('l', arr(A, x)), ('a', i)]))
    yield opt(A, arr(A, opt(A, rec(A, [('l', opt(A, arr(A, rec(A, [('z', i), ('b', x)])))), ('a', i)]))))


def table(A, x):
    """A schema with the type and its neighbours, and rows of it."""
    n = len(x.values)
    ids = Ty('Int', A.s('Int'), is_dt('Int32'), [(A.v('Int', sym('k%d' % j)), sym('k%d' % j)) for j in range(n)])
    ids2 = Ty('Int', A.s('Int'), is_dt('Int32'), [(A.v('Int', sym('m%d' % j)), sym('m%d' % j)) for j in range(n)])
    cols = [('m', ids), ('x', x), ('b', ids2)]
    sch = A.record('row', *[(m, t.schema) for m, t in cols], aliases=('zz',))
    rows = [[(m, t.values[j]) for m, t in cols] for j in range(n)]
    return cols, sch, rows


def values(A, rows):
    return It([ok(A.v('Record', L([Tup((C(n), v)) for n, (v, _) in r]))) for r in rows])


def decode(sc, A, sch, vals, sizes, st=None):
    """[(state, [what each call of next_batch gives])]."""
    e = sc.e
    cur = []
    for s, r in sc.run(R + 'try_new', [vals, sch, NONE], st):
        if is_err(r):
            cur.append((s, None, L([some(r)])))
        else:
            need(is_ok(r), 'reader %s' % r)
            cur.append((s, Ref(e.alloc(s, r.fs[0])), L(())))
    for n in sizes:
        nx = []
        for s, ref, got in cur:
            if ref is None or any(isinstance(g, Adt) and g.path == OPT and g.vi == 1 and is_err(g.fs[0]) for g in got.items):
                nx.append((s, None, got))
                continue
            for s2, r in sc.run(R + 'next_batch', [ref, C(n)], s):
                nx.append((s2, ref, L(list(got.items) + [e.deep(s2, r)])))
        cur = nx
    return [(s, got) for s, _, got in cur]


def cells_equal(a, b):
    return a == b


def judge(cols, parts, strict):
    """parts: rows expected of each batch."""
    def f(s, got):
        for g in got.items:
            need(isinstance(g, Adt) and g.path == OPT, 'batch %s' % g)
        errs = [g for g in got.items if g.vi == 1 and is_err(g.fs[0])]
        if errs:
            return ('cannot be read: %s' % errs[0], got) if strict else None
        gs = list(got.items)
        for k, rows in enumerate(parts):
            if k >= len(gs):
                return 'no batch'
            g = gs[k]
            if not rows:
                if g != NONE:
                    return 'a batch after the last row: %s' % g, g
                continue
            if g == NONE:
                return 'the batch is missing', g
            b = unwrap(g)
            need(isinstance(b, T) and b.op == 'abatch', 'batch %s' % b)
            fs, cs = b.args[0].args[0].items, b.args[1].items
            if [f.args[0] for f in fs] != [C(n) for n, _ in cols]:
                return 'the columns are %s' % [str(f.args[0]) for f in fs], b
            for j, (n, t) in enumerate(cols):
                if not t.same(fs[j].args[1]):
                    return 'column %s, Avro %s, is read as %s' % (n, t.name, fs[j].args[1]), b
                got_c = cs[j].args[0].items
                if len(got_c) != len(rows):
                    return 'column %s has %d values for %d rows' % (n, len(got_c), len(rows)), b
                for i, r in enumerate(rows):
                    exp = r[j][1][1]
                    if got_c[i] != exp:
                        return 'column %s, Avro %s, has in row %d %s instead of %s' % (n, t.name, i, got_c[i], exp), got_c[i]
        return None
    return f


def check(c):
    w = c.w
    A = Avro(w)


    for base in types(A):
        for x in shapes(A, base):
            sc = Scene(w, recur=8)
            cols, sch, rows = table(A, x)
            c.outcomes('decode', x.name, lambda: (sc.e, decode(sc, A, sch, values(A, rows), [len(rows)])), judge(cols, [rows], x.decoded))
    c.floor('decode', 300)

    # ---- types without a decoder
    for x0 in refused(A):
        i = Ty('Int', A.s('Int'), is_dt('Int32'), [(A.v('Int', sym('r%d' % n)), sym('r%d' % n)) for n in range(3)])
        xs = [x0, rec(A, [('a', i), ('b', x0)]), arr(A, x0), arr(A, rec(A, [('b', x0)])), arr(A, arr(A, x0)), rec(A, [('l', arr(A, x0))])]
        if not x0.name.startswith('Union'):
            xs += [opt(A, x0), arr(A, opt(A, x0)), opt(A, rec(A, [('b', opt(A, x0))])), opt(A, arr(A, opt(A, rec(A, [('b', opt(A, x0)), ('a', i)]))))]
        for x in xs:
            sc = Scene(w, recur=8)
            cols, sch, rows = table(A, x)
            c.outcomes('refused', x.name, lambda: (sc.e, decode(sc, A, sch, values(A, rows), [len(rows)])), judge(cols, [rows], False))
    c.floor('refused', 60)

    # ---- rows are given in batches, in order, each once
    x = types(A)[2]
    for n in range(0, 5):
        for size in (1, 2, 3, 5):
            sc = Scene(w, recur=8)
            t = Ty('Long', A.s('Long'), is_dt('Int64'), [(A.v('Long', sym('l%d' % j)), sym('l%d' % j)) for j in range(n)])
            cols, sch, rows = table(A, t)
            parts = [rows[k:k + size] for k in range(0, n, size)] + [[]]
            c.outcomes('batches', '%d rows by %d' % (n, size), lambda: (sc.e, decode(sc, A, sch, values(A, rows), [size] * len(parts))), judge(cols, parts, True))
    # ---- a row that cannot be decoded, or is no record, fails the batch
    for what, bad in (('a row that cannot be decoded', err(T('avroerr'))), ('a row that is no record', ok(A.v('Int', sym('i'))))):
        for at in range(3):
            sc = Scene(w, recur=8)
            cols, sch, rows = table(A, types(A)[2])
            xs = list(values(A, rows).items)
            xs.insert(at, bad)

            def j(s, got):
                g = got.items[0]
                need(isinstance(g, Adt), 'batch %s' % g)
                return None if g.vi == 1 and is_err(g.fs[0]) else ('%s is passed over' % what, g)
            c.outcomes('bad-rows', '%s, number %d' % (what, at), lambda: (sc.e, decode(sc, A, sch, It(xs), [10])), j)
    # ---- a schema that is no record
    for x in types(A):
        sc = Scene(w, recur=8)

        def j(s, got):
            g = got.items[0]
            return None if isinstance(g, Adt) and g.vi == 1 and is_err(g.fs[0]) else ('a schema that is no record is accepted', g)
        c.outcomes('no-record', x.name, lambda: (sc.e, decode(sc, A, x.schema, It([ok(x.values[0][0])]), [10])), j)



    # ---- Avro data blocks: each is decoded with the schema of its own header, all its records in order
    X, Y = ts('X'), ts('Y')
    ty = types(A)

    def block(t, text, x, n, ver=1, only=False):
        t0 = Ty(x.name, x.schema, x.same, [x.values[j % 2] for j in range(n)])
        cols, sch, rows = table(A, t0)
        if only:
            cols, rows = [('x', t0)], [[('x', v)] for v in t0.values]
            sch = A.record('row', ('x', t0.schema))
        return cols, rows, log_block(t, kind='AvroData', head={'Schema': text}, content=datum_block(text, sch, [u.fs[0] for u in values(A, rows).items]), footer={}, version=ver)

    def blocks(s, r, expected):
        if is_err(r):
            return 'the blocks cannot be read: %s' % r, r
        need(is_ok(r), 'blocks %s' % r)
        bs = items(r.fs[0])
        if len(bs) != len(expected):
            return '%d blocks instead of %d' % (len(bs), len(expected)), r
        for b, (cols, rows) in zip(bs, expected):
            got = items(fld(b, 'record_batches'))
            need(got is not None and all(isinstance(x, T) and x.op == 'abatch' for x in got), 'batches %s' % b)
            res = [sum((list(g.args[1].items[j].args[0].items) for g in got), []) for j in range(len(cols))]
            for j, (n, t) in enumerate(cols):
                if res[j] != [r[j][1][1] for r in rows]:
                    return 'column %s of the block reads %s' % (n, res[j]), b
                for g in got:
                    if g.args[0].args[0].items[j].args[0] != C(n) or not t.same(g.args[0].args[0].items[j].args[1]):
                        return 'column %d of the block is %s' % (j, g.args[0].args[0].items[j]), b
        return None

    for n in range(0, 4):
        for x in (ty[2], ty[6], ty[7], ty[11]):
            cols, rows, ch = block(X, 's1', x, n)
            c.outcomes('block', '%d records with a %s' % (n, x.name), lambda: read(w, ch), lambda s, r: blocks(s, r, [(cols, rows)]), least=1)
    # more records than the decoder puts in one batch
    for size in (1, 2, 3):
        for n in range(1, 6):
            cols, rows, ch = block(X, 's1', ty[7], n)
            c.outcomes('block', '%d records, decoded by %d' % (n, size), lambda: read(w, ch, size=size), lambda s, r: blocks(s, r, [(cols, rows)]), least=1)
    for x, y in ((ty[2], ty[3]), (ty[7], ty[2]), (ty[6], ty[7])):
        c1, r1, b1 = block(X, 's1', x, 2)
        c2, r2, b2 = block(Y, 's2', y, 3)
        c.outcomes('block', 'schemas %s and then %s' % (x.name, y.name), lambda: read(w, b1 + b2), lambda s, r: blocks(s, r, [(c1, r1), (c2, r2)]), least=1)

    def fails(s, r):
        return None if is_err(r) else ('a data block that is cut short is read', r)
    for x, only in ((ty[2], False), (ty[7], False), (ty[7], True), (opt(A, ty[7]), True)):
        for ver in (1, 3):
            cols, rows, ch = block(X, 's1', x, 3, ver, only)
            at = [i for i, v in enumerate(ch) if isinstance(v, T) and v.op == 'raw' and isinstance(v.args[1], T) and v.args[1].op == 'datum']
            for k in sorted(set(at + [i - 1 for i in at])):
                key = '%s%s, version %d, ' % (x.name, ' alone' if only else '', ver)
                c.outcomes('cut-block', key + 'after %d of %d fields' % (k, len(ch)), lambda: read(w, ch[:k]), fails, least=1)
                c.outcomes('cut-block', key + 'inside field %d of %d' % (k + 1, len(ch)), lambda: read(w, ch[:k] + [T('short')]), fails, least=1)
    c.floor('block', 19)
    c.floor('cut-block', 90)
