"""Descriptions of the Arrow and encoding functions the workspace uses."""
import re
from urllib.parse import unquote_to_bytes

from .val import *
from .ai import LT, EQ, GT, Undecided
from . import strs as S
from .models import model, one, MODELS, items_of, equal


def schema(*fields):
    return T('schema', L([T('field', C(n) if isinstance(n, str) else n, d) for n, d in fields]))


def is_t(v, op):
    return isinstance(v, T) and v.op == op


@model('Schema::new')
def _schema(e, st, a, c):
    return [(s, T('schema', L([e.deep(s, x) for x in xs]))) for s, xs in items_of(e, st, a[0])]


@model('Schema::empty')
def _schema0(e, st, a, c):
    return one(st, T('schema', L(())))


@model('Schema::fields', 'RecordBatch::schema_fields')
def _fields(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.args[0]) if is_t(v, 'schema') else None


@model('Schema::field')
def _field_at(e, st, a, c):
    v, i = e.deep(st, a[0]), e.d(st, a[1])
    if is_t(v, 'schema') and isinstance(i, C):
        return one(st, v.args[0].items[i.v])
    return None


@model('Field::name', 'Field::data_type')
def _fname(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.args[0 if c.k['f'].endswith('name') else 1]) if is_t(v, 'field') else None


@model('Field::new')
def _fnew(e, st, a, c):
    return one(st, T('field', e.deep(st, a[0]), e.deep(st, a[1])))


@model('Schema::field_with_name', 'Schema::index_of', 'Schema::column_with_name', 'Fields::find')
def _fwn(e, st, a, c):
    v, n = e.deep(st, a[0]), e.deep(st, a[1])
    if is_t(v, 'schema'):
        v = v.args[0]
    if not isinstance(v, L):
        return None
    m = c.k['f'].rsplit('::', 1)[-1]
    out, cur = [], [st]
    for i, f in enumerate(v.items):
        nx = []
        for s in cur:
            for s2, b in equal(e, s, f.args[0], n):
                if not b:
                    nx.append(s2)
                elif m == 'field_with_name':
                    out.append((s2, ok(f)))
                elif m == 'index_of':
                    out.append((s2, ok(C(i))))
                else:
                    out.append((s2, some(Tup((C(i), f)))))
        cur = nx
    return out + [(s, NONE if m in ('column_with_name', 'find') else err(T('nofield', n))) for s in cur]


def fallible(e, st, key, good):
    return [(s, ok(good) if i == 0 else err(T('arrowerr', key))) for s, i in e.split_var(st, key, [0, 1], 2)]


@model('StringArray::from_', 'GenericByteArray::from', 'GenericByteArray::from_iter_values')
def _strarr(e, st, a, c):
    return [(s, T('strarr', L([e.deep(s, x) for x in xs]))) for s, xs in items_of(e, st, a[0])]


def dtname(t):
    return t.op if isinstance(t, T) else t.vn if isinstance(t, Adt) else None


INTS = {'Int8': 8, 'Int16': 16, 'Int32': 32, 'Int64': 64}


@model('cast::cast_with_options', 'cast::cast')
def _cast(e, st, a, c):
    v, t = e.deep(st, a[0]), e.deep(st, a[1])
    o = e.deep(st, a[2]) if len(a) > 2 else None
    while isinstance(v, L) and len(v.items) == 1:
        v = v.items[0]
    safe = o.field('safe') if isinstance(o, Adt) else TRUE
    if safe != FALSE:
        # a value that does not fit becomes null
        return one(st, T('safecast', v, t))
    if dtname(t) == 'Utf8' and S.atoms(v) is not None:
        return one(st, ok(v))
    if dtname(t) in INTS and isinstance(v, C) and isinstance(v.v, str):
        import re
        if re.fullmatch(r'-?[0-9]+', v.v) and -(1 << INTS[dtname(t)] - 1) <= int(v.v) < 1 << INTS[dtname(t)] - 1:
            return one(st, ok(C(int(v.v))))
        return one(st, err(T('cast-error', v, t)))
    k = T('castable', v, t)
    return fallible(e, st, k, T('cast', v, t))


@model('Scalar::new', 'Scalar::into_inner')
def _scalar(e, st, a, c):
    return one(st, e.deep(st, a[0]))


def _cmp(op):
    def f(e, st, a, c):
        x, y = e.deep(st, a[0]), e.deep(st, a[1])
        if (isinstance(x, C) and isinstance(y, C) and x.k[0] == y.k[0]) or (S.atoms(x) is not None and S.atoms(y) is not None):
            return one(st, ok(T('boolarr', op, x, y)))
        return fallible(e, st, T('comparable', x, y), T('boolarr', op, x, y))
    return f


for _n, _o in (('eq', 'Eq'), ('neq', 'Ne'), ('lt', 'Lt'), ('lt_eq', 'Lte'), ('gt', 'Gt'), ('gt_eq', 'Gte')):
    MODELS['cmp::' + _n] = _cmp(_o)

MASK = {'Eq': EQ, 'Ne': LT | GT, 'Lt': LT, 'Lte': LT | EQ, 'Gt': GT, 'Gte': GT | EQ}


@model('BooleanArray::value')
def _bval(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'boolarr') and e.d(st, a[1]) == C(0):
        op, x, y = v.args
        if any(is_t(t, 'safecast') for t in (x, y)):
            return None
        return [(s, C(bool(m & MASK[op]))) for s, m in e.split_cmp(st, x, y, MASK[op])]
    return None


@model('percent_encoding::percent_decode', 'percent_encoding::percent_decode_str')
def _pct(e, st, a, c):
    return one(st, T('pct', e.deep(st, a[0])))


@model('PercentDecode::decode_utf8', 'PercentDecode::decode_utf8_lossy')
def _pctd(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_t(v, 'pct'):
        return None
    lossy = c.k['f'].endswith('lossy')
    at = S.atoms(v.args[0])
    if at is None:
        return None
    out = []
    for i, x in enumerate(at):
        if isinstance(x, C):
            t = x.v
            if '%' in t[-2:] and i + 1 < len(at):
                return None
            b = unquote_to_bytes(t)
            try:
                t = b.decode()
            except UnicodeDecodeError:
                if not lossy:
                    return one(st, err(T('badutf8', v)))
                t = b.decode(errors='replace')
            out.append(C(t))
        elif '%' in x.args[1]:
            return None
        else:
            out.append(x)
    r = S.mk(out)
    return one(st, r if lossy else ok(r))


# ---- record batches -------------------------------------------------------------------------------
# batch(schema, [row]) with row = [cell]; a column is col([cell], type); a boolean array is a sequence of booleans
def batch(sch, rows):
    return T('batch', sch, L([L(r) for r in rows]))


def col_of(v, i):
    f = v.args[0].args[0].items[i]
    return T('col', L([r.items[i] for r in v.args[1].items]), f.args[1])


def isb(v):
    return is_t(v, 'batch') and isinstance(v.args[1], L)


@model('RecordBatch::num_rows')
def _nrows(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'abatch') and v.args[1].items:
        return one(st, C(len(v.args[1].items[0].args[0].items)))
    return one(st, C(len(v.args[1].items))) if isb(v) else None


@model('RecordBatch::num_columns')
def _ncols(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'abatch'):
        return one(st, C(len(v.args[1].items)))
    return one(st, C(len(v.args[0].args[0].items))) if isb(v) else None


@model('RecordBatch::schema', 'RecordBatch::schema_ref')
def _bschema(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.args[0]) if is_t(v, 'batch') else None


@model('RecordBatch::column')
def _bcol(e, st, a, c):
    v, i = e.deep(st, a[0]), e.d(st, a[1])
    return one(st, col_of(v, i.v)) if isb(v) and isinstance(i, C) else None


@model('RecordBatch::columns')
def _bcols(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, L([col_of(v, i) for i in range(len(v.args[0].args[0].items))])) if isb(v) else None


@model('RecordBatch::column_by_name')
def _bcbn(e, st, a, c):
    v, n = e.deep(st, a[0]), e.deep(st, a[1])
    if not isb(v):
        return None
    cur, out = [st], []
    for i, f in enumerate(v.args[0].args[0].items):
        nx = []
        for s in cur:
            for s2, b in equal(e, s, f.args[0], n):
                if b:
                    out.append((s2, some(col_of(v, i))))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, NONE) for s in cur]


@model('RecordBatch::new_empty')
def _bempty(e, st, a, c):
    return one(st, T('batch', e.deep(st, a[0]), L(())))


@model('RecordBatch::slice')
def _bslice(e, st, a, c):
    v, i, n = e.deep(st, a[0]), e.d(st, a[1]), e.d(st, a[2])
    if isb(v) and isinstance(i, C) and isinstance(n, C):
        return one(st, T('batch', v.args[0], L(v.args[1].items[i.v:i.v + n.v])))
    return None


@model('concat::concat_batches')
def _concat(e, st, a, c):
    sch = e.deep(st, a[0])
    out = []
    for s, xs in items_of(e, st, a[1]):
        xs = [e.deep(s, x) for x in xs]
        if not all(isb(x) for x in xs):
            return None
        if not isinstance(sch.args[0], L):
            # a schema known by its file only
            if any(x.args[0] != sch for x in xs):
                return None
            out.append((s, ok(T('batch', sch, L([r for x in xs for r in x.args[1].items])))))
            continue
        fs = sch.args[0].items
        cols = [x.args[0].args[0].items for x in xs]
        v = None
        for i, f in enumerate(fs if xs else ()):
            if any(i >= len(k) for k in cols):
                e.panic(s, c.frame, c.line, 'column %d of a batch of %d columns (concat_batches)' % (i, min(len(k) for k in cols)))
                break
            if any(k[i].args[1] != cols[0][i].args[1] for k in cols):
                v = err(T('arrowerr', 'arrays of different data types'))
                break
        else:
            if v is None and any(k[i].args[1] != f.args[1] for k in cols[:1] for i, f in enumerate(fs)):
                v = err(T('arrowerr', 'column types must match schema types'))
            if v is None:
                v = ok(T('batch', sch, L([L(r.items[:len(fs)]) for x in xs for r in x.args[1].items])))
        if v is not None:
            out.append((s, v))
    return out


@model('filter::filter_record_batch')
def _bfilter(e, st, a, c):
    v, m = e.deep(st, a[0]), e.deep(st, a[1])
    if not isb(v) or not isinstance(m, L):
        return None
    if len(m.items) != len(v.args[1].items):
        return one(st, err(T('arrowerr', 'mask length')))
    out = []
    for s, keep in bools(e, st, m.items):
        out.append((s, ok(T('batch', v.args[0], L([r for r, k in zip(v.args[1].items, keep) if k])))))
    return out


def bools(e, st, xs):
    cur = [(st, [])]
    for x in xs:
        cur = [(s, bs + [None]) for s, bs in cur] if x == T('null') else [(s2, bs + [b]) for s, bs in cur for s2, b in e.split_bool(s, x)]
    return cur


@model('take::take_record_batch')
def _btake(e, st, a, c):
    v, m = e.deep(st, a[0]), e.deep(st, a[1])
    if not isb(v) or not isinstance(m, L) or not all(isinstance(i, C) for i in m.items):
        return None
    rows = v.args[1].items
    if any(i.v >= len(rows) for i in m.items):
        return one(st, err(T('arrowerr', 'index')))
    return one(st, ok(T('batch', v.args[0], L([rows[i.v] for i in m.items]))))


@model('PrimitiveArray::from_iter_values', 'PrimitiveArray::from', 'BooleanArray::from', 'PrimitiveArray::from_iter', 'UInt32Array::from')
def _arr(e, st, a, c):
    return [(s, L([e.deep(s, x) for x in xs])) for s, xs in items_of(e, st, a[0])]


@model('PrimitiveArray::values')
def _pvals(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v) if isinstance(v, L) else None


@model('GenericByteArray::value', 'PrimitiveArray::value')
def _aval(e, st, a, c):
    v, i = e.deep(st, a[0]), e.d(st, a[1])
    if is_t(v, 'col'):
        v = v.args[0]
    if isinstance(v, L) and isinstance(i, C):
        if i.v < len(v.items):
            x = v.items[i.v]
            if x == T('null'):
                # the slot of a null holds the default value
                return one(st, C('')) if 'GenericByteArray' in str(c.k.get('f')) else None
            return one(st, x)
        e.panic(st, c.frame, c.line, 'index out of range')
        return []
    return None


@model('Array::len', 'GenericByteArray::len')
def _alen(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'col'):
        v = v.args[0]
    return one(st, C(len(v.items))) if isinstance(v, L) else None


@model('Array::data_type')
def _adt(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.args[1]) if is_t(v, 'col') else None


@model('Array::as_any', 'Any::as_any')
def _asany(e, st, a, c):
    return one(st, e.deep(st, a[0]))


@model('Any::downcast_ref', 'any::downcast_ref', 'dyn Any::downcast_ref')
def _down(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_t(v, 'col'):
        return None
    k = fits(v.args[1], c, 0)
    return one(st, some(v) if k in (True, None) else NONE)


ARRAYS = {'GenericStringType<i32>': ('Utf8',), 'GenericStringType<i64>': ('LargeUtf8',), 'GenericBinaryType<i32>': ('Binary',), 'GenericBinaryType<i64>': ('LargeBinary',),
          'BooleanArray': ('Boolean',), 'NullArray': ('Null',)}
TYPED = re.compile(r'::(U?Int\d+|Float\d+|Date\d+|Timestamp\w+?|Time\d+\w+?|Decimal\d+)Type\b')


def fits(ty, c, i, name=None):
    """Whether an array of this type is of the Rust type given as type argument i; None if that is not known."""
    if name is None:
        if not c.k.get('ga') or len(c.k['ga']) <= i:
            return None
        x = c.types[c.k['ga'][i]]
        name = x['s'] if isinstance(x, dict) else str(x)
    n = dtname(ty)
    if n is None or not n[:1].isupper() or n == 'Dictionary':
        return None
    for k, v in ARRAYS.items():
        if k in name:
            return n in v
    m = TYPED.search(name)
    if m is not None:
        return n == m.group(1) if n.rstrip('0123456789') in ('Int', 'UInt', 'Float', 'Date', 'Utf', 'LargeUtf') or n in ('Boolean', 'Binary', 'Null') else None
    return None


@model('cast::as_string_array', 'cast::as_largestring_array', 'cast::as_boolean_array', 'cast::as_primitive_array', 'AsArray::as_string', 'AsArray::as_primitive', 'AsArray::as_boolean', 'AsArray::as_binary')
def _asstr(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_t(v, 'col'):
        return None
    n = c.k['f'].rsplit('::', 1)[-1]
    if n == 'as_string':
        k = fits(v.args[1], c, None, 'GenericStringType<i64>' if any('i64' in str(c.types[g]) for g in c.k.get('ga') or ()) else 'GenericStringType<i32>')
    elif n in ('as_string_array', 'as_largestring_array'):
        k = fits(v.args[1], c, None, 'GenericStringType<%s>' % ('i32' if n == 'as_string_array' else 'i64'))
    elif n in ('as_boolean_array', 'as_boolean'):
        k = fits(v.args[1], c, None, 'BooleanArray')
    else:
        gs = [str(c.types[g]) for g in c.k.get('ga') or ()]
        k = next((x for x in (fits(v.args[1], c, None, g) for g in gs) if x is not None), None)
    if k is False:
        e.panic(st, c.frame, c.line, 'array of another type')
        return []
    return one(st, v)


@model('AsArray::as_string_opt', 'AsArray::as_boolean_opt')
def _asopt(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_t(v, 'col'):
        return None
    k = fits(v.args[1], c, None, 'BooleanArray' if c.k['f'].endswith('as_boolean_opt') else 'GenericStringType<%s>' % ('i64' if any('i64' in str(c.types[g]) for g in c.k.get('ga') or ()) else 'i32'))
    return one(st, some(v) if k is not False else NONE)


def _kleene(op, strict=False):
    def b(p, q):
        if None in (p, q) and (strict or (op == 'or') not in (p, q)):
            return T('null')
        return C(bool(p and q if op == 'and' else p or q))

    def f(e, st, a, c):
        x, y = e.deep(st, a[0]), e.deep(st, a[1])
        if isinstance(x, L) and isinstance(y, L):
            if len(x.items) != len(y.items):
                return one(st, err(T('arrowerr', 'length')))
            out = []
            for s, bs in bools(e, st, x.items):
                for s2, cs in bools(e, s, y.items):
                    out.append((s2, ok(L([b(p, q) for p, q in zip(bs, cs)]))))
            return out
        return None
    return f


MODELS['boolean::and_kleene'] = _kleene('and')
MODELS['boolean::or_kleene'] = _kleene('or')
MODELS['boolean::and'], MODELS['boolean::or'] = _kleene('and', True), _kleene('or', True)


NEGATED = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Gte', 'Gte': 'Lt', 'Gt': 'Lte', 'Lte': 'Gt'}


@model('boolean::not')
def _bnot(e, st, a, c):
    x = e.deep(st, a[0])
    if isinstance(x, L):
        return [(s, ok(L([T('null') if b is None else C(not b) for b in bs]))) for s, bs in bools(e, st, x.items)]
    if is_t(x, 'boolarr') and x.args[0] in NEGATED:
        return one(st, ok(T('boolarr', NEGATED[x.args[0]], *x.args[1:])))
    return None


@model('SortField::new')
def _sortfield(e, st, a, c):
    return one(st, T('sortfield', e.deep(st, a[0]), TRUE, TRUE))


@model('SortField::new_with_options')
def _sortfield2(e, st, a, c):
    o = e.deep(st, a[1])
    d = o.field('descending') if isinstance(o, Adt) else None
    n = o.field('nulls_first') if isinstance(o, Adt) else None
    return one(st, T('sortfield', e.deep(st, a[0]), C(not d.v) if isinstance(d, C) else T('asc'), n if isinstance(n, C) else T('nulls')))


@model('RowConverter::new')
def _rowconv(e, st, a, c):
    return [(s, ok(T('rowconv', L([e.deep(s, x) for x in xs])))) for s, xs in items_of(e, st, a[0])]


@model('RowConverter::convert_columns')
def _convert(e, st, a, c):
    v = e.deep(st, a[0])
    out = []
    for s, xs in items_of(e, st, a[1]):
        xs = [e.deep(s, x) for x in xs]
        if not is_t(v, 'rowconv') or not all(is_t(x, 'col') for x in xs) or len(v.args[0].items) != len(xs):
            return None
        asc = [f.args[1:] for f in v.args[0].items]
        if not all(isinstance(x, C) for y in asc for x in y):
            return None
        n = len(xs[0].args[0].items) if xs else 0
        rows = []
        for i in range(n):
            cells = []
            for x, (up, first) in zip(xs, asc):
                y = x.args[0].items[i]
                k = y if up.v else Adt('core::cmp::Reverse', 0, 'Reverse', (y,), ('0',))
                if T('null') in x.args[0].items:
                    k = Tup([C(0 if first.v else 2), UNIT]) if y == T('null') else Tup([C(1), k])
                cells.append(k)
            rows.append(Tup(cells))
        out.append((s, ok(L(rows))))
    return out


@model('Rows::iter')
def _rowsiter(e, st, a, c):
    from .val import It
    return [(s, It(xs)) for s, xs in items_of(e, st, e.d(st, a[0]))]


# comparing a column with a scalar, row by row
_cmp1 = dict((n, MODELS['cmp::' + n]) for n in ('eq', 'neq', 'lt', 'lt_eq', 'gt', 'gt_eq'))
_cmp1['distinct'], _cmp1['not_distinct'] = _cmp('Ne'), _cmp('Eq')      # of values that are not null
_OP = {'eq': 'Eq', 'neq': 'Ne', 'lt': 'Lt', 'lt_eq': 'Lte', 'gt': 'Gt', 'gt_eq': 'Gte', 'distinct': 'Ne', 'not_distinct': 'Eq'}


def _vcmp(n):
    def f(e, st, a, c):
        x, y = e.deep(st, a[0]), e.deep(st, a[1])
        if not is_t(x, 'col') and not is_t(y, 'col'):
            return _cmp1[n](e, st, a, c)
        k = len((x if is_t(x, 'col') else y).args[0].items)
        ty = (x if is_t(x, 'col') else y).args[1]

        def cells(v):
            if is_t(v, 'col'):
                return v.args[0].items
            if is_t(v, 'cast') and v.args[1] == ty and is_t(v.args[0], 'strarr'):
                v = plain(v)
            return [v] * k
        cur = [(st, [])]
        total = n in ('distinct', 'not_distinct')
        for p, q in zip(cells(x), cells(y)):
            if T('null') in (p, q):
                b = C((p == q) == (n == 'not_distinct')) if total else T('null')
                cur = [(s, bs + [b]) for s, bs in cur]
                continue
            mask = MASK[_OP[n]]
            cur = [(s2, bs + [C(bool(m & mask))]) for s, bs in cur for s2, m in e.split_cmp(s, p, q, mask)]
        return [(s, ok(L(bs))) for s, bs in cur]
    return f


for _n in _OP:
    MODELS['cmp::' + _n] = _vcmp(_n)


def plain(v):
    """A text cast to the text type is itself."""
    if is_t(v, 'cast') and is_t(v.args[0], 'strarr') and len(v.args[0].args[0].items) == 1 and str(v.args[1]).endswith('Utf8'):
        return v.args[0].args[0].items[0]
    return v


# ---- byte streams ---------------------------------------------------------------------------------
# a stream is a heap cell holding its chunks: literal bytes, be(width, value), raw(length, content)
def be(width, v):
    return T('be', width, C(v) if isinstance(v, int) else v)


def raw(n, v):
    return T('raw', C(n) if isinstance(n, int) else n, v)


def size(x):
    if isinstance(x, L):
        return C(len(x.items))
    if is_t(x, 'be'):
        return C(x.args[0])
    if is_t(x, 'raw'):
        return x.args[0]
    return None


def stream(e, st, r):
    """The stream behind a reader and the limit it is read under."""
    lim = None
    v = e.d(st, r)
    while is_t(v, 'take'):
        lim = v.args[1] if lim is None else lim
        v = e.d(st, v.args[0])
    while isinstance(v, Adt) and len(v.fs) == 1:
        v = e.d(st, v.fs[0])
    if isinstance(v, Obj):
        ch = st.heap.get(v.cell)
        if isinstance(ch, L):
            return v.cell, ch, lim
    return None, None, lim


def io_err(kind):
    return err(T('io_err', C(kind)))


@model('Read::take')
def _take(e, st, a, c):
    return one(st, T('take', a[0], e.deep(st, a[1])))


@model('Take::limit')
def _limit(e, st, a, c):
    lim = stream(e, st, a[0])[2]
    # what is left of the limit is not kept: known only where it makes no difference
    return one(st, lim) if isinstance(lim, C) and isinstance(lim.v, int) and lim.v >= 1 << 30 else None


@model('Read::read_exact')
def _read_exact(e, st, a, c):
    cell, ch, lim = stream(e, st, a[0])
    buf = e.d(st, a[1])
    n = C(len(buf.items)) if isinstance(buf, L) else buf.args[1] if is_t(buf, 'vec') or is_t(buf, 'rep') else None
    if cell is None or n is None or not isinstance(a[1], Ref):
        return None
    if not ch.items:
        return one(st, io_err('UnexpectedEof'))
    x = ch.items[0]
    if n == C(0):
        if is_t(x, 'raw') and x.args[0] == C(0):
            st.heap[cell] = L(ch.items[1:])
            e.wref(st, a[1], x)
        return one(st, ok(UNIT))
    if is_t(x, 'short'):
        st.heap[cell] = L(())
        return one(st, io_err('UnexpectedEof'))
    if size(x) != n:
        st.event('misread', x, n, c.frame.fn if c.frame else None, c.line)
        return one(st, err(T('misread', x, n)))
    st.heap[cell] = L(ch.items[1:])
    e.wref(st, a[1], x)
    return one(st, ok(UNIT))


@model('Read::read_to_end')
def _read_to_end(e, st, a, c):
    cell, ch, lim = stream(e, st, a[0])
    if cell is None or not isinstance(a[1], Ref):
        return None
    if lim is None:
        st.heap[cell] = L(())
        e.wref(st, a[1], T('allof', ch))
        return one(st, ok(T('nread')))
    if not ch.items or lim == C(0):
        e.wref(st, a[1], L(()))
        return one(st, ok(C(0)))
    x = ch.items[0]
    if is_t(x, 'short'):
        st.heap[cell] = L(())
        e.wref(st, a[1], x)
        st.facts.set_cmp(T('shortread', x), lim, LT)
        return one(st, ok(T('shortread', x)))
    if size(x) != lim:
        st.event('misread', x, lim, c.frame.fn if c.frame else None, c.line)
        return one(st, err(T('misread', x, lim)))
    st.heap[cell] = L(ch.items[1:])
    e.wref(st, a[1], x)
    return one(st, ok(lim))


@model('Error::kind')
def _kind(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'io_err'):
        k = v.args[0].v
        return one(st, Adt('core::io::error::ErrorKind', {'UnexpectedEof': 37}.get(k, 40), k, ()))
    return None


@model('num::from_be_bytes', 'num::from_le_bytes', 'num::from_ne_bytes')
def _from_bytes(e, st, a, c):
    v = e.deep(st, a[0])
    big = c.k['f'].endswith('be_bytes')
    if is_t(v, 'be'):
        return one(st, v.args[1] if big else T('byteswapped', v.args[1]))
    if isinstance(v, L) and all(isinstance(x, C) for x in v.items):
        return one(st, C(int.from_bytes(bytes(x.v for x in v.items), 'big' if big else 'little')))
    return None


_utf8_0 = MODELS['String::from_utf8']


@model('String::from_utf8', 'str::from_utf8', 'converts::from_utf8')
def _utf8r(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'raw'):
        if is_t(v.args[1], 'badutf8'):
            return one(st, err(T('utf8err', v)))
        return one(st, ok(v.args[1]))
    return _utf8_0(e, st, a, c)


@model('Seek::stream_position')
def _pos(e, st, a, c):
    return one(st, ok(T('pos')))


@model('ParquetRecordBatchReader::try_new')
def _pq(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'raw') and is_t(v.args[1], 'parquet'):
        from .val import It
        return one(st, ok(It([b if isinstance(b, Adt) else ok(b) for b in v.args[1].args[0].items])))
    if is_t(v, 'short') or v == L(()):
        return one(st, err(T('parqueterr', v)))
    if is_t(v, 'raw') and is_t(v.args[1], 'notparquet'):
        return one(st, err(T('parqueterr', v)))
    return None


@model('BytesMut::with_capacity', 'BytesMut::new')
def _bm(e, st, a, c):
    return one(st, T('bytesmut'))


# ---- odds and ends the log reader uses ---------------------------------------------------------------
@model('char::len_utf8', 'methods::len_utf8')
def _len_utf8(e, st, a, c):
    v = e.d(st, a[0])
    if isinstance(v, C) and isinstance(v.v, str):
        return one(st, C(len(v.v.encode())))
    return None


# ---- DataFusion expressions -----------------------------------------------------------------------
@model('Column::name')
def _df_colname(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.field('name')) if isinstance(v, Adt) and v.field('name') is not None else None


@model('Operator::swap')
def _df_swap(e, st, a, c):
    v = e.deep(st, a[0])
    if not isinstance(v, Adt):
        return None
    to = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Lt': 'Gt', 'LtEq': 'GtEq', 'Gt': 'Lt', 'GtEq': 'LtEq'}.get(v.vn)
    if to is None:
        return one(st, NONE)
    ad = e.w.adts[v.path]
    i = [i for i, x in enumerate(ad['v']) if x['n'] == to][0]
    return one(st, some(Adt(v.path, i, to, ())))


@model('Operator::negate')
def _df_negate(e, st, a, c):
    v = e.deep(st, a[0])
    if not isinstance(v, Adt):
        return None
    to = {'Eq': 'NotEq', 'NotEq': 'Eq', 'Lt': 'GtEq', 'LtEq': 'Gt', 'Gt': 'LtEq', 'GtEq': 'Lt', 'IsDistinctFrom': 'IsNotDistinctFrom',
          'IsNotDistinctFrom': 'IsDistinctFrom'}.get(v.vn)
    if to is None:
        return None
    ad = e.w.adts[v.path]
    i = [i for i, x in enumerate(ad['v']) if x['n'] == to][0]
    return one(st, some(Adt(v.path, i, to, ())))


# ---- kinds of types -------------------------------------------------------------------------------
_UINT = {'UInt8', 'UInt16', 'UInt32', 'UInt64'}
_SINT = {'Int8', 'Int16', 'Int32', 'Int64'}
_FLOAT = {'Float16', 'Float32', 'Float64'}
_DEC = {'Decimal128', 'Decimal256', 'Decimal32', 'Decimal64'}
_TEMP = {'Date32', 'Date64', 'Timestamp', 'Time32', 'Time64', 'Duration', 'Interval'}
_NEST = {'List', 'FixedSizeList', 'LargeList', 'ListView', 'LargeListView', 'Struct', 'Union', 'Map'}
_NUMERIC = _UINT | _SINT | _FLOAT | _DEC
_KINDS = {'is_floating': _FLOAT, 'is_integer': _SINT | _UINT, 'is_signed_integer': _SINT, 'is_unsigned_integer': _UINT, 'is_numeric': _NUMERIC, 'is_temporal': _TEMP,
          'is_primitive': (_NUMERIC | _TEMP), 'is_nested': _NEST, 'is_null': {'Null'}, 'is_dictionary_key_type': _SINT | _UINT}


@model(*['DataType::' + _k for _k in _KINDS])
def _kindof(e, st, a, c):
    n = dtname(e.deep(st, a[0]))
    if n is None or n == 'Dictionary' or n == 'RunEndEncoded':
        return None
    return one(st, C(n in _KINDS[c.k['f'].rsplit('::', 1)[-1]]))
