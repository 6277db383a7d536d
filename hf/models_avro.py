"""Avro schemas and values, and the Arrow arrays that are built from them. Loaded only by the checks that decode Avro rows:
a field is (name, type, nullable), an array is a list of cells with its Arrow type."""
import re

from .val import *
from .models import jval, model, one, MODELS, items_of, drain, build as _build0, equal, tyname
from . import models
from .models_arrow import is_t
from .scen import cat

AVS, AVV, DT, TU = 'apache_avro::schema::Schema', 'apache_avro::types::Value', 'arrow_schema::datatype::DataType', 'arrow_schema::datatype::TimeUnit'
NULL = T('null')
SK = 'apache_avro::schema::SchemaKind'


def attrs(n):
    """Attributes of a schema that mean nothing to a reader of the data."""
    return M([(C(k), jval(x)) for k, x in (('alias', 'x_%s' % n), ('comment', 'text'), ('field-id', 7), ('original_name', 'y_%s' % n))], 'BTreeMap')


class Avro:
    """Builds Avro schemas and values."""

    def __init__(self, w):
        self.adts = {p: {v['n']: (i, [f['n'] for f in v['f']]) for i, v in enumerate(w.adts[p]['v'])} for p in (AVS, AVV, SK, DT, TU) if p in w.adts}

    def adt(self, path, name, *args):
        i, fs = self.adts[path][name]
        return Adt(path, i, name, args, fs)

    def s(self, name, *args):
        return self.adt(AVS, name, *args)

    def v(self, name, *args):
        return self.adt(AVV, name, *args)

    def name(self, n):
        return struct('Name', name=C(n), namespace=NONE)

    def array(self, items):
        return self.s('Array', struct('ArraySchema', items=items, attributes=attrs('other')))

    def map(self, types):
        return self.s('Map', struct('MapSchema', types=types, attributes=attrs('other')))

    def union(self, *xs):
        return self.s('Union', struct('UnionSchema', schemas=L(xs), variant_index=M((), 'BTreeMap')))

    def record(self, name, *fields, doc=None, aliases=()):
        fs, lk = [], []
        for i, (n, s) in enumerate(fields):
            fs.append(struct('RecordField', name=C(n), doc=some(C('doc')) if doc else NONE, aliases=some(L([C(x) for x in aliases])) if aliases and i == 0 else NONE, default=some(jval(None)) if i % 2 else NONE,
                             schema=s, order=T('order'), position=C(i), custom_attributes=attrs(n)))
            lk.append((C(n), C(i)))
            if aliases and i == 0:
                lk += [(C(x), C(i)) for x in aliases]
        return self.s('Record', struct('RecordSchema', name=self.name(name), aliases=NONE, doc=some(C('doc')) if doc else NONE, fields=L(fs), lookup=M(lk, 'BTreeMap'), attributes=attrs('other')))

    def fixed(self, n):
        return self.s('Fixed', struct('FixedSchema', name=self.name('f%d' % n), aliases=NONE, doc=NONE, size=C(n), default=NONE, attributes=attrs('other')))

    def enum(self):
        return self.s('Enum', struct('EnumSchema', name=self.name('e'), aliases=NONE, doc=NONE, symbols=L([C('A'), C('B')]), default=NONE, attributes=attrs('other')))

    def decimal(self):
        return self.s('Decimal', struct('DecimalSchema', precision=C(10), scale=C(2), inner=self.s('Bytes')))

    def ref(self, n):
        return self.s('Ref', self.name(n))


def struct(cls, /, **fs):
    p = 'apache_avro::schema::' + cls
    return Adt(p, 0, cls, list(fs.values()), list(fs))


# ---- Avro --------------------------------------------------------------------------------------------
@model('UnionSchema::variants')
def _variants(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.field('schemas')) if isinstance(v, Adt) else None


@model('UnionSchema::is_nullable')
def _unull(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, C(any(x.vn == 'Null' for x in v.field('schemas').items))) if isinstance(v, Adt) else None


@model('RecordField::is_nullable')
def _rnull(e, st, a, c):
    v = e.deep(st, a[0])
    if not isinstance(v, Adt):
        return None
    s = v.field('schema')
    return one(st, C(s.vn == 'Union' and any(x.vn == 'Null' for x in s.fs[0].field('schemas').items)))


@model('UnionSchema::find_schema_with_known_schemata', 'UnionSchema::find_schema')
def _find(e, st, a, c):
    u, v = e.deep(st, a[0]), e.deep(st, a[1])
    if not isinstance(u, Adt) or not isinstance(v, Adt) or v.vn != 'Null':
        return None
    for i, x in enumerate(u.field('schemas').items):
        if x.vn == 'Null':
            return one(st, some(Tup((C(i), x))))
    return one(st, NONE)


_skfrom = MODELS.get('From::from')


def _from(e, st, a, c):
    k = c.k if c else None
    if k and k.get('ga'):
        d = c.types[k['ga'][0]]
        v = e.deep(st, a[0])
        if d.get('d', '').endswith(('SchemaKind', 'ValueKind')) and isinstance(v, Adt) and v.path in (AVS, AVV):
            return one(st, Adt(d['d'], v.vi, v.vn, (), ()) if d['d'] != SK else kind(e, v.vn))
    return _skfrom(e, st, a, c)


def kind(e, vn):
    for i, v in enumerate(e.w.adts[SK]['v']):
        if v['n'] == vn:
            return Adt(SK, i, vn, (), ())
    return T('kind', C(vn))


MODELS['From::from'] = _from
_into0 = MODELS['Into::into']


def _into(e, st, a, c):
    k = c.k if c else None
    if k and len(k.get('ga', [])) > 1 and c.types[k['ga'][1]].get('d', '').endswith(('SchemaKind', 'ValueKind')):
        v = e.deep(st, a[0])
        return one(st, kind(e, v.vn) if isinstance(v, Adt) else T('kind', v))
    return _into0(e, st, a, c)


MODELS['Into::into'] = _into


@model('Uuid::as_bytes', 'Uuid::into_bytes')
def _uuid(e, st, a, c):
    return one(st, T('uuid-bytes', e.deep(st, a[0])))


# ---- fields --------------------------------------------------------------------------------------------
@model('Field::new')
def _fnew(e, st, a, c):
    return one(st, T('field', e.deep(st, a[0]), e.deep(st, a[1]), e.deep(st, a[2])))


@model('Field::set_metadata', 'Field::set_nullable')
def _fmeta(e, st, a, c):
    if c.k['f'].endswith('set_nullable'):
        v = e.deep(st, a[0])
        if not is_t(v, 'field'):
            return None
        e.wref(st, a[0], T('field', v.args[0], v.args[1], e.d(st, a[1])))
    return one(st, UNIT)


@model('Field::with_metadata', 'Field::with_nullable', 'Field::with_name', 'Field::with_data_type')
def _fwith(e, st, a, c):
    v, x = e.deep(st, a[0]), e.deep(st, a[1])
    if not is_t(v, 'field'):
        return None
    n, t, u = v.args
    m = c.k['f'].rsplit('::', 1)[-1]
    return one(st, {'with_metadata': v, 'with_nullable': T('field', n, t, x), 'with_name': T('field', x, t, u), 'with_data_type': T('field', n, x, u)}[m])


@model('Field::is_nullable')
def _fnull(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.args[2]) if is_t(v, 'field') and len(v.args) > 2 else None


@model('UnionFields::new')
def _ufields(e, st, a, c):
    return [(s, L([e.deep(s, x) for x in xs])) for s, xs in items_of(e, st, a[1])]


# ---- numbers ---------------------------------------------------------------------------------------------
BITS = {'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'f32': (24, 2), 'f64': (53, 2)}
NATIVE = {'Int8Type': 'i8', 'Int16Type': 'i16', 'Int32Type': 'i32', 'Int64Type': 'i64', 'UInt8Type': 'u8', 'UInt16Type': 'u16', 'UInt32Type': 'u32', 'UInt64Type': 'u64',
          'Float32Type': 'f32', 'Float64Type': 'f64', 'Date32Type': 'i32', 'Date64Type': 'i64', 'Time32SecondType': 'i32', 'Time32MillisecondType': 'i32',
          'Time64MicrosecondType': 'i64', 'Time64NanosecondType': 'i64', 'TimestampSecondType': 'i64', 'TimestampMillisecondType': 'i64',
          'TimestampMicrosecondType': 'i64', 'TimestampNanosecondType': 'i64', 'DurationMillisecondType': 'i64', 'Decimal128Type': 'i128'}
UNIT_OF = {'Second': 0, 'Millisecond': 1, 'Microsecond': 2, 'Nanosecond': 3}


def param(types, name):
    """What the type parameter with this name stands for."""
    base = types.base if hasattr(types, 'base') else types
    tsub = types.tsub if hasattr(types, 'tsub') else {}
    for i, t in enumerate(base):
        if t.get('k') == 'param' and t['s'] == name and t.get('ix', -1) in tsub:
            return types[i]
    return None


def native(types, t):
    s = t['s']
    if s in BITS:
        return s
    m = re.fullmatch(r'<(\w+) as .*>::Native', s) or re.fullmatch(r'<(.*?) as .*>::Native', s)
    if m:
        p = m.group(1)
        if '::' not in p:
            p = param(types, p)
            p = p and p['s']
        if p:
            return NATIVE.get(p.split('::')[-1])
    if t.get('k') == 'param' and t['s'] in BITS:
        return t['s']
    return None


def fits(src, dst):
    (a, x), (b, y) = BITS[src], BITS[dst]
    if x == y:
        return a <= b
    return y == 2 and a - (x == 1) <= b or x == 0 and y == 1 and a < b


@model('NumCast::from', 'cast::cast', 'ToPrimitive::to_i64', 'ToPrimitive::to_i32', 'FromPrimitive::from_i64', 'FromPrimitive::from_i32')
def _numcast(e, st, a, c):
    v = e.deep(st, a[0])
    ga = [c.types[g] for g in c.k.get('ga', []) if g is not None]
    ns = [native(c.types, t) for t in ga]
    if c.k['f'].endswith('cast::cast') and len(ns) == 2:
        ns = ns[::-1]
    if len(ns) < 2 or None in ns[:2]:
        return None
    dst, src = ns[:2]
    if fits(src, dst):
        return one(st, some(v))
    k = T('fits', v, C(dst))
    return [(s, some(v) if i == 0 else NONE) for s, i in e.split_var(st, k, [0, 1], 2)]


@model('Zero::zero')
def _zero(e, st, a, c):
    return one(st, C(0))


@model('One::one')
def _one(e, st, a, c):
    return one(st, C(1))


@model('ArrowNativeType::from_usize', 'ArrowNativeType::to_usize', 'OffsetSizeTrait::from_usize')
def _fromus(e, st, a, c):
    return one(st, some(e.d(st, a[0])))


@model('ArrowNativeType::as_usize', 'ArrowNativeType::usize_as')
def _asus(e, st, a, c):
    return one(st, e.d(st, a[0]))


# ---- buffers ---------------------------------------------------------------------------------------------
@model('bit_util::ceil')
def _ceil(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    return one(st, C(-(-x.v // y.v))) if isinstance(x, C) and isinstance(y, C) else None


def bits(v):
    return v.args[0].items if is_t(v, 'bits') else None


@model('MutableBuffer::from_len_zeroed')
def _zeroed(e, st, a, c):
    n = e.d(st, a[0])
    return one(st, T('bits', L([FALSE] * (8 * n.v)))) if isinstance(n, C) else None


@model('MutableBuffer::new', 'MutableBuffer::with_capacity')
def _mbnew(e, st, a, c):
    return one(st, T('bits', L(())))


@model('MutableBuffer::with_bitset')
def _bitset(e, st, a, c):
    n, b = e.d(st, a[1]), e.d(st, a[2])
    return one(st, T('bits', L([b] * (8 * n.v)))) if isinstance(n, C) and isinstance(b, C) else None


@model('bit_util::set_bit', 'bit_util::unset_bit')
def _setbit(e, st, a, c):
    v, i = e.deep(st, a[0]), e.d(st, a[1])
    bs = bits(v)
    if bs is None or not isinstance(i, C):
        return None
    if i.v >= len(bs):
        e.panic(st, c.frame, c.line, 'bit %d of a buffer of %d' % (i.v, len(bs)))
        return []
    bs = list(bs)
    bs[i.v] = C(c.k['f'].endswith('::set_bit'))
    e.wref(st, a[0], T('bits', L(bs)))
    return one(st, UNIT)


@model('bit_util::get_bit')
def _getbit(e, st, a, c):
    v, i = e.deep(st, a[0]), e.d(st, a[1])
    return one(st, bits(v)[i.v]) if bits(v) is not None and isinstance(i, C) and i.v < len(bits(v)) else None


@model('Buffer::from_slice_ref', 'Buffer::from_vec', 'ScalarBuffer::from', 'OffsetBuffer::new', 'Buffer::from')
def _buf(e, st, a, c):
    return one(st, e.deep(st, a[0]))


# ---- arrays ----------------------------------------------------------------------------------------------
def dt(e, name, *args):
    for i, v in enumerate(e.w.adts[DT]['v']):
        if v['n'] == name:
            return Adt(DT, i, name, args, [f['n'] for f in v['f']])


def unit(e, name):
    for i, v in enumerate(e.w.adts[TU]['v']):
        if v['n'] == name:
            return Adt(TU, i, name, (), ())


def arrow_type(e, marker):
    """The Arrow type of a PrimitiveArray<marker>."""
    m = re.fullmatch(r'(Int|UInt|Float)(\d+)Type', marker)
    if m:
        return dt(e, m.group(1) + m.group(2))
    if marker in ('Date32Type', 'Date64Type'):
        return dt(e, marker[:-4])
    m = re.fullmatch(r'(Time32|Time64|Timestamp|Duration)(Second|Millisecond|Microsecond|Nanosecond)Type', marker)
    if m:
        return dt(e, m.group(1), unit(e, m.group(2)), *((NONE,) if m.group(1) == 'Timestamp' else ()))
    return None


BYTES = {'Utf8Type': 'Utf8', 'LargeUtf8Type': 'LargeUtf8', 'BinaryType': 'Binary', 'LargeBinaryType': 'LargeBinary',
         'GenericStringType<i32>': 'Utf8', 'GenericStringType<i64>': 'LargeUtf8', 'GenericBinaryType<i32>': 'Binary', 'GenericBinaryType<i64>': 'LargeBinary'}


def array_type(e, types, ty):
    """The Arrow type of the array type ty."""
    n = tyname(ty).split('::')[-1]
    if n in ('BooleanArray', 'BooleanBuilder'):
        return dt(e, 'Boolean')
    if n in ('PrimitiveArray', 'PrimitiveBuilder') and ty.get('a'):
        return arrow_type(e, types[ty['a'][0]]['s'].split('::')[-1])
    if n in ('GenericByteArray', 'GenericByteBuilder') and ty.get('a'):
        s = re.sub(r'\w+::', '', types[ty['a'][0]]['s'])
        return dt(e, BYTES[s]) if s in BYTES else None
    return None


def acol(cells, t):
    return T('acol', L(cells), t)


def is_col(v):
    return is_t(v, 'acol')


def cells_of(e, st, xs):
    """[(state, cells)]: each element present or null."""
    cur = [(st, [])]
    for x in xs:
        nx = []
        for s, cs in cur:
            x1 = e.d(s, x)
            if isinstance(x1, Adt) and x1.path == OPT:
                nx.append((s, cs + [e.deep(s, x1.fs[0]) if x1.vi == 1 else NULL]))
            elif isinstance(x1, T) and x1.op in ('sym',):
                nx.append((s, cs + [x1]))
            else:
                nx.append((s, cs + [e.deep(s, x1)]))
        cur = nx
    return cur


_b0 = models.build


def _build(e, st, xs, ty, types):
    last = tyname(ty).split('::')[-1]
    if last in ('PrimitiveArray', 'GenericByteArray', 'BooleanArray'):
        t = array_type(e, types, ty)
        if t is None:
            return [(st, T('array-of-unknown-type', C(ty['s'])))]
        return [(s, acol(cs, t)) for s, cs in cells_of(e, st, xs)]
    return _b0(e, st, xs, ty, types)


models.build = _build


@model('NullArray::new')
def _nullarr(e, st, a, c):
    n = e.d(st, a[0])
    return one(st, acol([NULL] * n.v, dt(e, 'Null'))) if isinstance(n, C) else None


@model('FixedSizeBinaryArray::try_from_sparse_iter_with_size')
def _fsb(e, st, a, c):
    n = e.d(st, a[1])
    out = []
    for s, xs in drain(e, st, a[0]):
        for s2, cs in cells_of(e, s, xs):
            bad = any(width(x) is not None and isinstance(n, C) and width(x) != n.v for x in cs)
            out.append((s2, err(T('arrowerr', C('size'))) if bad else ok(acol(cs, dt(e, 'FixedSizeBinary', n)))))
    return out


def width(v):
    if v == NULL:
        return None
    if is_t(v, 'uuid-bytes'):
        return 16
    if is_t(v, 'fixed-bytes'):
        return v.args[1].v
    return None


for _n in ('Array::to_data', 'Array::into_data', 'array::make_array', 'ArrayData::clone', 'GenericListArray::from', 'StructArray::from', 'PrimitiveArray::from_data', 'Array::slice_'):
    def _same(e, st, a, c):
        v = e.deep(st, a[0])
        return one(st, v) if is_col(v) else None
    MODELS[_n] = _same


@model('Array::data_type', 'ArrayData::data_type')
def _adt(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v.args[1]) if is_col(v) else None


@model('Array::len', 'ArrayData::len', 'GenericByteArray::len', 'PrimitiveArray::len')
def _alen(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, C(len(v.args[0].items))) if is_col(v) else None


@model('Array::null_count', 'ArrayData::null_count')
def _ancount(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, C(nulls(v))) if is_col(v) else None


def nulls(col):
    """How many nulls the array records: an array of type Null records none."""
    return 0 if col.args[1].vn == 'Null' else sum(x == NULL for x in col.args[0].items)


# builders
@model('BooleanBuilder::with_capacity', 'BooleanBuilder::new', 'PrimitiveBuilder::new', 'PrimitiveBuilder::with_capacity', 'GenericByteBuilder::new', 'GenericByteBuilder::with_capacity')
def _bnew(e, st, a, c):
    t = array_type(e, c.types, c.dest())
    return one(st, acol((), t)) if t is not None else None


@model('BooleanBuilder::append_value', 'PrimitiveBuilder::append_value', 'GenericByteBuilder::append_value', 'BooleanBuilder::append_option', 'PrimitiveBuilder::append_option',
       'GenericByteBuilder::append_option', 'BooleanBuilder::append_null', 'PrimitiveBuilder::append_null', 'GenericByteBuilder::append_null')
def _bapp(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_col(v):
        return None
    out = []
    for s, cs in cells_of(e, st, [a[1]]) if len(a) > 1 else [(st, [NULL])]:
        e.wref(s, a[0], acol(list(v.args[0].items) + cs, v.args[1]))
        out.append((s, UNIT))
    return out


@model('BooleanBuilder::finish', 'PrimitiveBuilder::finish', 'GenericByteBuilder::finish', 'ArrayBuilder::finish', 'BooleanBuilder::finish_cloned')
def _bfin(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_col(v):
        return None
    e.wref(st, a[0], acol((), v.args[1]))
    return one(st, v)


# generic construction
def adb(t, n=C(0), nb=NONE, bufs=(), kids=()):
    return T('adb', t, n, nb, L(bufs), L(kids))


@model('ArrayDataBuilder::new', 'ArrayData::builder')
def _adbn(e, st, a, c):
    return one(st, adb(e.deep(st, a[0])))


@model('ArrayDataBuilder::len', 'ArrayDataBuilder::null_bit_buffer', 'ArrayDataBuilder::add_buffer', 'ArrayDataBuilder::buffers',
       'ArrayDataBuilder::add_child_data', 'ArrayDataBuilder::child_data', 'ArrayDataBuilder::null_count')
def _adbs(e, st, a, c):
    v, x = e.deep(st, a[0]), e.deep(st, a[1])
    if not is_t(v, 'adb'):
        return None
    t, n, nb, bufs, kids = v.args
    m = c.k['f'].rsplit('::', 1)[-1]
    if m == 'len':
        n = x
    elif m == 'null_bit_buffer':
        nb = x
    elif m == 'add_buffer':
        bufs = L(list(bufs.items) + [x])
    elif m == 'add_child_data':
        kids = L(list(kids.items) + [x])
    elif m in ('buffers', 'child_data'):
        rs = items_of(e, st, x)
        if len(rs) != 1:
            return None
        xs = L([e.deep(rs[0][0], y) for y in rs[0][1]])
        bufs, kids = (xs, kids) if m == 'buffers' else (bufs, xs)
    return one(st, T('adb', t, n, nb, bufs, kids))


@model('ArrayDataBuilder::build')
def _adbb(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_t(v, 'adb'):
        return None
    t, n, nb, bufs, kids = v.args
    r = assemble(e, t, n, nb, bufs.items, kids.items)
    return None if r is None else one(st, r)


def bad(why):
    return err(T('arrowerr', C(why)))


def assemble(e, t, n, nb, bufs, kids):
    """What building an array out of these parts gives, validated as Arrow does it; None when the parts are not known."""
    if not isinstance(n, C) or not isinstance(t, Adt) or not all(is_col(k) for k in kids):
        return None
    n = n.v
    valid = [True] * n
    if isinstance(nb, Adt) and nb.vi == 1:
        bs = bits(nb.fs[0])
        if bs is None or not all(isinstance(b, C) for b in bs):
            return None
        if len(bs) < n:
            return bad('null buffer too small')
        valid = [b.v for b in bs[:n]]
    elif nb != NONE:
        return None
    if t.vn == 'Struct':
        fs = t.fs[0].items
        if len(fs) != len(kids):
            return bad('number of children')
        for f, k in zip(fs, kids):
            if f.args[1] != k.args[1]:
                return bad('child type mismatch')
            if len(k.args[0].items) < n:
                return bad('child too short')
            if f.args[2] == FALSE and k.args[1].vn != 'Null' and any(x == NULL and p for x, p in zip(k.args[0].items, valid)):
                return bad('nulls in a child that is not nullable')
        return ok(acol([T('struct', L([T('at', f.args[0], k.args[0].items[i]) for f, k in zip(fs, kids)])) if valid[i] else NULL for i in range(n)], t))
    if t.vn in ('List', 'LargeList'):
        if len(kids) != 1 or len(bufs) != 1 or not isinstance(bufs[0], L) or not all(isinstance(x, C) for x in bufs[0].items):
            return None
        f, k, off = t.fs[0], kids[0], [x.v for x in bufs[0].items]
        if f.args[1] != k.args[1]:
            return bad('child type mismatch')
        if len(off) < n + 1:
            return bad('too few offsets')
        if any(x > y for x, y in zip(off, off[1:])) or off[n] > len(k.args[0].items):
            return bad('offsets')
        if f.args[2] == FALSE and nulls(k):
            return bad('nulls in a child that is not nullable')
        cs = k.args[0].items
        return ok(acol([T('list', L(cs[off[i]:off[i + 1]])) if valid[i] else NULL for i in range(n)], t))
    if t.vn == 'Boolean':
        if len(bufs) != 1 or bits(bufs[0]) is None:
            return None
        bs = bits(bufs[0])
        if len(bs) < n:
            return bad('buffer too small')
        return ok(acol([bs[i] if valid[i] else NULL for i in range(n)], t))
    return None


@model('RecordBatch::try_new')
def _rbnew(e, st, a, c):
    s, xs = e.deep(st, a[0]), e.deep(st, a[1])
    if not is_t(s, 'schema') or not isinstance(xs, L) or not all(is_col(x) for x in xs.items):
        return None
    fs, cols = s.args[0].items, xs.items
    if len(fs) != len(cols):
        return one(st, bad('number of columns'))
    if not cols:
        return one(st, bad('no columns'))
    for f, k in zip(fs, cols):
        if f.args[1] != k.args[1]:
            return one(st, bad('column types must match schema types: %s and %s' % (f.args[1], k.args[1])))
        if f.args[2] == FALSE and nulls(k):
            return one(st, bad('column %s is not nullable but holds nulls' % f.args[0]))
        if len(k.args[0].items) != len(cols[0].args[0].items):
            return one(st, bad('columns must have the same length'))
    return one(st, ok(T('abatch', s, L(cols))))


# ---- data blocks -----------------------------------------------------------------------------------------
SCHEMAS = {}  # text of a schema -> schema


@model('Schema::parse_str', 'Schema::parse')
def _parse(e, st, a, c):
    v = e.deep(st, a[0])
    if v in SCHEMAS:
        return one(st, ok(SCHEMAS[v]))
    return one(st, err(T('avroerr', v)))


@model('apache_avro::from_avro_datum', 'reader::from_avro_datum')
def _datum(e, st, a, c):
    """Reads one value written with the schema, from a stream or bytes that hold raw(length, datum(schema, value)). A
    string that the data ends in is decoded as null, without an error."""
    from .models_arrow import stream, size
    sch = e.deep(st, a[0])

    def cut():
        out = one(st.fork(), err(T('avroerr', C('eof'))))
        v = nulled(Avro(e.w), sch)
        if v is not None:
            out += one(st, ok(v))
        return out
    here = c.frame.fn if c.frame else None
    v = e.d(st, a[1])
    b = e.deep(st, v)
    if b == L(()):
        return one(st, err(T('avroerr', C('eof'))))
    if is_t(b, 'short'):
        return cut()
    if is_t(b, 'raw') or is_t(b, 'be') or isinstance(b, L):
        if not is_t(b, 'raw') or not is_t(b.args[1], 'datum') or b.args[1].args[0] != sch:
            st.event('misread', b, size(b), here, c.line)
            return one(st, err(T('misread', b, sch)))
        if isinstance(a[1], Ref):
            e.wref(st, a[1], L(()))
        return one(st, ok(b.args[1].args[1]))
    cell, ch, lim = stream(e, st, a[1])
    if cell is None:
        return None
    if not ch.items:
        return one(st, err(T('avroerr', C('eof'))))
    if is_t(ch.items[0], 'short'):
        st.heap[cell] = L(())
        return cut()
    x = ch.items[0]
    if size(x) != lim or not is_t(x, 'raw') or not is_t(x.args[1], 'datum') or x.args[1].args[0] != sch:
        st.event('misread', x, lim if lim is not None else C(0), here, c.line)
        return one(st, err(T('misread', x, sch)))
    st.heap[cell] = L(ch.items[1:])
    return one(st, ok(x.args[1].args[1]))


def nulled(A, sch):
    """What a value of the schema that is cut short is decoded as if no error is noticed, or None."""
    if not isinstance(sch, Adt):
        return None
    if sch.vn == 'String':
        return A.v('Null')
    if sch.vn == 'Union':
        for i, x in enumerate(sch.fs[0].field('schemas').items):
            if x.vn == 'String':
                return A.v('Union', C(i), A.v('Null'))
    if sch.vn == 'Record':
        fs = [(f.field('name'), nulled(A, f.field('schema'))) for f in sch.fs[0].field('fields').items]
        if all(v is not None for _, v in fs):
            return A.v('Record', L([Tup(x) for x in fs]))
    return None


def datum_block(text, sch, rows, n=None):
    """The content of an Avro data block: record format version, number of records, each with its length."""
    from .models_arrow import be, raw
    SCHEMAS[C(text)] = sch
    out = [be(4, 3), be(4, len(rows) if n is None else n)]
    for i, r in enumerate(rows):
        ln = T('datumlen', C(text), C(i))
        out += [be(4, ln), raw(ln, T('datum', sch, r))]
    return out
