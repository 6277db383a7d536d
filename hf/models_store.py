"""Models of URLs, object store paths and operations, and the asynchronous Parquet reader.

A URL is url(origin, encoded path); an object store path is objpath(text). Every operation of the object store is recorded
as an event with the path it addresses; its answer is a term over that path, or what the engine's `store` says."""
from urllib.parse import unquote_to_bytes

from . import strs as S
from .models import MODELS, model, one, items_of
from .models_more import mname
from .val import *

ENC = set(' "<>`#?{}/%\\')


def is_t(v, op):
    return isinstance(v, T) and v.op == op


def encode(seg, keep=''):
    """Percent-encodes the literal parts of a path segment; words stand for unreserved characters."""
    at = S.atoms(seg)
    if at is None:
        return None
    out = []
    for x in at:
        if isinstance(x, C):
            out.append(C(''.join(ch if ch in keep or (0x20 <= ord(ch) < 0x7f and ch not in ENC) else ''.join('%%%02X' % b for b in ch.encode()) for ch in x.v)))
        else:
            out.append(x)
    return S.mk(out)


def decode(p):
    at = S.atoms(p)
    if at is None:
        return None
    out = []
    for x in at:
        if isinstance(x, C):
            try:
                out.append(C(unquote_to_bytes(x.v).decode()))
            except UnicodeDecodeError:
                return False
        else:
            out.append(x)
    return S.mk(out)


def join(*ps):
    return S.mk([x for p in ps for x in S.atoms(C(p) if isinstance(p, str) else p)])


def parse(text):
    """url(origin, path) of literal or shaped text, an error term, or None when unknown."""
    at = S.atoms(text)
    if at is None or not at or not isinstance(at[0], C):
        return None
    head = at[0].v
    import re
    m = re.match(r'([a-zA-Z][a-zA-Z0-9+.-]*):', head)
    if not m:
        return False
    scheme = m.group(1).lower()
    rest = head[m.end():]
    if not rest.startswith('//'):
        return T('url', C(scheme + ':'), S.mk([C(rest)] + at[1:]))
    rest = rest[2:]
    i = rest.find('/')
    if i < 0:
        if len(at) > 1:
            return None
        host, path = rest, [C('/') if scheme in ('file', 'http', 'https') else C('')]
    else:
        host, path = rest[:i], [C(rest[i:])] + at[1:]
    return T('url', C(scheme + '://' + host), encode(S.mk(path), '/%'))


@model('Url::parse')
def _parse(e, st, a, c):
    v = e.deep(st, a[0])
    u = parse(v)
    if u is None:
        return None
    return one(st, err(T('urlerr', v)) if u is False else ok(u))


@model('Url::from_directory_path', 'Url::from_file_path')
def _fromdir(e, st, a, c):
    v = e.deep(st, a[0])
    at = S.atoms(v)
    if at is None:
        return None
    if not at or not isinstance(at[0], C) or not at[0].v.startswith('/'):
        return one(st, err(UNIT)) if not at or isinstance(at[0], C) else None
    p = encode(v, '/')
    if mname(c) == 'from_directory_path' and S.ends_with(p, '/') is False:
        p = join(p, '/')
    return one(st, ok(T('url', C('file://'), p)))


def the_url(e, st, v):
    v = e.deep(st, v)
    return v if is_t(v, 'url') else None


@model('Url::path', 'Url::scheme', 'Url::authority', 'Url::cannot_be_a_base', 'Url::as_str', 'Url::as_ref', 'Url::host_str', 'Url::has_host')
def _part(e, st, a, c):
    u = the_url(e, st, a[0])
    if u is None:
        return None if mname(c) != 'as_str' else one(st, a[0])
    m = mname(c)
    o = u.args[0].v
    if m == 'path':
        return one(st, u.args[1])
    if m == 'scheme':
        return one(st, C(o.split(':')[0]))
    if m == 'authority':
        return one(st, C(o.split('://', 1)[1] if '://' in o else ''))
    if m == 'cannot_be_a_base':
        return one(st, C('://' not in o))
    if m in ('as_str', 'as_ref'):
        return one(st, join(u.args[0], u.args[1]))
    return None


@model('Url::path_segments_mut')
def _segs(e, st, a, c):
    u = the_url(e, st, a[0])
    if u is None or not isinstance(a[0], Ref):
        return None
    if '://' not in u.args[0].v:
        return one(st, err(UNIT))
    return one(st, ok(Adt('url::PathSegmentsMut', 0, 'PathSegmentsMut', (a[0],), ('url',))))


def segs_ref(e, st, v):
    v = e.d(st, v)
    if isinstance(v, Adt) and v.path == 'url::PathSegmentsMut':
        r = v.fs[0]
        while True:
            x = e.rd(st, r.cell, r.path)
            if not isinstance(x, Ref):
                return r, x
            r = x
    return None, None


@model('PathSegmentsMut::pop', 'PathSegmentsMut::pop_if_empty', 'PathSegmentsMut::clear')
def _pop(e, st, a, c):
    r, u = segs_ref(e, st, a[0])
    if r is None or not is_t(u, 'url'):
        return None
    p, m = u.args[1], mname(c)
    if m == 'clear':
        p = C('/')
    elif p in (C('/'), C('')):
        pass
    elif m == 'pop_if_empty':
        x = S.ends_with(p, '/')
        if x is None:
            return None
        if x:
            p = S.mk(S.atoms(p)[:-1] + [C(S.atoms(p)[-1].v[:-1])])
    else:
        q = S.split_once(p, '/', last=True)
        if q is None or q == NONE:
            return None
        p = q.fs[0].items[0]
        p = p if p != C('') else C('/')
    e.wref(st, r, T('url', u.args[0], p))
    return one(st, a[0])


@model('PathSegmentsMut::extend', 'PathSegmentsMut::push')
def _extend(e, st, a, c):
    out = []
    for s, xs in (items_of(e, st, a[1]) if mname(c) == 'extend' else [(st, [a[1]])]):
        r, u = segs_ref(e, s, a[0])
        if r is None or not is_t(u, 'url'):
            return None
        p = u.args[1]
        for x in xs:
            x = e.deep(s, x)
            if x in (C('.'), C('..')):
                continue
            y = encode(x)
            if y is None:
                return None
            p = join(p, '' if p == C('/') else '/', y)
        e.wref(s, r, T('url', u.args[0], p))
        out.append((s, a[0]))
    return out


@model('Url::join')
def _ujoin(e, st, a, c):
    u, v = the_url(e, st, a[0]), e.deep(st, a[1])
    if u is None or S.atoms(v) is None:
        return None
    full = parse(v)
    if is_t(full, 'url'):
        return one(st, ok(full))
    if S.starts_with(v, '/'):
        return one(st, ok(T('url', u.args[0], encode(v, '/%'))))
    q = S.split_once(u.args[1], '/', last=True)
    if q is None or q == NONE:
        return None
    out = [x for x in (S.split(v, '/') or [])]
    base = S.split(q.fs[0].items[0], '/')
    if base is None or not out:
        return None
    for x in out:
        if x == C('..'):
            base = base[:-1] if len(base) > 1 else base
        elif x != C('.'):
            base = base + [encode(x, '%')]
    p = base[0]
    for b in base[1:]:
        p = join(p, '/', b)
    return one(st, ok(T('url', u.args[0], p)))


@model('Url::set_path')
def _setpath(e, st, a, c):
    u, v = the_url(e, st, a[0]), e.deep(st, a[1])
    if u is None or S.atoms(v) is None or not isinstance(a[0], Ref):
        return None
    p = encode(v, '/%')
    e.wref(st, a[0], T('url', u.args[0], p if S.starts_with(p, '/') else join('/', p)))
    return one(st, UNIT)


# ---- object store -------------------------------------------------------------------------------------
def objpath(text):
    """Path::parse: an objpath, False for an error, None when unknown."""
    if S.starts_with(text, '/') is None or S.ends_with(text, '/') is None:
        return None
    if S.starts_with(text, '/'):
        text = S.strip_prefix(text, '/').fs[0]
    if text == C(''):
        return T('objpath', text)
    if S.ends_with(text, '/'):
        text = S.strip_suffix(text, '/').fs[0]
    for x in S.split(text, '/') or ():
        if x in (C(''), C('.'), C('..')):
            return False
        if any(isinstance(y, C) and any(ord(ch) < 32 or ord(ch) == 127 for ch in y.v) for y in S.atoms(x)):
            return False
    return T('objpath', text)


@model('Path::from_url_path', 'Path::parse', 'Path::from_absolute_path')
def _fup(e, st, a, c):
    v = e.deep(st, a[0])
    if S.atoms(v) is None:
        return None
    if mname(c) == 'from_url_path':
        v = decode(v)
    p = objpath(v) if v is not False else False
    if p is None:
        return None
    return one(st, ok(p) if p is not False else err(T('patherr', e.deep(st, a[0]))))


INVALID = set('\\{^}%`]">[~<#|\r\n*?')


def path_from(v):
    """Path::from(text): characters which are not allowed are encoded, empty segments dropped."""
    xs = S.split(v, '/') if S.atoms(v) is not None else None
    if xs is None:
        return None
    out = []
    for x in xs:
        if x == C(''):
            continue
        y = []
        for z in S.atoms(x):
            if isinstance(z, C):
                y.append(C(''.join(ch if 0x20 <= ord(ch) < 0x7f and ch not in INVALID else ''.join('%%%02X' % b for b in ch.encode()) for ch in z.v)))
            else:
                y.append(z)
        z = S.mk(y)
        out.append({C('.'): C('%2E'), C('..'): C('%2E%2E')}.get(z, z))
    if not out:
        return T('objpath', C(''))
    p = out[0]
    for x in out[1:]:
        p = join(p, '/', x)
    return T('objpath', p)


_filename0 = MODELS.get('Path::filename')


@model('Path::filename')
def _filename(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_t(v, 'objpath'):
        return None
    if v.args[0] == C(''):
        return one(st, NONE)
    q = S.split_once(v.args[0], '/', last=True)
    if q is None:
        return None
    return one(st, some(v.args[0] if q == NONE else q.fs[0].items[1]))


_asref0 = MODELS['AsRef::as_ref']


@model('AsRef::as_ref')
def _asref(e, st, a, c):
    v = e.deep(st, a[0])
    if is_t(v, 'objpath'):
        return one(st, v.args[0])
    if is_t(v, 'url'):
        return one(st, a[0] if c.dest()['s'].rstrip('>').endswith('Url') else join(v.args[0], v.args[1]))
    return _asref0(e, st, a, c)


def meta(p):
    return Adt('object_store::ObjectMeta', 0, 'ObjectMeta', (p, T('mtime', p), T('size', p), NONE, NONE), ('location', 'last_modified', 'size', 'e_tag', 'version'))


def where(p):
    return p.args[0] if is_t(p, 'objpath') else p


@model('ObjectStore::head', 'ObjectStore::get', 'ObjectStore::list_with_delimiter', 'ObjectStore::get_range', 'ObjectStore::get_opts', 'ObjectStore::list')
def _op(e, st, a, c):
    m = mname(c)
    p = e.deep(st, a[1])
    if m.startswith('list') and isinstance(p, Adt):
        p = p.fs[0] if p.fs else T('objpath', C(''))
    st.event('object_store', m, where(p), c.frame.fn if c.frame else None, c.line)
    if m == 'head':
        return one(st, T('ready', ok(meta(p))))
    if m == 'list_with_delimiter':
        tab = getattr(e, 'store', None) or {}
        d, f = tab.get(where(p), ([], []))
        pre = where(p)
        full = lambda n: T('objpath', join(pre, '/', n) if pre != C('') else n)
        return one(st, T('ready', ok(Adt('object_store::ListResult', 0, 'ListResult', (L([full(C(x) if isinstance(x, str) else x) for x in d]), L([meta(full(C(x) if isinstance(x, str) else x)) for x in f])),
                                         ('common_prefixes', 'objects')))))
    if m == 'list':
        return None
    return one(st, T('ready', ok(T('getresult', p))))


@model('GetResult::bytes')
def _gbytes(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, T('ready', ok(T('content', where(v.args[0]))))) if is_t(v, 'getresult') else None


@model('parse::parse_url_opts', 'parse::parse_url')
def _purl(e, st, a, c):
    u = e.deep(st, a[0])
    return one(st, ok(Tup((T('objectstore', u), T('objpath', C(''))))))


# ---- Parquet ------------------------------------------------------------------------------------------------
@model('ParquetObjectReader::new')
def _por(e, st, a, c):
    m = e.deep(st, a[1])
    p = m.field('location') if isinstance(m, Adt) else m
    st.event('object_store', 'parquet', where(p), c.frame.fn if c.frame else None, c.line)
    return one(st, T('pqreader', where(p)))


@model('ArrowReaderBuilder::new', 'arrow_reader::ArrowReaderBuilder::new', 'async_reader::new')
def _pqb(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, T('ready', ok(T('pqbuilder', v.args[0])))) if is_t(v, 'pqreader') else None


@model('ArrowReaderBuilder::metadata', 'ArrowReaderBuilder::schema', 'ParquetMetaData::file_metadata', 'FileMetaData::num_rows', 'ParquetMetaData::row_groups',
       'RowGroupMetaData::total_byte_size', 'FileMetaData::schema_descr', 'ParquetMetaData::row_group', 'ParquetMetaData::num_row_groups',
       'RowGroupMetaData::num_rows', 'RowGroupMetaData::compressed_size')
def _pqm(e, st, a, c):
    v = e.deep(st, a[0])
    m = mname(c)
    if is_t(v, 'pqbuilder') and m in ('metadata', 'schema'):
        return one(st, T('pq' + m, v.args[0]))
    if is_t(v, 'pqmetadata') and m == 'file_metadata':
        return one(st, T('pqfilemeta', v.args[0]))
    if is_t(v, 'pqmetadata') and m == 'row_groups':
        return one(st, L([T('rowgroup', v.args[0], C(i)) for i in range(getattr(e, 'row_groups', 2))]))
    if is_t(v, 'pqmetadata') and m == 'num_row_groups':
        return one(st, C(getattr(e, 'row_groups', 2)))
    if is_t(v, 'pqmetadata') and m == 'row_group':
        i, n = e.d(st, a[1]), getattr(e, 'row_groups', 2)
        if not isinstance(i, C):
            return None
        if i.v >= n:
            e.panic(st, c.frame, c.line, 'row group %d of %d' % (i.v, n))
            return []
        return one(st, T('rowgroup', v.args[0], i))
    if is_t(v, 'pqfilemeta'):
        return one(st, T(m, v.args[0]))
    if is_t(v, 'rowgroup'):
        return one(st, T(m, *v.args))
    return None


@model('schema::parquet_to_arrow_schema')
def _p2a(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, ok(T('pqschema', v.args[0]))) if is_t(v, 'schema_descr') else None


@model('ArrowReaderBuilder::build', 'async_reader::build')
def _pqbuild(e, st, a, c):
    v = e.deep(st, a[0])
    if not is_t(v, 'pqbuilder'):
        return None
    n = getattr(e, 'pq_batches', [ok(T('batch', T('pqschema', v.args[0]), L([T('pqrow', v.args[0], C(i), C(j)) for j in range(2)]))) for i in range(2)])
    return one(st, ok(It(list(n))))
