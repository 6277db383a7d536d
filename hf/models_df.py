"""Models of the DataFusion types a table provider builds its plan from: the plan is kept as exec(configuration, settings),
where the configuration records everything it was given."""
from . import strs as S
from .models import model, one, items_of, themap
from .models_more import mname
from .models_store import path_from, meta as objmeta
from .val import *

FSC = 'datafusion::FileScanConfig'
BLD = 'datafusion::ParquetExecBuilder'
FIELDS = {FSC: ('url', 'schema', 'groups', 'projection', 'limit', 'more'), BLD: ('config', 'options', 'predicate', 'more')}


def rec(p, **kw):
    return Adt(p, 0, p.split('::')[-1], tuple(kw[n] for n in FIELDS[p]), FIELDS[p])


def put(a, n, v):
    return Adt(a.path, a.vi, a.vn, tuple(v if x == n else y for x, y in zip(a.names, a.fs)), a.names)


@model('Session::runtime_env', 'Session::config_options', 'Session::execution_props', 'Session::config', 'Session::table_options')
def _session(e, st, a, c):
    return one(st, T(mname(c), e.deep(st, a[0])))


@model('RuntimeEnv::register_object_store')
def _register(e, st, a, c):
    st.event('register', e.deep(st, a[1]), e.deep(st, a[2]))
    return one(st, NONE)


@model('ObjectStoreUrl::parse')
def _osurl(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, ok(T('osurl', v))) if S.atoms(v) is not None else None


@model('ObjectStoreUrl::local_filesystem')
def _osurl_local(e, st, a, c):
    return one(st, T('osurl', C('file://')))


@model('PartitionedFile::new', 'PartitionedFile::new_with_range', 'PartitionedFile::from')
def _pf(e, st, a, c):
    v = e.deep(st, a[0])
    rng = NONE
    if mname(c) == 'from':
        if not isinstance(v, Adt):
            return None
        m = v
    else:
        p = path_from(v) if S.atoms(v) is not None else None
        if p is None:
            return None
        m = objmeta(p)
        m = Adt(m.path, m.vi, m.vn, tuple(e.deep(st, a[1]) if n == 'size' else x for n, x in zip(m.names, m.fs)), m.names)
        if mname(c) == 'new_with_range':
            rng = some(Tup((e.deep(st, a[2]), e.deep(st, a[3]))))
    # fields by declaration of datafusion's PartitionedFile
    w = e.w
    d = [x for x in w.adts.values() if x['d'].endswith('::PartitionedFile')]
    if len(d) != 1:
        return None
    ns = [f['n'] for f in d[0]['v'][0]['f']]
    vals = {'object_meta': m, 'partition_values': L(()), 'range': rng}
    return one(st, Adt(d[0]['d'], 0, d[0]['v'][0]['n'], tuple(vals.get(n, NONE) for n in ns), tuple(ns)))


@model('PartitionedFile::with_range')
def _pfr(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, put(v, 'range', some(Tup((e.deep(st, a[1]), e.deep(st, a[2])))))) if isinstance(v, Adt) else None


@model('FileScanConfig::new')
def _fsc(e, st, a, c):
    return one(st, rec(FSC, url=e.deep(st, a[0]), schema=e.deep(st, a[1]), groups=L(()), projection=NONE, limit=NONE, more=L(())))


@model('FileScanConfig::with_file_groups', 'FileScanConfig::with_file_group', 'FileScanConfig::with_file', 'FileScanConfig::with_projection',
       'FileScanConfig::with_limit', 'FileScanConfig::with_constraints', 'FileScanConfig::with_statistics', 'FileScanConfig::with_table_partition_cols',
       'FileScanConfig::with_output_ordering')
def _fscw(e, st, a, c):
    v, x = e.d(st, a[0]), e.deep(st, a[1])
    if not isinstance(v, Adt) or v.path != FSC:
        return None
    m = mname(c)
    if m in ('with_file_groups', 'with_file_group', 'with_file'):
        if m == 'with_file':
            x = L((x,))
        gs = x.items if m == 'with_file_groups' and isinstance(x, L) else (x,)
        if m == 'with_file_groups' and not isinstance(x, L):
            return None
        return one(st, put(v, 'groups', L(tuple(v.field('groups').items) + tuple(gs))))
    if m in ('with_projection', 'with_limit'):
        return one(st, put(v, m[5:], x))
    return one(st, put(v, 'more', L(tuple(v.field('more').items) + (Tup((C(m), x)),))))


@model('ParquetExecBuilder::new', 'ParquetExecBuilder::new_with_options', 'ParquetExec::builder')
def _peb(e, st, a, c):
    return one(st, rec(BLD, config=e.d(st, a[0]), options=e.deep(st, a[1]) if len(a) > 1 else NONE, predicate=NONE, more=L(())))


@model('ParquetExecBuilder::with_predicate', 'ParquetExecBuilder::with_file_groups', 'ParquetExecBuilder::with_metadata_size_hint', 'ParquetExecBuilder::with_table_parquet_options',
       'ParquetExecBuilder::with_parquet_file_reader_factory', 'ParquetExecBuilder::with_schema_adapter_factory')
def _pebw(e, st, a, c):
    v, x = e.d(st, a[0]), e.deep(st, a[1])
    if not isinstance(v, Adt) or v.path != BLD:
        return None
    m = mname(c)
    if m == 'with_predicate':
        return one(st, put(v, 'predicate', some(x)))
    if m == 'with_table_parquet_options':
        return one(st, put(v, 'options', x))
    if m == 'with_file_groups':
        return one(st, put(v, 'config', put(v.field('config'), 'groups', x)))
    return one(st, put(v, 'more', L(tuple(v.field('more').items) + (Tup((C(m), x)),))))


@model('ParquetExecBuilder::build', 'ParquetExecBuilder::build_arc')
def _pebb(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, v) if isinstance(v, Adt) and v.path == BLD else None


@model('planner::create_physical_expr')
def _phys(e, st, a, c):
    x, sch = e.deep(st, a[0]), e.deep(st, a[1])
    names = fields(sch.args[0]) if isinstance(sch, T) and sch.op == 'dfschema' else None
    for n in columns(x):
        if names is not None and n not in names:
            return one(st, err(T('no column', n)))
    return one(st, ok(T('physical', x, sch)))


def fields(sch):
    if isinstance(sch, T) and sch.op == 'schema' and isinstance(sch.args[0], L):
        return [f.args[0] for f in sch.args[0].items]
    return None


def columns(x):
    """Names of the columns an expression refers to."""
    if isinstance(x, Adt):
        if x.vn == 'Column' and x.path.endswith('::Expr'):
            return [x.fs[0].field('name')]
        return [n for y in x.fs for n in columns(y)]
    return []


@model('DFSchema::try_from')
def _dfs(e, st, a, c):
    return one(st, ok(T('dfschema', e.deep(st, a[0]))))


@model('Runtime::new')
def _rt(e, st, a, c):
    return one(st, ok(T('runtime')))


@model('AsDisplay::as_display')
def _asdisplay(e, st, a, c):
    return one(st, a[0])


def expr_adt(e, ty, var, **fs):
    a = [x for x in e.w.adts.values() if x['d'].endswith('::' + ty) and x['d'].startswith('datafusion')]
    if len(a) != 1:
        return None
    i = [i for i, v in enumerate(a[0]['v']) if var is None or v['n'] == var][0]
    v = a[0]['v'][i]
    ns = [f['n'] for f in v['f']]
    return Adt(a[0]['d'], i, v['n'], tuple(fs['f' + n if n.isdigit() else n] for n in ns), tuple(ns))


def logical(e, op, l, r):
    """l op r as an Expr of DataFusion."""
    return expr_adt(e, 'Expr', 'BinaryExpr', f0=expr_adt(e, 'BinaryExpr', None, left=l, op=expr_adt(e, 'Operator', op) if isinstance(op, str) else op, right=r))


@model('BinaryExpr::new')
def _binnew(e, st, a, c):
    x = expr_adt(e, 'BinaryExpr', None, left=e.deep(st, a[0]), op=e.deep(st, a[1]), right=e.deep(st, a[2]))
    return one(st, x) if x is not None else None


@model('expr_fn::binary_expr')
def _binex(e, st, a, c):
    x = logical(e, e.deep(st, a[1]), e.deep(st, a[0]), e.deep(st, a[2]))
    return one(st, x) if x is not None else None


@model('Expr::eq', 'Expr::not_eq', 'Expr::lt', 'Expr::lt_eq', 'Expr::gt', 'Expr::gt_eq')
def _exprcmp(e, st, a, c):
    if 'PartialEq' in c.k['f'] or 'PartialOrd' in c.k['f']:
        return None
    x = logical(e, {'eq': 'Eq', 'not_eq': 'NotEq', 'lt': 'Lt', 'lt_eq': 'LtEq', 'gt': 'Gt', 'gt_eq': 'GtEq'}[mname(c)], e.deep(st, a[0]), e.deep(st, a[1]))
    return one(st, x) if x is not None else None


@model('expr_fn::not')
def _exprnot(e, st, a, c):
    x = expr_adt(e, 'Expr', 'Not', f0=e.deep(st, a[0]))
    return one(st, x) if x is not None else None


@model('Expr::and', 'Expr::or')
def _and(e, st, a, c):
    x = logical(e, {'and': 'And', 'or': 'Or'}[mname(c)], e.deep(st, a[0]), e.deep(st, a[1]))
    return one(st, x) if x is not None else None


def columns_of(x):
    """The columns of an expression, or None."""
    if isinstance(x, Adt):
        if x.vn == 'Column' and x.path.endswith('Expr'):
            return [x.fs[0]]
        if x.vn == 'Literal' or x.vn == 'ScalarVariable':
            return []
        out = []
        for f in x.fs:
            r = columns_of(f)
            if r is None:
                return None
            out += r
        return out
    if isinstance(x, L):
        rs = [columns_of(y) for y in x.items]
        return None if None in rs else [y for r in rs for y in r]
    if isinstance(x, T):
        return None
    return []


@model('Expr::column_refs')
def _colrefs(e, st, a, c):
    cs = columns_of(e.deep(st, a[0]))
    if cs is None:
        return None
    # columns compare by relation and name; unequal words are not the same column
    out = []
    for x in cs:
        if x not in out:
            out.append(x)
    return one(st, M([(x, UNIT) for x in out], 'HashSet'))


@model('utils::conjunction', 'utils::disjunction')
def _conj(e, st, a, c):
    out = []
    for s, xs in items_of(e, st, a[0]):
        xs = [e.deep(s, x) for x in xs]
        if not xs:
            out.append((s, NONE))
            continue
        x = xs[0]
        for y in xs[1:]:
            x = logical(e, 'And' if mname(c) == 'conjunction' else 'Or', x, y)
        out.append((s, some(x)))
    return out


@model('ConfigOptions::entries')
def _entries(e, st, a, c):
    d = [x for x in e.w.adts.values() if x['d'].endswith('::ConfigEntry')]
    if len(d) != 1 or getattr(e, 'config_entries', None) is None:
        return None
    ns = [f['n'] for f in d[0]['v'][0]['f']]
    return one(st, L([Adt(d[0]['d'], 0, d[0]['v'][0]['n'], tuple({'key': k, 'value': v}.get(n, C('')) for n in ns), tuple(ns)) for k, v in e.config_entries]))
