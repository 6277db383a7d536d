"""Abstract interpretation of TableBuilder::build on table properties: every value class of the version, layout, partition
column, merge, meta field, precombine, name and type options, every option malformed or missing, with and without the skip
option, given in the properties file or by the caller. A build has to succeed exactly on the supported ones. Where a Table is
constructed is looked up in the whole program: each such function has to be part of the build analysed here, or take a table."""
from .tables import *
from ..mir import strip_generics

HIVE_ = 'hoodie.datasource.write.hive_style_partitioning'
GOOD = {'hoodie.table.name': 'n', 'hoodie.table.type': 'COPY_ON_WRITE', 'hoodie.table.version': '6', 'hoodie.timeline.layout.version': '1'}
PROPS = C('.hoodie/hoodie.properties')
SKIP = 'hoodie.internal.skip.config.validation'
BOOLS = ('hoodie.datasource.write.hive_style_partitioning', 'hoodie.datasource.write.partitionpath.urlencode',
         'hoodie.populate.meta.fields', 'hoodie.datasource.write.drop.partition.columns', 'hoodie.read.use.read_optimized.mode')
INTS = ('hoodie.table.checksum', 'hoodie.table.version', 'hoodie.timeline.layout.version')
UINTS = ('hoodie.read.input.partitions', 'hoodie.read.listing.parallelism')
MERGE, META_F, PREC = 'hoodie.table.record.merge.strategy', 'hoodie.populate.meta.fields', 'hoodie.table.precombine.field'


def text_of(d):
    xs = []
    for k, v in d.items():
        xs += [C(k), C('='), C(v) if isinstance(v, str) else v, C('\n')]
    return mk(xs) if xs else C('')


def is_int(s, signed=True):
    import re
    return bool(re.fullmatch(r'[+-]?[0-9]+' if signed else r'[+]?[0-9]+', s)) and abs(int(s)) < 1 << 62


def supported(d):
    """The requirement, for options with known values."""
    if d.get(SKIP) == 'true':
        return True
    for k in BOOLS:
        if k in d and d[k] not in ('true', 'false'):
            return False
    for k in INTS:
        if k in d and not is_int(d[k]):
            return False
    for k in UINTS:
        if k in d and not is_int(d[k], False):
            return False
    if d.get('hoodie.table.type', '').lower() not in ('copy_on_write', 'copy-on-write', 'cow', 'merge_on_read', 'merge-on-read', 'mor'):
        return False
    if 'hoodie.table.name' not in d or int(d.get('hoodie.table.version', '0')) not in (5, 6):
        return False
    if int(d.get('hoodie.timeline.layout.version', '0')) != 1:
        return False
    if d.get('hoodie.datasource.write.drop.partition.columns') == 'true':
        return False
    if d.get('hoodie.table.base.file.format', 'parquet').lower() != 'parquet':
        return False
    if d.get('hoodie.table.timeline.timezone', 'utc').lower() not in ('utc', 'local'):
        return False
    if MERGE in d and d[MERGE].lower() not in ('append_only', 'overwrite_with_latest'):
        return False
    meta = d.get(META_F, 'true') == 'true'
    m = d.get(MERGE, 'append_only' if not meta or PREC not in d else 'overwrite_with_latest').lower()
    if m != 'append_only' and (not meta or PREC not in d):
        return False
    return True


def builder(sc, uri='file:///t', hudi=None, storage=None, options=None):
    return sc.struct('table::builder::TableBuilder', {}, {
        'base_uri': C(uri) if isinstance(uri, str) else uri, 'hudi_options': omap(hudi or {}), 'storage_options': omap(storage or {}),
        'options': omap(options or {})})


def build_scene(w, props, conf_file=None, env=None, cuts=None, **kw):
    def get(p):
        if p == PROPS:
            return text_of(props) if isinstance(props, dict) else props
        return None

    def absolute(en, st, a, c):
        st.event('storage', 'absolute', (en.deep(st, a[1]),), c.line if c else None)
        if conf_file is None:
            return [(st, T('ready', err(T('notfound', en.deep(st, a[1])))))]
        return [(st, T('ready', ok(text_of(conf_file) if isinstance(conf_file, dict) else conf_file)))]
    sc = Scene(w, data=get, files={C('.hoodie'): []}, dirs={C(''): ['.hoodie']}, lenient=True,
               cuts={STG + 'get_file_data_from_absolute_path': absolute, **(cuts or {})}, **kw)
    sc.e.env = env if env is not None else {}
    return sc


def build(w, props, conf_file=None, env=None, uri='file:///t', hudi=None, storage=None, options=None, **kw):
    """Runs TableBuilder::build on a table with these properties (a dict, or the content of the file)."""
    sc = build_scene(w, props, conf_file, env, **kw)
    b = builder(sc, uri, hudi, storage, options)
    st = St()
    cell = sc.e.alloc(st, b)
    return sc, sc.run('table::builder::TableBuilder::build', [Ref(cell)], st)


def check(c):
    w = c.w
    analysed = set()

    def judge(want):
        def j(s, v):
            if want and is_err(v):
                return 'a supported table is refused: %s' % v.fs[0], v
            if not want and is_ok(v):
                return 'an unsupported table is opened', C('table')
            return None
        return j

    def one(rule, key, props, **kw):
        eff = dict(kw.get('options') or {})
        eff.update(kw.get('hudi') or {})
        eff.update(props)
        eff = {k: v for k, v in {**(kw.get('conf_file') or {}), **eff}.items()}

        def run():
            sc, rs = build(w, props, **kw)
            analysed.update(sc.e.analysed)
            return sc.e, rs
        c.outcomes(rule, key, run, judge(supported(eff)))

    def variants(base):
        """(key, options) around a good table."""
        yield 'unchanged', base
        for v in (None, '-1', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '56', 'six', '', '6.0', '05', '+6', '-5', '-6', '15', '16', '21', '22', '37', '38', '55', '66', '69', '70', '105', '106', '133', '134', '255', '261', '262', '517', '1029', '1030', '60', '50',
                  '65541', '65542', '4294967301', '4294967302', '-251', '-250', '-65531'):
            yield 'version %s' % v, {**base, 'hoodie.table.version': v}
        for v in (None, '-1', '0', '1', '2', '3', 'x', '', '10', '11', '17', '33', '65', '129', '257', '65537', '4294967297', '-255'):
            yield 'layout %s' % v, {**base, 'hoodie.timeline.layout.version': v}
        for ver in ('5', '6'):
            for v in (None, '-1', '0', '1', '2', '3', 'x', ''):
                yield 'version %s, layout %s' % (ver, v), {**base, 'hoodie.table.version': ver, 'hoodie.timeline.layout.version': v}
        for k in BOOLS:
            for v in (None, 'true', 'false', 'TRUE', 'yes', ''):
                yield '%s %s' % (k, v), {**base, k: v}
        for k in UINTS + ('hoodie.table.checksum',):
            for v in ('0', '7', '-1', 'x', ''):
                yield '%s %s' % (k, v), {**base, k: v}
        for v in (None, 'COPY_ON_WRITE', 'MERGE_ON_READ', 'mor', 'cow', 'x', ''):
            yield 'type %s' % v, {**base, 'hoodie.table.type': v}
        for k in ('hoodie.table.name', 'hoodie.table.recordkey.fields', 'hoodie.table.partition.fields', 'hoodie.table.keygenerator.class', 'hoodie.database.name'):
            for v in (None, 'x'):
                yield '%s %s' % (k, v), {**base, k: v}
        for v in ('parquet', 'PARQUET', 'orc', 'hfile'):
            yield 'format %s' % v, {**base, 'hoodie.table.base.file.format': v}
        for v in ('utc', 'UTC', 'local', 'Local', 'cet', ''):
            yield 'timezone %s' % v, {**base, 'hoodie.table.timeline.timezone': v}
        for m in (None, 'append_only', 'overwrite_with_latest', 'APPEND_ONLY', 'other'):
            for f in (None, 'true', 'false'):
                for p in (None, 'ts'):
                    yield 'merge %s, meta fields %s, precombine %s' % (m, f, p), {**base, MERGE: m, META_F: f, PREC: p}

        # options that do not decide whether merging is possible
        for k, x in (('hoodie.table.recordkey.fields', 'k'), ('hoodie.table.partition.fields', 'p'), ('hoodie.table.type', 'MERGE_ON_READ'), ('hoodie.table.version', '5'), ('hoodie.table.checksum', '1'),
                     ('hoodie.table.keygenerator.class', 'g'), ('hoodie.read.use.read_optimized.mode', 'true'), ('hoodie.database.name', 'd'), ('hoodie.table.timeline.timezone', 'local'),
                     ('hoodie.datasource.write.precombine.field', 'ts'), ('hoodie.table.base.file.format', 'parquet'), (HIVE_, 'true'), ('hoodie.table.ordering.fields', 'ts')):
            for m, f, p in (('overwrite_with_latest', None, None), ('overwrite_with_latest', 'true', None), ('overwrite_with_latest', 'false', 'ts'), ('overwrite_with_latest', None, 'ts')):
                yield 'merge %s, meta fields %s, precombine %s, %s %s' % (m, f, p, k, x), {**base, MERGE: m, META_F: f, PREC: p, k: x}

    clean = lambda d: {k: v for k, v in d.items() if v is not None}
    for name, d in variants(GOOD):
        one('properties', name, clean(d))
        one('options', name, {}, hudi=clean(d))
        one('options', 'generic, ' + name, {}, options=clean(d))
    for v in ('true', 'false', 'x'):
        for name in ('version 7', 'version six', 'type None', 'layout 2', 'unchanged'):
            d = dict(variants(GOOD))[name]
            one('skip', 'skip %s, %s' % (v, name), clean({**d, SKIP: v}))
    for name, d in variants(GOOD):
        one('skip', 'skip, ' + name, clean({**d, SKIP: 'true'}))
        if c.thorough:
            one('skip', 'no skip, ' + name, clean({**d, SKIP: 'false'}))

    # ---- unknown values: what a build that succeeds knows about them
    D = word('num', S.DIGITS, 1)
    for key, lo, hi in (('hoodie.table.version', 5, 6), ('hoodie.timeline.layout.version', 1, 1)):
        def run():
            sc, rs = build(w, {**GOOD, key: D})
            analysed.update(sc.e.analysed)
            return sc.e, rs

        def j(s, v):
            if not is_ok(v):
                return None
            n = [y for x, y in s.facts.cmp if isinstance(y, T) and derives(y, D)] + [y for x, y in s.facts.cmp if isinstance(x, T) and derives(x, D)]
            ns = {y for p in s.facts.cmp for y in p if isinstance(y, T) and derives(y, D)}
            for y in ns:
                if not (s.facts.get_cmp(y, C(lo)) & LT) and not (s.facts.get_cmp(y, C(hi)) & GT):
                    return None
            return 'opened although %s is not known to be in %d..%d' % (key, lo, hi), C('table')
        c.outcomes('unknown', key, run, j)

    # ---- where handles come from
    OPTS = L([Tup((C('hoodie.table.partition.fields'), C('p'))), Tup((C('aws.x'), C('y')))])
    names = ('table::Table::new', 'table::Table::new_with_options', 'hudi_datafusion::HudiDataSource::new', 'hudi_datafusion::HudiDataSource::new_with_options')
    for nm in names:
        for key, props, want in [('good', GOOD, True)] + [(k, clean(dict(variants(GOOD))[k]), False) for k in (
                'version 7', 'version None', 'layout 2', 'type x', 'hoodie.table.name None', 'hoodie.datasource.write.drop.partition.columns true',
                'merge overwrite_with_latest, meta fields None, precombine None', 'hoodie.read.listing.parallelism x')]:
            def run():
                ty, m = nm.rsplit('::', 1)
                f = c.method(ty.rsplit('::', 1)[-1], m)
                sc = build_scene(w, props)
                args = [C('file:///t')] + ([OPTS] if 'options' in m else [])
                rs = sc.run(f, args)
                analysed.update(sc.e.analysed)
                return sc.e, rs
            c.outcomes('entries', '%s, %s' % (nm.split('::', 1)[-1], key), run, judge(want))

    a = w.adt('table::Table')
    made = []
    for f in w.fns.values():
        for blk in f.body['b']:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and a is not None and strip_generics(s[2][1][1]) == a['d']:
                    made.append(f)
    made = list({f.id: f for f in made}.values())
    for f in made:
        def rule():
            if f.id in analysed:
                return 'part of the build analysed'
            if f.trait and f.trait.endswith('Clone'):
                return 'copies a table'
            if any('table::Table' in f.types[l[0]]['s'] for l in f.body['l'][1:1 + f.body['n']]):
                return 'made from a table'
            c.unreached('constructs a Table outside of the builder', f.loc(f.line))
        c.rule('sites', f.path, rule)
    c.floor('sites', 1)
    c.floor('properties', 60)
    c.floor('options', 120)
    c.floor('entries', 30)
