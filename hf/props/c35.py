"""Abstract interpretation of every option's key, default and interpretation (HudiConfigs::get, get_or_default, try_get, contains,
as_options with HudiTableConfig, HudiReadConfig and HudiInternalConfig), and of what a table reports about itself (name, type,
merge-on-read, time zone, location, options), for options that are absent, given (text of unknown value, every spelling of the
enumerated ones, numbers and flags of all classes) and malformed, alone and among unknown values of all the other options. The
list of options is the documentation's; an option of the program that it does not know is a finding of its own."""
from .tables import *

LOCS = {'file:///data/t': ('file://', '/data/t'), '/data/t': ('file://', '/data/t'), '/data/t/': ('file://', '/data/t/'), 's3://bucket/a': ('s3://bucket', '/a'), 's3a://b/x/y/z': ('s3a://b', '/x/y/z'),
        'abfs://c/t': ('abfs://c', '/t'), 'gs://bucket/a/': ('gs://bucket', '/a/')}

BOOL, INT, UINT, STR, LIST = 'Boolean', 'Integer', 'UInteger', 'String', 'List'
TYPES_ = {'COPY_ON_WRITE': ['COPY_ON_WRITE', 'copy_on_write', 'Copy_On_Write', 'COPY-ON-WRITE', 'cow', 'COW'], 'MERGE_ON_READ': ['MERGE_ON_READ', 'merge_on_read', 'merge-on-read', 'mor', 'MOR', 'MoR']}
ZONES = {'utc': ['utc', 'UTC', 'Utc'], 'local': ['local', 'LOCAL', 'Local']}
MERGES = {'append_only': ['append_only', 'APPEND_ONLY', 'Append_Only'], 'overwrite_with_latest': ['overwrite_with_latest', 'OVERWRITE_WITH_LATEST']}
FORMATS = {'parquet': ['parquet', 'PARQUET', 'Parquet']}
# option -> (enum, variant, kind, default or None, spellings)
SPEC = {
    'hoodie.table.base.file.format': ('HudiTableConfig', 'BaseFileFormat', STR, 'parquet', FORMATS),
    'hoodie.base.path': ('HudiTableConfig', 'BasePath', STR, None, None),
    'hoodie.table.checksum': ('HudiTableConfig', 'Checksum', INT, None, None),
    'hoodie.database.name': ('HudiTableConfig', 'DatabaseName', STR, 'default', None),
    'hoodie.datasource.write.drop.partition.columns': ('HudiTableConfig', 'DropsPartitionFields', BOOL, False, None),
    'hoodie.datasource.write.hive_style_partitioning': ('HudiTableConfig', 'IsHiveStylePartitioning', BOOL, None, None),
    'hoodie.datasource.write.partitionpath.urlencode': ('HudiTableConfig', 'IsPartitionPathUrlencoded', BOOL, None, None),
    'hoodie.table.keygenerator.class': ('HudiTableConfig', 'KeyGeneratorClass', STR, None, None),
    'hoodie.table.partition.fields': ('HudiTableConfig', 'PartitionFields', LIST, [], None),
    'hoodie.table.precombine.field': ('HudiTableConfig', 'PrecombineField', STR, None, None),
    'hoodie.populate.meta.fields': ('HudiTableConfig', 'PopulatesMetaFields', BOOL, True, None),
    'hoodie.table.recordkey.fields': ('HudiTableConfig', 'RecordKeyFields', LIST, None, None),
    'hoodie.table.record.merge.strategy': ('HudiTableConfig', 'RecordMergeStrategy', STR, None, MERGES),
    'hoodie.table.name': ('HudiTableConfig', 'TableName', STR, None, None),
    'hoodie.table.type': ('HudiTableConfig', 'TableType', STR, None, TYPES_),
    'hoodie.table.version': ('HudiTableConfig', 'TableVersion', INT, None, None),
    'hoodie.timeline.layout.version': ('HudiTableConfig', 'TimelineLayoutVersion', INT, None, None),
    'hoodie.table.timeline.timezone': ('HudiTableConfig', 'TimelineTimezone', STR, 'utc', ZONES),
    'hoodie.read.file_group.start_timestamp': ('HudiReadConfig', 'FileGroupStartTimestamp', STR, None, None),
    'hoodie.read.file_group.end_timestamp': ('HudiReadConfig', 'FileGroupEndTimestamp', STR, None, None),
    'hoodie.read.input.partitions': ('HudiReadConfig', 'InputPartitions', UINT, 0, None),
    'hoodie.read.listing.parallelism': ('HudiReadConfig', 'ListingParallelism', UINT, 10, None),
    'hoodie.read.use.read_optimized.mode': ('HudiReadConfig', 'UseReadOptimizedMode', BOOL, False, None),
    'hoodie.internal.skip.config.validation': ('HudiInternalConfig', 'SkipConfigValidation', BOOL, False, None),
}
BAD = {BOOL: ['', 'TRUE', 'True', 'yes', '1', '0', ' true', 'true ', 'tru'], INT: ['', 'x', '1.0', ' 6', '6 ', '0x6', '99999999999999999999', '-', '1e3'],
       UINT: ['', 'x', '-1', '1.0', ' 6', '99999999999999999999', '1_0'], STR: [], LIST: []}
GOOD_ = {BOOL: {'true': True, 'false': False}, INT: {'0': 0, '1': 1, '6': 6, '-3': -3, '007': 7, '+5': 5, '2147483648': 2147483648, '9223372036854775807': 9223372036854775807},
         UINT: {'0': 0, '1': 1, '12': 12, '007': 7, '4294967296': 4294967296}}


def nearly(spell):
    """Texts that are close to a spelling and none."""
    have = {x.lower() for xs in spell.values() for x in xs}
    out = ['', 'x', 'parque', 'parquet ', 'cow2', 'utc+1', 'orc', 'default', 'append-only', 'local time', 'none']
    for x in sorted(have):
        out += [x + 'x', 'x' + x, x[:-1], x[1:], ' ' + x, x + ' ', x + ',' + x, x + x, x.replace('_', ''), x.replace('_', ' '), x.split('_')[0], x.split('_')[-1], x.rsplit('_', 1)[0] + '_x']
    return [x for x in dict.fromkeys(out) if x.lower() not in have]


def check(c):
    w = c.w
    cv = w.adt('HudiConfigValue')
    val = lambda kind, v: next(Adt(cv['d'], i, x['n'], (v,), ('0',)) for i, x in enumerate(cv['v']) if x['n'] == kind)

    def want(kind, v):
        return val(kind, L([C(x) if isinstance(x, str) else x for x in v]) if kind == LIST else C(v) if isinstance(v, (str, bool, int)) else v)

    def parser(enum, variant_):
        a = w.adt(enum)
        need(a is not None, enum)
        for i, x in enumerate(a['v']):
            if x['n'] == variant_:
                return Adt(a['d'], i, x['n'], (), ())
        raise Undecided('no option %s::%s' % (enum, variant_))

    def read(fn, conf, key):
        def run():
            sc = Scene(w, conf=conf)
            enum, vn = SPEC[key][:2]
            return sc.e, sc.run('HudiConfigs::' + fn, [sc.conf, parser(enum, vn)])
        return run

    def expect(exp, fn):
        """exp: a value, or None when there is none."""
        def j(s, v):
            if exp is None:
                if fn == 'get':
                    return None if is_err(v) else ('%s although it is not given' % v, v)
                return None if v == NONE else ('%s although it is not given' % v, v)
            if fn == 'get':
                if is_err(v):
                    return 'refused: %s' % v.fs[0], v
                v = v.fs[0]
            elif fn == 'try_get':
                if v == NONE:
                    return 'ignored', v
                v = v.fs[0]
            return None if v == exp else ('%s instead of %s' % (v, exp), v)
        return j

    MDEF = {True: 'overwrite_with_latest', False: 'append_only'}
    for key, (enum, vn, kind, dflt, spell) in SPEC.items():
        # others: every other option has an unknown text
        texts = {k: word('o%d' % i, S.ALNUM) for i, k in enumerate(SPEC) if k != key and SPEC[k][2] == STR and SPEC[k][4] is None}
        merge = key == 'hoodie.table.record.merge.strategy'
        for env, others in (('alone', {}), ('among others', texts)):
            d = dflt
            # absent
            for fn in ('get', 'try_get') + (('get_or_default',) if d is not None else ()):
                exp = None if fn == 'get' or d is None else want(kind, d)
                c.outcomes('absent', '%s %s, %s' % (fn, key, env), read(fn, others, key), expect(exp, fn))
            if merge:
                exp = want(STR, MDEF['hoodie.table.precombine.field' in others])
                c.outcomes('absent', 'get_or_default %s, %s' % (key, env), read('get_or_default', others, key), expect(exp, 'get_or_default'))
            # given
            X, Y, Z = word('X', S.ALNUM), word('Y', S.ALNUM), word('Z', S.ALNUM)
            given = []
            if spell:
                given = [(a, want(kind, canon)) for canon, xs in spell.items() for a in xs]
            elif kind == STR:
                given = [(x, want(STR, x)) for x in (X, cat(X, ' ', Y), cat(X, ',', Y), cat('/', X), cat(X, '.', Y), 'true', '0', 'None')]
            elif kind == LIST:
                given = [(X, want(LIST, [X])), (cat(X, ',', Y), want(LIST, [X, Y])), (cat(X, ',', Y, ',', Z), want(LIST, [X, Y, Z])), (cat(X, '_', Y), want(LIST, [cat(X, '_', Y)])),
                         ('b,a', want(LIST, ['b', 'a'])), (cat(X, '.', Y, ',a'), want(LIST, [cat(X, '.', Y), 'a']))]
                if vn == 'PartitionFields':
                    given.append(('', want(LIST, [])))
            else:
                given = [(a, want(kind, b)) for a, b in GOOD_[kind].items()]
            for txt, exp in given:
                for fn in ('get', 'try_get', 'get_or_default'):
                    c.outcomes('given', '%s %s=%s, %s' % (fn, key, txt, env), read(fn, {**others, key: txt}, key), expect(exp, fn))
            # malformed
            for txt in (nearly(spell) if spell else BAD[kind]):
                c.outcomes('malformed', 'get %s=%r, %s' % (key, txt, env), read('get', {**others, key: txt}, key), lambda s, v: None if is_err(v) else ('%s is accepted' % v, v))
                # "get value or default value"
                exp = None if d is None else want(kind, d)
                c.outcomes('malformed', 'try_get %s=%r, %s' % (key, txt, env), read('try_get', {**others, key: txt}, key), expect(exp, 'try_get'))
                exp = want(STR, MDEF['hoodie.table.precombine.field' in others]) if merge else exp
                if exp is not None:
                    c.outcomes('malformed', 'get_or_default %s=%r, %s' % (key, txt, env), read('get_or_default', {**others, key: txt}, key), expect(exp, 'get_or_default'))
            for has in (False, True):
                def run():
                    sc = Scene(w, conf={**others, **({key: X} if has else {})})
                    return sc.e, sc.run('HudiConfigs::contains', [sc.conf, parser(enum, vn)])
                c.outcomes('contains', '%s %s, %s' % (key, 'given' if has else 'absent', env), run, lambda s, v: None if v == C(has) else ('contains says %s' % v, v))
        # the key itself
        for what in ('as_ref', 'key'):
            def run():
                sc = Scene(w)
                f = w.method(enum, what, 'AsRef' if what == 'as_ref' else 'ConfigParser') or [x for x in w.fns.values() if x.name == what and 'ConfigParser' in x.path]
                need(len(f) == 1, what)
                return sc.e, sc.run(f[0], [parser(enum, vn)])
            c.outcomes('key', '%s of %s::%s' % (what, enum, vn), run, lambda s, v: None if v == C(key) else ('its key is %s instead of %s' % (v, key), v))

    # options the documentation's list does not have
    for enum in sorted({x[0] for x in SPEC.values()}):
        def go():
            a = w.adt(enum)
            need(a is not None, enum)
            known = {x[1] for x in SPEC.values() if x[0] == enum}
            more = [x['n'] for x in a['v'] if x['n'] not in known]
            if more:
                raise Undecided('options unknown to this check: %s' % ', '.join(more))
            return True
        c.rule('options', enum, go)

    # the merge strategy derives from the other options when it is not given
    for meta in (None, 'true', 'false'):
        for prec in (None, word('P', S.ALNUM)):
            for given in (None, 'append_only', 'overwrite_with_latest'):
                conf = {k: v for k, v in (('hoodie.populate.meta.fields', meta), ('hoodie.table.precombine.field', prec), ('hoodie.table.record.merge.strategy', given)) if v is not None}
                exp = want(STR, given or MDEF[meta != 'false' and prec is not None])
                for more in ({}, {'hoodie.table.recordkey.fields': word('R', S.ALNUM)}, {'hoodie.table.partition.fields': 'p'}, {'hoodie.table.type': 'MERGE_ON_READ'}, {'hoodie.table.type': 'COPY_ON_WRITE'},
                             {'hoodie.table.keygenerator.class': word('G', S.ALNUM)}, {'hoodie.datasource.write.drop.partition.columns': 'false', 'hoodie.table.version': '5'}):
                    c.outcomes('merge-default', 'meta fields %s, precombine field %s, strategy %s%s' % (meta, prec, given, ''.join(', %s=%s' % x for x in more.items())),
                               read('get_or_default', {**conf, **more}, 'hoodie.table.record.merge.strategy'), expect(exp, 'get_or_default'))

    # ---- what a table says about itself
    N = word('N', S.ALNUM)

    def ask(fn, conf, storage=None):
        def run():
            sc = Scene(w, conf=conf)
            st, t = sc.table([])
            t = sc.struct('table::Table', {}, {'hudi_configs': fld(t, 'hudi_configs'), 'timeline': fld(t, 'timeline'), 'file_system_view': fld(t, 'file_system_view'), 'storage_options': omap(storage or {})})
            return sc.e, sc.run('table::Table::' + fn, [t], st)
        return run
    base = {'hoodie.base.path': 'file:///data/t', 'hoodie.table.name': N, 'hoodie.table.type': 'COPY_ON_WRITE', 'hoodie.database.name': word('D', S.ALNUM)}
    same = lambda exp: (lambda s, v: None if v == exp else ('%s instead of %s' % (v, exp), v))
    for n in (N, cat(N, ' ', N), cat('a.', N)):
        c.outcomes('table', 'name %s' % n, ask('table_name', {**base, 'hoodie.table.name': n}), same(n))
    for canon, xs in TYPES_.items():
        for x in xs:
            c.outcomes('table', 'type of %s' % x, ask('table_type', {**base, 'hoodie.table.type': x}), same(C(canon)))
            c.outcomes('table', 'merge-on-read of %s' % x, ask('is_mor', {**base, 'hoodie.table.type': x}), same(C(canon == 'MERGE_ON_READ')))
    for x, canon in [(None, 'utc')] + [(x, k) for k, xs in ZONES.items() for x in xs]:
        c.outcomes('table', 'time zone of %s' % x, ask('timezone', {**base, **({'hoodie.table.timeline.timezone': x} if x else {})}), same(C(canon)))
    for x, (host, p) in LOCS.items():
        c.outcomes('table', 'location %s' % x, ask('base_url', {**base, 'hoodie.base.path': x}),
                   lambda s, v: None if isinstance(v, T) and v.op == 'url' and v.args in ((C(host), C(p)), (C(host), C(p.rstrip('/')))) else ('the location is %s' % v, v))
    more = {**base, 'hoodie.x': word('x', S.ALNUM), 'hoodie.y': word('y', S.ALNUM)}
    stg = {'aws.a': word('a', S.ALNUM), 'aws.b': word('b', S.ALNUM)}

    def whole(exp):
        def j(s, v):
            need(isinstance(v, M), 'options %s' % v)
            got = dict(v.items)
            e = {C(k): C(x) if isinstance(x, str) else x for k, x in exp.items()}
            return None if got == e else ('the options are %s' % v, v)
        return j
    c.outcomes('table', 'options', ask('hudi_options', more, stg), whole(more))
    c.outcomes('table', 'storage options', ask('storage_options', more, stg), whole(stg))
    c.floor('absent', 100)
    c.floor('given', 500)
    c.floor('malformed', 200)
    c.floor('key', 48)
    c.floor('table', 30)
    c.floor('merge-default', 18)
    c.floor('options', 3)
    c.also('c14', 'reader', 'opening')
