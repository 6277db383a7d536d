"""Malformed commit metadata and table options for C13: every query on tables in whose metadata every place is missing or of another
kind, and on tables opened without validation whose options have odd values."""
from .tables import *
from .c16 import BOOLS, INTS, UINTS, GOOD, build
from .c21 import sch_of, PF, reorder
from .c03 import filters
from .m13a import quiet, ODD

KINDS = {'null': None, 'a number': num(C(5)), 'a boolean': jbool(C(True)), 'an empty text': '', 'a text': 'x', 'an odd text': '_é._', 'a list': [], 'a list of numbers': [num(C(5))], 'a list of lists': [[]], 'an object': {},
         'an object of objects': {'x': {}}}
GONE = object()


def parts(d, at=()):
    yield at, d
    for k in (d if isinstance(d, dict) else range(len(d)) if isinstance(d, (list, tuple)) else ()):
        yield from parts(d[k], at + (k,))


def put(d, at, v):
    if not at:
        return v
    k = at[0]
    if isinstance(d, dict):
        return {x: (put(y, at[1:], v) if x == k else y) for x, y in d.items() if not (x == k and len(at) == 1 and v is GONE)}
    return [put(y, at[1:], v) if i == k else y for i, y in enumerate(d) if not (i == k and len(at) == 1 and v is GONE)]


USED = ('partitionToWriteStats', 'partitionToReplaceFileIds', 'operationType', 'extraMetadata', 'fileId', 'path', 'baseFile', 'logFiles', 'schema')


def check(c):
    w = c.w
    t1, t2, t3, T0 = [ts(x) for x in ('t1', 't2', 't3', 'T')]
    after = C('19700101000000000')
    SCH = schema(*[(n, U8) for n in META_COLS + ['ts', 'v']])
    g = Group('f').add(t1)
    m = Group('m').add(t1, logs=2)
    m.blocks = {0: {0: [(t2, 'a')], 1: [(t2, 'b')]}}
    h = Group('h').add(t2)
    tables = [('copy on write', [g], [(t1, 'Commit', [(g, 0)], [])], 0), ('merge on read', [m], [(t1, 'DeltaCommit', [(m, 0, [])], []), (t2, 'DeltaCommit', [(m, 0, [0, 1])], [])], 1),
              ('replacing', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])], 1)]
    Q = [('get_file_slices', [L([])]), ('get_file_slices_between', [some(t1), NONE]), ('get_file_slices_between', [NONE, NONE]), ('read_incremental_records', [t1, some(t2)]), ('get_schema', []), ('get_avro_schema', []), ('get_partition_schema', [])]
    TL = ['get_latest_commit_timestamp', 'get_latest_avro_schema', 'get_latest_schema']
    TLD = ['get_completed_commits', 'get_completed_deltacommits', 'get_completed_replacecommits', 'get_completed_clustering_commits']

    def timeline(tab, fn, args):
        st, t = tab.start()
        tl = fld(t, 'timeline')
        need(tl is not None, 'timeline')
        return tab.e, tab.sc.run('Timeline::' + fn, [tl] + args, st)

    for name, groups, commits, k in tables:
        meta = Tab(w, groups, commits).meta(k)
        file = cat('.hoodie/', commits[k][0], SUFFIX[commits[k][1]])
        for at, d in parts(meta):
            last = next((x for x in reversed(at) if isinstance(x, str)), None)
            if at and last not in USED and not (at[0] == 'partitionToWriteStats' and len(at) < 4 or at[0] == 'partitionToReplaceFileIds'):
                continue
            for kname, v in list(KINDS.items()) + [('missing', GONE)]:
                if v is GONE and not at:
                    continue
                new = put(meta, at, v)

                def tabf():
                    tab = rows_tab(w, groups, commits, sch=SCH, after=after)
                    need(file in tab.sc.data, 'commit file')
                    tab.sc.data[file] = T('json', jval(new))
                    return tab
                key = '%s: %s is %s' % (name, '/'.join(map(str, at)) or 'metadata', kname)
                for fn, args in Q:
                    def run():
                        tab = tabf()
                        return tab.e, tab.call(fn, args)
                    c.outcomes('metadata', '%s: %s' % (key, fn), run, quiet)
                if name == 'replacing':
                    for fn in TL:
                        c.outcomes('metadata', '%s: %s' % (key, fn), lambda: timeline(tabf(), fn, []), quiet)
                    for fn in TLD[2:]:
                        c.outcomes('metadata', '%s: %s' % (key, fn), lambda: timeline(tabf(), fn, [TRUE]), quiet)
        for what, content in (('empty', C('')), ('not json', T('notjson', C('x')))):
            for fn, args in Q:
                def run():
                    tab = rows_tab(w, groups, commits, sch=SCH, after=after)
                    tab.sc.data[file] = content
                    return tab.e, tab.call(fn, args)
                c.outcomes('metadata', '%s: %s: %s' % (name, what, fn), run, quiet)

    # ---- options
    R = Q + [('read_snapshot', [L([])]), ('read_snapshot_as_of', [T0, L([])]), ('get_file_slices_splits', [C(2), L([])]), ('timezone', []), ('hudi_options', []), ('storage_options', []),
             ('create_file_group_reader_with_options', [L([])]), ('get_file_slices', [filters(('a', '=', 'x'))])]
    KEYS = list(BOOLS) + list(INTS) + list(UINTS) + ['hoodie.table.base.file.format', 'hoodie.database.name', 'hoodie.table.keygenerator.class', PF, 'hoodie.table.precombine.field',
            'hoodie.table.recordkey.fields', 'hoodie.table.record.merge.strategy', 'hoodie.table.timeline.timezone', 'hoodie.read.file_group.start_timestamp', 'hoodie.read.file_group.end_timestamp']
    VALUES = [None, '', ' ', '0', '-1', '1', '99999999999999999999', 'true', 'TRUE', 'x', 'é', ',', 'a,', ',a', 'a,a', 'a,é']
    IDLE = [k for k in KEYS if k in INTS or k.split('.')[-1] in ('format', 'name', 'class', 'fields') and k != PF or k.startswith('hoodie.read.input')]
    for key in KEYS:
        for v in VALUES if c.thorough else [None, '', '0', '-1', '99999999999999999999', 'true', 'é', ',a', 'a,a']:
            for fn, args in R:
                if not c.thorough and key in IDLE and fn not in ('get_file_slices', 'read_snapshot', 'get_file_slices_splits'):
                    continue
                if key == PF and fn in ('get_file_slices_between', 'read_incremental_records', 'get_avro_schema', 'timezone', 'hudi_options', 'storage_options'):
                    continue

                def run():
                    tab = rows_tab(w, [m], tables[1][2], conf={key: v, 'hoodie.table.record.merge.strategy': 'append_only', **({key: v} if v is not None else {})}, sch=SCH, after=after)
                    return tab.e, tab.call(fn, args)
                c.outcomes('options', '%s = %r: %s' % (key, v, fn), run, quiet)

    # ---- directories that do not fit the partition fields
    for fields in ('a', 'a,b'):
        for hive in ('true', 'false'):
            for enc in ('true', 'false'):
                for part in ['', 'x', 'a=', '=', '=x', 'a=x', 'a=x=y', 'b=x', 'a=%', 'a=%z', 'a=%zz', 'a=%C3', 'a=%C3%A9', 'é=é', 'a=é', 'x/y', 'a=x/b=y', 'a=x/y', 'x/b=y', 'a=x/b=y/c=z', 'a', 'a=1', 'a=99999999999', '%2F', '%', ' ', 'a= /b= ']:
                    gp = Group('f', C(part)).add(t1)
                    for typ in ('Int32', 'Date32', 'Utf8'):
                        for flt in (filters(), filters(('a', '=', 'x')), filters(('a', '>', '1'), ('b', '!=', ''))):
                            if typ != 'Int32' and not items(flt):
                                continue

                            def run():
                                sch = schema(*([(n, U8) for n in META_COLS + ['ts', 'v']] + [(x, T(typ)) for x in fields.split(',')]))
                                tab = Tab(w, [gp], [(t1, 'Commit', [(gp, 0)], [])], conf={PF: fields, 'hoodie.datasource.write.hive_style_partitioning': hive, 'hoodie.datasource.write.partitionpath.urlencode': enc},
                                          sch=sch, recur=8, after=after)
                                return tab.e, tab.call('get_file_slices', [flt])
                            c.outcomes('partitions', '%r of %s (%s), hive style %s, encoded %s, filters %s' % (part, fields, typ, hive, enc, flt), run, quiet)

    # ---- contents of the properties file
    for txt in ['', '\n', '=', '==', '=x', 'x', 'x=', 'hoodie.table.name', 'hoodie.table.name=', 'hoodie.table.name=\n=\n', '#', '#\n!\n', 'é=é', 'a:b', 'a b', '\0', '\r\n', ' = ', 'hoodie.table.version=6\nhoodie.table.version=7', '\\', 'a=\\\n b',
                'hoodie.table.name=n\nhoodie.table.type=COPY_ON_WRITE\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\n=']:
        def run():
            sc, rs = build(w, C(txt))
            return sc.e, rs
        c.outcomes('properties', '%r' % txt, run, quiet)

        def run():
            sc, rs = build(w, GOOD, conf_file=C(txt), env={'HUDI_CONF_DIR': C('/c')})
            return sc.e, rs
        c.outcomes('properties', 'global %r' % txt, run, quiet)
    for key in KEYS + ['hoodie.table.name', 'hoodie.table.type', 'hoodie.base.path', 'hoodie.internal.skip.config.validation']:
        for v in VALUES[1:]:
            for skip in (False, True):
                def run():
                    sc, rs = build(w, {**GOOD, key: v}, hudi={'hoodie.internal.skip.config.validation': 'true'} if skip else None)
                    return sc.e, rs
                c.outcomes('properties', '%s = %r%s' % (key, v, ', not validated' if skip else ''), run, quiet)
