"""Abstract interpretation of Table::get_schema, get_avro_schema and get_partition_schema (and the timeline's own accessors)
on tables whose data files all have different schemas: histories of up to three commits of every action, with base and log
files, several partitions and write stats of several shapes. The schema reported has to be that of a base file that the last
completed commit wrote, unchanged; the Avro schema the text its metadata carries; the partition schema the configured fields
in their order, with the types they have in that schema. Where the metadata does not say, the answer is an error."""
from .tables import *
from .c04 import EPOCH

PF = 'hoodie.table.partition.fields'


def sch_of(p):
    """The schema of a data file: the types and the other columns are its own."""
    return schema(*([(n, U8) for n in META_COLS] + [('p', T('type', C('p'), p)), ('q', T('type', C('q'), p)), ('r.s', T('type', C('r'), p)), ('v', T('type', C('v'), p))]))


def check(c):
    w = c.w
    t1, t2, t3 = [ts(x) for x in ('t1', 't2', 't3')]
    ORDER = [(t1, t2), (t2, t3)]

    def histories():
        """(name, groups, commits, base files of the last commit)"""
        for act in ('Commit', 'DeltaCommit', 'ReplaceCommit'):
            for part in (C(''), C('a'), C('p=x/q=y'), word('part', S.ALNUM), C('with blank'), C('p=%20')):
                g = Group('f', part).add(t1)
                yield '%s into %s' % (act, part), [g], [(t1, act, [(g, 0)], [])], [path(part, g.base(0))]
                g = Group('f', part).add(t1).add(t2).add(t3)
                yield 'three times %s into %s' % (act, part), [g], [(t, act, [(g, i)], []) for i, t in enumerate((t1, t2, t3))], [path(part, g.base(2))]
        for part in (C(''), C('a'), C('p=x/q=y'), word('part', S.ALNUM)):
            g = Group('f', part).add(t1, logs=1)
            yield 'deltacommit of a log file in %s' % part, [g], [(t1, 'Commit', [], []), (t2, 'DeltaCommit', [(g, 0)], [])], [path(part, g.base(0))]
            g = Group('f', part).add(t1, logs=2)
            h = Group('h', part).add(t2)
            yield 'commit after a deltacommit in %s' % part, [g, h], [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'Commit', [(h, 0)], [])], [path(part, h.base(0))]
            g = Group('f', part).add(t1, logs=1).add(t2)
            yield 'compaction in %s' % part, [g], [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'Commit', [(g, 1)], [])], [path(part, g.base(1))]
            g = Group('f', part).add(t1)
            h = Group('h', part).add(t2)
            yield 'replacecommit in %s' % part, [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])], [path(part, h.base(0))]
        g, h, i = Group('f', 'a').add(t1), Group('h', 'b').add(t1).add(t2), Group('i', 'a').add(t2)
        yield 'several partitions', [g, h, i], [(t1, 'Commit', [(g, 0), (h, 0)], []), (t2, 'Commit', [(h, 1), (i, 0)], [])], [path(C('b'), h.base(1)), path(C('a'), i.base(0))]
        g, h = Group('g', 'a').add(t1, logs=1), Group('h', 'b').add(t1, logs=2)
        yield 'log files in several partitions', [g, h], [(t1, 'Commit', [], []), (t2, 'DeltaCommit', [(g, 0), (h, 0)], [])], [path(C('a'), g.base(0)), path(C('b'), h.base(0))]
        g, h, i = Group('g', 'a').add(t1, logs=1), Group('h', 'b').add(t2), Group('i', 'c').add(t1, logs=1)
        yield 'log and base files in several partitions', [g, h, i], [(t1, 'Commit', [], []), (t2, 'DeltaCommit', [(g, 0), (h, 0), (i, 0)], [])], [path(C('a'), g.base(0)), path(C('b'), h.base(0)), path(C('c'), i.base(0))]
        # instants of seconds and milliseconds
        s1, s2 = ts('s1', 14), ts('s2', 14)
        for n, a, b in (('seconds', s1, s2), ('seconds, then milliseconds', s1, t2), ('milliseconds, then seconds', t1, s2)):
            g, h = Group('f').add(a), Group('h').add(b)
            yield n, [g, h], [(a, 'Commit', [(g, 0)], []), (b, 'Commit', [(h, 0)], [])], [h.base(0)]
        g, h = Group('f').add(t1), Group('h').add(t2)
        yield 'several files', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(g, 0), (h, 0)], [])], [g.base(0), h.base(0)]

    def mk(gs, cm, conf=None, shape=None, avro=None, files=None):
        tab = Tab(w, gs, cm, conf=conf, file_schema=lambda p: sch_of(p) if files is None or p in files else None)
        if shape is not None or avro is not None:
            i = len(cm) - 1
            d = tab.meta(i)
            if shape is not None:
                shape(d)
            if avro is not None:
                avro(d)
            tab.sc.data[cat('.hoodie/', cm[i][0], SUFFIX[cm[i][1]])] = T('json', jval(d))
        return tab

    def begin(tab):
        st, t = tab.start()
        return st, t

    def call(tab, fn, of='Table'):
        st, t = begin(tab)
        if of == 'Timeline':
            return tab.sc.run('timeline::Timeline::' + fn, [fld(t, 'timeline')], st)
        return tab.sc.run('table::Table::' + fn, [t], st)

    def judge(want, may_fail=False):
        def j(s, v):
            if is_err(v):
                return None if may_fail else ('the schema of a well-formed table is refused: %s' % v.fs[0], v)
            got = unwrap(v)
            if not any(got == sch_of(p) for p in want):
                return 'the schema is %s instead of that of %s' % (got, ' or '.join(map(str, want)) or 'nothing'), v
            return None
        return j

    # ---- Arrow schema
    for name, gs, cm, want in histories():
        for of, fn in (('Table', 'get_schema'), ('Timeline', 'get_latest_schema')):
            tab = mk(gs, cm)
            c.outcomes('latest-schema', '%s: %s' % (fn, name), lambda: (tab.e, call(tab, fn, of)), judge(want))

    # ---- instants that have not completed, and other actions, say nothing
    for name, more in (('a requested commit', ['.commit.requested']), ('an inflight commit', ['.inflight', '.commit.requested']), ('a deltacommit in flight', ['.deltacommit.inflight']),
                       ('a clean', ['.clean']), ('a rollback', ['.rollback']), ('a savepoint', ['.savepoint']), ('a compaction request', ['.compaction.requested'])):
        g, h = Group('f').add(t1), Group('h').add(t2)
        for fn in ('get_schema', 'get_avro_schema'):
            tab = mk([g, h], [(t1, 'Commit', [(g, 0)], [])])
            d = Tab(w, [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(h, 0)], [])]).meta(1)

            def run():
                tab.sc.files[C('.hoodie')] = [cat(t1, '.commit')] + [cat(t2, x) for x in more]
                for x in more:
                    tab.sc.data[cat('.hoodie/', t2, x)] = T('json', jval(d))
                st = tab.sc.order(St(), t1, '<', t2)
                for t in (t1, t2):
                    st.facts.set_cmp(EPOCH, t, LT)
                rs = tab.sc.run('Timeline::new_from_storage', [tab.sc.conf, omap({})], st)
                need(len(rs) == 1 and is_ok(tab.e.deep(rs[0][0], rs[0][1])), '%d timelines' % len(rs))
                st, tl = rs[0][0], tab.e.deep(rs[0][0], rs[0][1]).fs[0]
                st, fv = tab.sc.fsview(st)
                t = tab.sc.struct('table::Table', {'HudiConfigs': tab.sc.conf, 'HashMap<': omap({}), 'timeline::Timeline': tl, 'FileSystemView': fv})
                return tab.e, tab.sc.run('table::Table::' + fn, [t], st)
            c.outcomes('not-completed', '%s: %s' % (fn, name), run,
                       judge([g.base(0)]) if fn == 'get_schema' else lambda s, v: None if v == ok(T('sym', 'schema 0')) else ('the Avro schema is %s instead of that of the completed commit' % v, v))

    # ---- metadata of other shapes: the schema of the commit's own file, or an error
    def shaped(f):
        def g(d):
            ws = d['partitionToWriteStats']
            f(d, ws)
        return g

    def stat(f):
        def g(d, ws):
            for k in list(ws):
                ws[k] = [f(dict(x)) for x in ws[k]]
        return shaped(g)

    def without(x, *ks):
        return {k: v for k, v in x.items() if k not in ks}
    old = Group('o').add(t1)
    SHAPES = {
        'no write stats': shaped(lambda d, ws: ws.clear()),
        'no map of write stats': shaped(lambda d, ws: d.pop('partitionToWriteStats')),
        'null instead of write stats': shaped(lambda d, ws: d.update(partitionToWriteStats=None)),
        'a partition without stats': shaped(lambda d, ws: ws.update({k: [] for k in ws})),
        'no path': stat(lambda x: without(x, 'path')),
        'no path or base file': stat(lambda x: without(x, 'path', 'baseFile')),
        'null path': stat(lambda x: {**x, 'path': None}),
        'empty path': stat(lambda x: {**x, 'path': ''}),
        'no base file': stat(lambda x: without(x, 'baseFile')),
        'null base file': stat(lambda x: {**x, 'baseFile': None}),
        'empty base file': stat(lambda x: {**x, 'baseFile': ''}),
    }
    for sh, f in SHAPES.items():
        for log in (False, True):
            g = Group('f', 'a').add(t1, logs=1 if log else 0)
            cm = [(t1, 'Commit', [(old, 0)], []), (t2, 'DeltaCommit' if log else 'Commit', [(g, 0)], [])]
            mine = [path(C('a'), g.base(0))]
            tab = mk([old, g], cm, shape=f, files=mine + [old.base(0)])
            c.outcomes('other-shapes', '%s, %s file' % (sh, 'log' if log else 'base'), lambda: (tab.e, call(tab, 'get_schema')), judge(mine, True))
    # an unreadable file is an error
    for log in (False, True):
        g = Group('f', 'a').add(t1, logs=1 if log else 0)
        tab = mk([old, g], [(t1, 'Commit', [(old, 0)], []), (t2, 'DeltaCommit' if log else 'Commit', [(g, 0)], [])], files=[old.base(0)])
        c.outcomes('other-shapes', 'file missing, %s file' % ('log' if log else 'base'), lambda: (tab.e, call(tab, 'get_schema')), lambda s, v: None if is_err(v) else ('a schema although the file is missing: %s' % v, v))

    # ---- Avro schema
    for name, gs, cm, want in histories():
        for of, fn in (('Table', 'get_avro_schema'), ('Timeline', 'get_latest_avro_schema')):
            tab = mk(gs, cm)
            exp = ok(T('sym', 'schema %d' % (len(cm) - 1)))
            c.outcomes('avro', '%s: %s' % (fn, name), lambda: (tab.e, call(tab, fn, of)), lambda s, v: None if v == exp else ('the Avro schema is %s instead of that of the last commit' % v, v))
    txt = word('avrotext', S.ALNUM)
    for name, f, exp in (('other text', lambda d: d['extraMetadata'].update(schema=txt), txt), ('empty text', lambda d: d['extraMetadata'].update(schema=''), C('')),
                         ('no schema', lambda d: d['extraMetadata'].pop('schema'), None), ('null schema', lambda d: d['extraMetadata'].update(schema=None), None),
                         ('number', lambda d: d['extraMetadata'].update(schema=num(C(1))), None), ('object', lambda d: d['extraMetadata'].update(schema={'a': txt}), None),
                         ('no extra metadata', lambda d: d.pop('extraMetadata'), None), ('null extra metadata', lambda d: d.update(extraMetadata=None), None),
                         ('schema elsewhere', lambda d: (d['extraMetadata'].pop('schema'), d.update(schema=txt)), None)):
        g = Group('f', 'a').add(t1).add(t2)
        tab = mk([g], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(g, 1)], [])], avro=f)
        c.outcomes('avro', name, lambda: (tab.e, call(tab, 'get_avro_schema')),
                   lambda s, v: (None if is_err(v) else ('an Avro schema although the last commit has none: %s' % v, v)) if exp is None else (None if v == ok(exp) else ('the Avro schema is %s instead of %s' % (v, exp), v)))
    for of, fn in (('Table', 'get_schema'), ('Timeline', 'get_latest_schema'), ('Table', 'get_avro_schema'), ('Timeline', 'get_latest_avro_schema')):
        tab = Tab(w, [], [], file_schema=sch_of)
        c.outcomes('empty', fn, lambda: (tab.e, call(tab, fn, of)), lambda s, v: None if is_err(v) else ('a table without commits has the schema %s' % v, v))

    # ---- partition schema
    for conf, names in ((None, []), ('', []), ('p', ['p']), ('q', ['q']), ('p,q', ['p', 'q']), ('q,p', ['q', 'p']), ('v,p,q', ['v', 'p', 'q']), ('q,v,p', ['q', 'v', 'p']), ('r.s', ['r.s']),
                        ('r.s,p', ['r.s', 'p']), ('_hoodie_partition_path', ['_hoodie_partition_path'])):
        g, h = Group('f', 'a').add(t1), Group('f', 'a').add(t1).add(t2)
        for gs, cm, last in (([g], [(t1, 'Commit', [(g, 0)], [])], g.base(0)), ([h], [(t1, 'Commit', [(h, 0)], []), (t2, 'Commit', [(h, 1)], [])], h.base(1))):
            tab = mk(gs, cm, conf={} if conf is None else {PF: conf})
            src = {f.args[0]: f for f in sch_of(path(C('a'), last)).args[0].items}
            exp = [src[C(n)] for n in names]

            def j(s, v):
                if is_err(v):
                    return 'the partition schema is refused: %s' % v.fs[0], v
                x = unwrap(v)
                need(isinstance(x, T) and x.op == 'schema', 'schema %s' % x)
                got = items(x.args[0])
                return None if got == exp else ('the partition schema is %s instead of %s' % (got, exp), v)
            c.outcomes('partition-schema', '%s, %d commits' % (conf, len(cm)), lambda: (tab.e, call(tab, 'get_partition_schema')), j)
    c.floor('latest-schema', 100)
    c.floor('avro', 110)
    c.floor('other-shapes', 22)
    c.floor('partition-schema', 20)
    c.floor('not-completed', 14)
