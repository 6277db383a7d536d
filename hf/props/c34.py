"""Abstract interpretation of how the metadata of data files reaches the file slices of an answer: every listing query of a table
(file slices and their splits, of the latest state and as of a time, with and without filters) on tables of several partitions,
versions and file groups, among them files of the same name in different partitions, asked once and repeatedly on one handle.
The metadata on each slice has to be that of its own base file, and that of a log file its own. Below, the storage's answers are
compared with the object's and the Parquet footer's facts for files of zero to three row groups, and the data file types are
built from metadata of unknown values."""
from .tables import *
from .c03 import PART, filters
from .c04 import EPOCH
from .c12 import failed
from .c18 import storage, expected


def check(c):
    w = c.w
    t1, t2, t3, T0 = [ts(x) for x in ('t1', 't2', 't3', 'T')]

    def flat(v):
        return [y for x in items(v) for y in (items(x) if not isinstance(x, Adt) else [x])]

    def of_file(m, p, name, full, what):
        """What is wrong with metadata m as that of the file at p."""
        got = {n: fld(m, n) for n in ('name', 'size', 'byte_size', 'num_records', 'fully_populated')}
        need(all(x is not None for x in got.values()), 'metadata %s' % m)
        if got['name'] not in (name, T('basename', p)):
            return '%s has metadata of %s' % (what, got['name'])
        for n in ('size',) + (('byte_size', 'num_records') if full else ()):
            if got[n] != T(n, p):
                return '%s has the %s %s' % (what, n, got[n])
        if got['fully_populated'] != C(full):
            return '%s has metadata marked as %s' % (what, 'complete' if not full else 'incomplete')
        return None

    def judge(optional=False, least=None):
        def j(s, v):
            if is_err(v):
                return 'the query fails: %s' % v.fs[0], v
            xs = flat(unwrap(v))
            if least is not None and len(xs) < least:
                return '%d file slices' % len(xs), v
            for x in xs:
                part, b = fld(x, 'partition_path'), fld(x, 'base_file')
                name = base_fname(b)
                p = path(part, name)
                m = fld(b, 'file_metadata')
                need(isinstance(m, Adt), 'metadata %s' % m)
                if m == NONE:
                    if optional:
                        continue
                    return 'the slice of %s has no metadata' % p, v
                r = of_file(m.fs[0], p, name, not optional, 'the slice of %s' % p)
                if r:
                    return r, v
                for l in items(fld(x, 'log_files')):
                    m = fld(l, 'file_metadata')
                    if m == NONE:
                        continue
                    n = log_fname(l)
                    r = of_file(m.fs[0], path(part, n), n, False, 'the log file %s' % path(part, n))
                    if r:
                        return r, v
            return None
        return j

    def tables():
        """(name, table, slices of the latest state)"""
        sch = schema(*([(n, U8) for n in META_COLS] + [('p', U8), ('v', U8)]))
        mk = lambda gs, cm, parts=True: Tab(w, gs, cm, conf=PART if parts else {}, sch=sch, after=EPOCH)
        g = Group('f').add(t1)
        yield 'one file', mk([g], [(t1, 'Commit', [(g, 0)], [])], False), 1
        g = Group('f').add(t1).add(t2).add(t3)
        yield 'three versions', mk([g], [(t, 'Commit', [(g, i)], []) for i, t in enumerate((t1, t2, t3))], False), 1
        gs = [Group('f%d' % i).add(t1) for i in range(3)]
        yield 'three file groups', mk(gs, [(t1, 'Commit', [(g, 0) for g in gs], [])], False), 3
        g = Group('f').add(t1, logs=2).add(t2, logs=1)
        yield 'log files', mk([g], [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'DeltaCommit', [(g, 1)], [])], False), 1
        g, h = Group('f', 'a').add(t1), Group('h', 'b').add(t2)
        yield 'two partitions', mk([g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(h, 0)], [])]), 2
        g, h = Group('f', 'p=a').add(t1).add(t3), Group('h', 'p=b').add(t2)
        yield 'hive style', Tab(w, [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(h, 0)], []), (t3, 'Commit', [(g, 1)], [])],
                                conf={**PART, 'hoodie.datasource.write.hive_style_partitioning': 'true'}, sch=sch, after=EPOCH), 2
        x = word('x', UUID)
        for ps in (('a', 'b'), ('b', 'a'), ('a', 'b', 'c'), ('a/x', 'a/y'), ('a', 'ab')):
            gs = [Group(x, p).add(t1, n='1') for p in ps]
            for i, q in enumerate(gs):
                q.name = 'x%d' % i
            yield 'the same name in %s' % ', '.join(ps), Tab(w, gs, [(t1, 'Commit', [(q, 0) for q in gs], [])], conf={'hoodie.table.partition.fields': 'p,q' if '/' in ps[0] else 'p'},
                                                            sch=schema(*([(n, U8) for n in META_COLS] + [('p', U8), ('q', U8), ('v', U8)])), after=EPOCH), len(ps)
        gs = [Group(x, p).add(t1, logs=1, n='1') for p in ('a', 'b')]
        for i, q in enumerate(gs):
            q.name = 'y%d' % i
        yield 'the same name with log files in a, b', mk(gs, [(t1, 'DeltaCommit', [(q, 0) for q in gs], [])]), 2
        g, h = Group('f', 'a').add(t1), Group('h', 'a').add(t2)
        yield 'a replaced file group', mk([g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])]), 1

    QUERIES = [('get_file_slices', [L([])]), ('get_file_slices_as_of', [T0, L([])])] + [('get_file_slices_splits', [C(n), L([])]) for n in (1, 2, 3)] + [('get_file_slices_splits_as_of', [C(2), T0, L([])])]
    for i in range(len(list(tables()))):
        name, tab, n = list(tables())[i]
        latest = [q for q in QUERIES if not q[0].endswith('_as_of')]
        for fn, args in QUERIES:
            tab = list(tables())[i][1]
            c.outcomes('slice-metadata', '%s(%s): %s' % (fn, ', '.join(map(str, args[:-1])), name), lambda: (tab.e, tab.call(fn, args)), judge(least=None if fn.endswith('_as_of') else n))
        # what a handle has cached does not change that
        for (f1, a1), (f2, a2) in [(latest[0], latest[0]), (latest[0], latest[2]), (QUERIES[1], latest[0]), (latest[0], QUERIES[1]), (latest[2], latest[1])]:
            tab = list(tables())[i][1]

            def run():
                st, t = tab.start()
                cell = tab.e.alloc(st, t)
                out = []
                for s, v in tab.sc.run('table::Table::' + f1, [Ref(cell)] + a1, st):
                    out += tab.sc.run('table::Table::' + f2, [Ref(cell)] + a2, s)
                return tab.e, out
            c.outcomes('repeated', '%s after %s: %s' % (f2, f1, name), run, judge(least=None if f2.endswith('_as_of') else n))
        # incremental queries need not know the metadata, but it is never another file's
        tab = list(tables())[i][1]
        c.outcomes('incremental', name, lambda: (tab.e, tab.call('get_file_slices_between', [some(EPOCH), NONE])), judge(True, n))
    for op, val, n in (('=', 'a', 1), ('!=', 'a', 1), ('>=', 'a', 2), ('<', 'a', 0)):
        x = word('x', UUID)
        gs = [Group(x, p).add(t1, n='1') for p in ('a', 'b')]
        for i, q in enumerate(gs):
            q.name = 'x%d' % i
        sch = schema(*([(n_, U8) for n_ in META_COLS] + [('p', U8), ('v', U8)]))
        for fn, args in (('get_file_slices', []), ('get_file_slices_splits', [C(2)])):
            tab = Tab(w, gs, [(t1, 'Commit', [(q, 0) for q in gs], [])], conf=PART, sch=sch, after=EPOCH)
            c.outcomes('slice-metadata', '%s where p %s %s' % (fn, op, val), lambda: (tab.e, tab.call(fn, args + [filters(('p', op, val))])), judge(least=n))
            # a query of all partitions after one of some
            tab = Tab(w, gs, [(t1, 'Commit', [(q, 0) for q in gs], [])], conf=PART, sch=sch, after=EPOCH)

            def run():
                st, t = tab.start()
                cell = tab.e.alloc(st, t)
                out = []
                for s, v in tab.sc.run('table::Table::get_file_slices', [Ref(cell), filters(('p', op, val))], st):
                    out += tab.sc.run('table::Table::' + fn, [Ref(cell)] + args + [L([])], s)
                return tab.e, out
            c.outcomes('repeated', '%s of everything after p %s %s' % (fn, op, val), run, judge(least=2))

    # ---- metadata that cannot be read is an error
    for fn, args in QUERIES:
        for parts in (False, True):
            g, h = Group('f', 'a' if parts else '').add(t1), Group('h', 'b' if parts else '').add(t1)
            sch = schema(*([(n_, U8) for n_ in META_COLS] + [('p', U8), ('v', U8)]))
            tab = Tab(w, [g, h], [(t1, 'Commit', [(g, 0), (h, 0)], [])], conf=PART if parts else {}, sch=sch, after=EPOCH, fail=True)
            inner = judge()

            def j(s, v):
                if is_err(v):
                    return None if failed(s) else ('fails: %s' % v.fs[0], v)
                if failed(s) and 'get_file_metadata' in str(failed(s)):
                    return '%s fails unnoticed' % failed(s)[0], v
                return inner(s, v)
            c.outcomes('failures', '%s, %s' % (fn + '(%s)' % ', '.join(map(str, args[:-1])), 'partitions' if parts else 'no partitions'), lambda: (tab.e, tab.call(fn, args)), j, least=2)

    # ---- a slice loads what it does not know, once
    def slice_with(sc, part, m):
        t = ts('t')
        fid = word('f', UUID)
        st, b = sc.one(w.method('BaseFile', 'from_str', 'FromStr')[0], [base_name(fid, t)])
        b = unwrap(b)
        b = Adt(b.path, b.vi, b.vn, [m if n == 'file_metadata' else x for n, x in zip(b.names, b.fs)], b.names)
        st, s = sc.one('FileSlice::new', [b, part], st)
        return st, s, base_fname(b)
    for part in (C(''), C('a'), C('p=x/q=y'), word('part', S.ALNUM)):
        for known in ('nothing', 'name and size', 'everything'):
            for fails in (False, True):
                sc = Scene(w, fail=fails)

                def run():
                    me = sc.file_meta(sc.e, 'own', True)
                    st, s, name = slice_with(sc, part, NONE if known == 'nothing' else some(sc.file_meta(sc.e, T('listed'), known == 'everything')))
                    cell = sc.e.alloc(st, s)
                    out = []
                    for s2, v in sc.run('FileSlice::load_metadata_if_needed', [Ref(cell), sc.struct('storage::Storage', {}, {'base_url': T('url', C('file:///t')), 'object_store': T('os'), 'options': omap({}), 'hudi_configs': sc.conf})], st):
                        out.append((s2, Tup((v, sc.e.deep(s2, sc.e.rd(s2, cell, ())), path(part, name)))))
                    return sc.e, out

                def j(s, v):
                    r, x, p = v.items
                    m = fld(fld(x, 'base_file'), 'file_metadata')
                    if known == 'everything':
                        return None if is_ok(r) and fld(m.fs[0], 'size') in (T('size', T('listed')), T('size', p)) else ('metadata that was there is lost: %s' % m, v)
                    if is_err(r):
                        return None if fails and failed(s) else ('fails: %s' % r, v)
                    if failed(s):
                        return 'a failure of the storage is ignored', v
                    if m == NONE:
                        return 'no metadata was loaded', v
                    return (lambda e: (e, v) if e else None)(of_file(m.fs[0], p, None, True, 'the slice of %s' % p))
                c.outcomes('loading', '%s known, in %s%s' % (known, part, ', storage fails' if fails else ''), run, j)

    # ---- what the storage answers
    P, F = word('P', S.ALNUM), word('F', UUID)
    for rel, name in ((C('f'), C('f')), (C('p/f.parquet'), C('f.parquet')), (cat(P, '/', F), F), (cat('p=', P, '/q=1/', F, '.parquet'), cat(F, '.parquet')), (C('a b/c%20d'), C('c%20d'))):
        for n in range(4):
            def run():
                e, rs = storage(w, C('file:///data/t'))
                e.row_groups = n
                out = []
                for s, v in rs:
                    out += e.run(STG + 'get_file_metadata', [Ref(e.alloc(s, unwrap(v))), rel], s)
                return e, out

            def j(s, v):
                if is_err(v):
                    return 'fails: %s' % v.fs[0], v
                m, at = unwrap(v), expected('/data/t', rel)
                if fld(m, 'name') != name:
                    return 'the name is %s' % fld(m, 'name'), v
                if fld(m, 'size') != T('size', T('objpath', at)):
                    return 'the size is %s' % fld(m, 'size'), v
                if fld(m, 'num_records') != T('num_rows', at):
                    return 'the number of records is %s' % fld(m, 'num_records'), v
                got = terms(fld(m, 'byte_size'))
                if sorted(map(str, got)) != sorted(str(T('total_byte_size', at, C(i))) for i in range(n)):
                    return 'the byte size of %d row groups is %s' % (n, fld(m, 'byte_size')), v
                return None if fld(m, 'fully_populated') == TRUE else ('the metadata is marked as incomplete', v)
            c.outcomes('file-facts', 'get_file_metadata(%s), %d row groups' % (rel, n), run, j)
    for rel in (C(''), C('a'), cat('p=', P)):
        for n in range(4):
            at = expected('/data/t', rel)
            names = [cat('f%d' % i, F) for i in range(n)]

            def run():
                e, rs = storage(w, C('file:///data/t'), {at: ([C('d')], names)})
                out = []
                for s, v in rs:
                    out += e.run(STG + 'list_files', [Ref(e.alloc(s, unwrap(v))), some(rel)], s)
                return e, out

            def j(s, v):
                if is_err(v):
                    return 'fails: %s' % v.fs[0], v
                got = [tuple(fld(x, k) for k in ('name', 'size', 'fully_populated')) for x in items(unwrap(v))]
                want = [(x, T('size', T('objpath', cat(at, '/', x))), FALSE) for x in names]
                return None if sorted(map(str, got)) == sorted(map(str, want)) else ('lists %s instead of %s' % (got, want), v)
            c.outcomes('file-facts', 'list_files(%s) of %d files' % (rel, n), run, j)

    # ---- data files made from metadata
    t = ts('t')
    for ty, name, disp in (('BaseFile', base_name(F, t), base_fname), ('LogFile', cat('.', F, '_', t, '.log.1_0-1-2'), log_fname)):
        for full in (False, True):
            def run():
                sc = Scene(w)
                m = sc.file_meta(sc.e, name, full)
                f = w.method(ty, 'try_from', 'TryFrom')
                need(len(f) == 1, ty)
                return sc.e, sc.run(f[0], [m])

            def j(s, v):
                if is_err(v):
                    return 'refused: %s' % v.fs[0], v
                m = fld(unwrap(v), 'file_metadata')
                if not is_some(m):
                    return 'the metadata is lost', v
                return (lambda e: (e, v) if e else None)(of_file(m.fs[0], name, name, full, 'the file'))
            c.outcomes('from-metadata', '%s, %s' % (ty, 'complete' if full else 'listed'), run, j)
    c.floor('slice-metadata', 70)
    c.floor('repeated', 60)
    c.floor('incremental', 11)
    c.floor('loading', 24)
    c.floor('file-facts', 30)
    c.also('c26', 'plan')
    c.also('c25', 'round-trip')


def terms(v):
    """The summands of a number."""
    if isinstance(v, C):
        return [] if v.v == 0 else [v]
    if isinstance(v, T) and v.op in ('+', 'add', 'sum', 'Add', 'AddUnchecked', 'AddWithOverflow', 'wrapping_add', 'saturating_add'):
        return [y for x in v.args for y in terms(x)]
    return [v]
