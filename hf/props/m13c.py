"""Records that do not have the columns and types Hudi tables have, for C13: file slices and tables whose base files and log blocks
lack the meta and precombine columns, have them with other types, hold no rows or disagree in their schemas; blocks that are cut or
repeat parts; splits of any number of slices in any number of parts."""
from .tables import *
from .c09 import slice_of, reader, STRAT, PREC, POP
from .c03 import filters
from .m13a import quiet

TYPES = ('Int32', 'Int64', 'LargeUtf8', 'Boolean', 'Date32', 'Float64', 'Binary', 'Null')


def check(c):
    w = c.w
    X, Y = ts('X'), ts('Y')
    t0, fid = ts('t0'), word('f', UUID)
    base, lg = base_name(fid, t0), [log_name(fid, t0, i + 1, 'l%d' % i) for i in range(2)]
    cols = META_COLS + ['ts', 'v']

    def schemas():
        yield 'as usual', cols, {}
        for n in META_COLS[:3] + ['ts']:
            yield 'without %s' % n, [x for x in cols if x != n], {}
            yield '%s last' % n, [x for x in cols if x != n] + [n], {}
            yield '%s twice' % n, cols + [n], {}
            for ty in TYPES:
                yield '%s of type %s' % (n, ty), cols, {n: ty}
        for n in META_COLS[:3] + ['ts', 'v']:
            yield '%s null' % n, cols, {n: None}
        yield 'no columns', [], {}
        yield 'without meta columns', ['ts', 'v'], {}

    def sch(names, types):
        return schema(*[(n, T(types.get(n) or 'Utf8')) for n in names])

    def rowof(i, names, types):
        r = dict(zip(cols, row(i, X, C('K' + str(i)[-1]), C('p%s' % i), C('s%s' % i))))
        return [(C(5) if types[n] else T('null')) if n in types else r.get(n, C('x')) for n in names]

    confs = [('append only', {STRAT: 'append_only'}), ('overwrite', {STRAT: 'overwrite_with_latest', PREC: 'ts'}), ('no precombine', {STRAT: 'overwrite_with_latest', PREC: None}), ('default', {}), ('no meta fields', {POP: 'false', PREC: 'ts'}),
             ('precombine absent', {PREC: 'nothere'})]
    ranges = [('', {}), ('between', {'hoodie.read.file_group.start_timestamp': X, 'hoodie.read.file_group.end_timestamp': Y})]
    for sname, names, types in schemas():
        for cname, conf in confs:
            for rname, rg in ranges:
                for nrows in (0, 2):
                    for place in ('base', 'log', 'both'):
                        if not c.thorough and (rname and place != 'both' and sname != 'as usual' or nrows == 0 and (place != 'both' or rname)):
                            continue

                        def run():
                            cf = {k: v for k, v in {**conf, **rg}.items() if v is not None}
                            odd = lambda i: batch(sch(names, types), [rowof('%s%d' % (i, k), names, types) for k in range(nrows)])
                            good = lambda i: batch(sch(cols, {}), [rowof('%s%d' % (i, k), cols, {}) for k in range(nrows)])
                            sc = Scene(w, conf=cf, parquet={base: (good if place == 'log' else odd)('b')}, logs={lg[0]: log_block(X, [(good if place == 'base' else odd)('l')])})
                            st, fs = slice_of(sc, base, lg[:1])
                            st.facts.set_cmp(X, Y, LT)
                            return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
                        c.outcomes('records', '%s in %s, %s, %d rows%s' % (sname, place, cname, nrows, ' ' + rname), run, quiet)

                def run():
                    cf = {k: v for k, v in {**conf, **rg}.items() if v is not None}
                    sc = Scene(w, conf=cf, parquet={base: batch(sch(names, types), [rowof(1, names, types)])})
                    return sc.e, sc.run('FileGroupReader::read_file_slice_by_base_file_path', [reader(sc), base])
                c.outcomes('records', '%s by path, %s %s' % (sname, cname, rname), run, quiet)

    # ---- batches straight to the merger
    m = c.method('RecordMerger', 'merge_record_batches')
    for sname, names, types in schemas():
        for cname, conf in confs:
            for bs in ([], [0], [0, 0], [1, 0], [2, 1]):
                def run():
                    sc = Scene(w, conf={k: v for k, v in conf.items() if v is not None})
                    rm = sc.struct('RecordMerger', {'HudiConfigs': sc.conf})
                    s_ = sch(names, types)
                    bb = [batch(s_, [rowof('%d.%d' % (i, k), names, types) for k in range(n)]) for i, n in enumerate(bs)]
                    return sc.e, sc.run(m, [rm, s_, L(bb)])
                c.outcomes('merge', '%s, %s, batches of %s' % (sname, cname, bs), run, quiet)

    # ---- blocks
    D = lambda i, *b, **k: log_block(i, list(b), **k)
    good = batch(FULL, [row('x', X)])
    shapes = {'no block': [], 'empty block': D(X), 'no instant': D(None, good), 'two blocks': D(X, good) + D(Y, good)}
    for kind in ('Command', 'Delete', 'Corrupted', 'AvroData', 'HfileData', 'ParquetData', 'CdcData', 99, 255):
        for head in ({}, {'TargetInstantTime': X}, {'CommandBlockType': '0'}, {'CommandBlockType': 'é', 'TargetInstantTime': 'é'}, {'Schema': 'x'}, {'Schema': '{}'}, {'Schema': ''}):
            for ver in (0, 1, 2, 3):
                shapes['%s %s version %d' % (kind, head, ver)] = None, kind, head, ver
    for key, sh in shapes.items():
        for rname, rg in ranges:
            def run():
                ch = sh
                if isinstance(sh, tuple):
                    ch = D(X, good, kind=sh[1], version=sh[3], head=sh[2], **({'clen': C(0)} if sh[1] == 'Command' else {}))
                cf = {STRAT: 'append_only', **rg}
                sc = Scene(w, conf=cf, parquet={base: batch(FULL, [row('b', X)])}, logs={lg[0]: ch})
                st, fs = slice_of(sc, base, lg[:1])
                st.facts.set_cmp(X, Y, LT)
                return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
            c.outcomes('blocks', '%s %s' % (key, rname), run, quiet)

    # ---- splits
    for n in (0, 1, 2, 3, 7, 1 << 32, (1 << 63)):
        for k in (0, 1, 2, 3):
            gs = [Group('g%d' % i).add(X) for i in range(k)]
            for fn, args in (('get_file_slices_splits', [C(n), L([])]), ('get_file_slices_splits_as_of', [C(n), Y, L([])])):
                def run():
                    tab = rows_tab(w, gs, [(X, 'Commit', [(g, 0) for g in gs], [])])
                    return tab.e, tab.call(fn, args)
                c.outcomes('splits', '%s(%d) of %d slices' % (fn, n, k), run, quiet)
