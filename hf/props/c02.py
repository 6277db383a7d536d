"""Abstract interpretation of time-travel queries (Table::get_file_slices_as_of, get_file_slices_splits_as_of,
read_snapshot_as_of, FileGroup::get_file_slice_as_of, FileGroupReader with an end timestamp) on tables of up to two file
groups, three versions each, with log blocks. All times are unknown; the analysis splits on every comparison the code
makes, and on each resulting path, for every order of the times that path admits, the file slices (and rows) have to be
those of the greatest base commit at or before T, and log blocks written at or before T."""
from .tables import *


def check(c):
    w = c.w
    T0 = ts('T')
    t1, t2, t3, u1, u2 = [ts(x) for x in ('t1', 't2', 't3', 'u1', 'u2')]
    every = [t1, t2, t3]

    def table(groups, extra=()):
        seen = []
        for g in groups:
            for i, (t, b, ls) in enumerate(g.versions):
                seen.append((t, 'DeltaCommit' if ls else 'Commit', [(g, i)], []))
        return Tab(w, groups, seen + list(extra))

    ENTRIES = [('get_file_slices_as_of', lambda: [T0, L([])], None),
               ('get_file_slices_splits_as_of', lambda: [C(1), T0, L([])], lambda v: [y for x in items(v) for y in items(x)]),
               ('get_file_slices_splits_as_of', lambda: [C(2), T0, L([])], lambda v: [y for x in items(v) for y in items(x)])]
    for fn, args, flat in ENTRIES:
        k = '%s(%s)' % (fn, ', '.join(str(a) for a in args()))
        for n in (1, 2, 3):
            for rev in ((False, True) if n > 1 else (False,)):
                g = Group('f')
                ts_ = every[:n]
                for t in (reversed(ts_) if rev else ts_):
                    g.add(t)
                tab = table([g])
                if rev:
                    tab.commits.sort(key=lambda x: ts_.index(x[0]))
                c.outcomes('slice-choice', '%s: %d versions%s' % (k, n, ' listed in reverse' if rev else ''), lambda: (tab.e, tab.call(fn, args())),
                           judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pairs(ts_ + [T0]), flat), least=n + 1)
        # the data file's own time decides, whatever the timeline says about it
        g, h = Group('f').add(t1).add(t3), Group('h').add(t2)
        tab = table([g, h])
        tab.commits.sort(key=lambda x: every.index(x[0]))
        c.outcomes('slice-choice', k + ': two file groups', lambda: (tab.e, tab.call(fn, args())),
                   judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pairs(every + [T0]), flat), least=4)
        g = Group('f').add(t1, logs=2).add(t2, logs=1)
        tab = table([g])
        c.outcomes('slice-choice', k + ': versions with log files', lambda: (tab.e, tab.call(fn, args())),
                   judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pairs([t1, t2, T0]), flat), least=3)

    # the file group's own accessors
    for fn in ('get_file_slice_as_of', 'get_file_slice_mut_as_of'):
        for n in (0, 1, 2, 3):
            def run():
                tab = Tab(w, [], [])
                st = St()
                for a, b in zip(every[:n], every[1:n]):
                    st = tab.sc.order(st, a, '<', b)
                st, fg = tab.sc.one('FileGroup::new', [word('f', UUID), C('')], st)
                for t in every[:n]:
                    f = tab.e.alloc(st, fg)
                    rs = tab.sc.run('FileGroup::add_base_file_from_name', [Ref(f), base_name(word('f', UUID), t)], st)
                    rs = [x for x in rs if is_ok(x[1])]
                    need(len(rs) == 1, 'add_base_file_from_name')
                    st = rs[0][0]
                    fg = tab.e.deep(st, tab.e.rd(st, f, ()))
                cell = tab.e.alloc(st, fg)
                return tab.e, tab.sc.run('FileGroup::' + fn, [Ref(cell), T0], st)

            def j(s, v):
                for x in completions(s, pairs(every[:n] + [T0])):
                    want = [t for t in every[:n] if leq(x, t, T0)]
                    if not want:
                        if v != NONE:
                            return 'a file slice although all are later than T', v
                        continue
                    if v == NONE:
                        return 'no file slice although %s <= T' % want[-1], v
                    if slice_id(unwrap(v))[1] != want[-1]:
                        return 'file slice at %s instead of %s' % (slice_id(unwrap(v))[1], want[-1]), v
                return None
            c.outcomes('group-accessor', '%s of %d slices' % (fn, n), run, j, least=n + 1)

    # log blocks of the chosen slice: written at or before T only
    row = lambda i, ct, key: [ct, word('s%s' % i, S.ALNUM), key, C(''), C('file'), word('p%s' % i, S.ALNUM), C('row %s' % i)]
    K = [word('K%d' % i, S.ALNUM) for i in range(4)]
    for nlogs in (1, 2):
        for nblocks in (1, 2):
            g = Group('f').add(t1, logs=nlogs)
            blocks, logs = [], {}
            for li in range(nlogs):
                chunks = []
                for bi in range(nblocks):
                    b = ts('b%d%d' % (li, bi))
                    n = len(blocks)
                    key = K[n] if n < 4 else word('K%d' % n, S.ALNUM)
                    blocks.append((b, key, n + 1))
                    chunks += log_block(b, [batch(schema(*[(x, U8) for x in META_COLS + ['ts', 'v']]), [row(n + 1, b, key)])])
                logs[g.logs(0)[li]] = chunks
            tab = Tab(w, [g], [(t1, 'DeltaCommit', [(g, 0)], [])], rows={g.base(0): [row(0, t1, word('K', S.ALNUM))]}, logs=logs,
                      conf={'hoodie.table.record.merge.strategy': 'append_only'})

            def j(s, v):
                if is_err(v):
                    return 'the read fails: %s' % v.fs[0], v
                got = [r for b in items(unwrap(v)) for r in (rows_of(b) or need(False, 'rows of %s' % b))]
                got = [r[-1] for r in got]
                for x in completions(s, pairs([t1, T0]) + [(b, T0) for b, _, _ in blocks]):
                    want = [C('row 0')] if leq(x, t1, T0) else []
                    want += [C('row %d' % n) for b, _, n in blocks if leq(x, b, T0)] if want else []
                    if sorted(map(str, got)) != sorted(map(str, want)):
                        return 'rows %s instead of %s where %s' % (got, want, describe(x, [t1, T0] + [b for b, _, _ in blocks])), v
                return None
            c.outcomes('log-cut', '%d log files of %d blocks' % (nlogs, nblocks), lambda: (tab.e, tab.call('read_snapshot_as_of', [T0, L([])])), j, least=3)
    # times of both precisions in one table
    secs, ms = '20240102030405', '20240102030405500'
    for key, files, when, want in (
            ('a later second', ['20240102030404', ms], '20240102030406', 1), ('an earlier second', [secs, '20240102030406500'], '20240102030405900', 0),
            ('milliseconds read with seconds', ['20240101000000123', '20240103000000000'], '20240102000000', 0), ('seconds read with milliseconds', ['20240101000000', '20240103000000'], '20240102000000999', 0),
            ('all later', ['20240103000000123', '20240104000000'], '20240102000000', None), ('three versions', ['20240101000000', '20240102000000001', '20240103000000'], '20240102235959', 1)):
        for fn, args, flat in ENTRIES[:2]:
            g = Group('f')
            for i, f in enumerate(files):
                g.add(C(f), n='%d' % i)
            tab = table([g])
            a = [C(when) if x == T0 else x for x in args()]
            c.outcomes('mixed-precision', '%s: %s' % (fn, key), lambda: (tab.e, tab.call(fn, a)), judge_slices(tab, lambda s: [(g, want)] if want is not None else [], [], flat))
    c.floor('mixed-precision', 12)
    c.floor('slice-choice', 21)
    c.floor('group-accessor', 8)
    c.floor('log-cut', 4)
    c.also('c04', 'as-of')
    c.also('c27', 'queries')
    c.also('c30', 'table')
    c.also('c21', 'listing')
