"""Abstract interpretation of every read (get_file_slices*, splits, read_snapshot*, get_file_slices_between,
read_incremental_records) on tables with one or two replacecommits whose time relative to the read is left open. On every
path and for every order of the times, a file group listed as replaced by a completed replacecommit at or before the read
is absent, with its records, and any other is present."""
from .tables import *


def check(c):
    w = c.w
    t1, t2, t3, t4, t5, T0, S0 = [ts(x) for x in ('t1', 't2', 't3', 't4', 't5', 'T', 'S')]
    flat = lambda v: [y for x in items(v) for y in items(x)]

    def cases():
        g, h = Group('f').add(t1), Group('h').add(t2)
        yield 'clustering', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])], {}
        g, h, i = Group('f').add(t1), Group('h').add(t1), Group('i').add(t2)
        yield 'one of two replaced', [g, h, i], [(t1, 'Commit', [(g, 0), (h, 0)], []), (t2, 'ReplaceCommit', [(i, 0)], [g])], {}
        yield 'two replaced at once', [g, h, i], [(t1, 'Commit', [(g, 0), (h, 0)], []), (t2, 'ReplaceCommit', [(i, 0)], [g, h])], {}
        g, h, i = Group('f').add(t1), Group('h').add(t2), Group('i').add(t3)
        yield 'replaced twice in a row', [g, h, i], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g]), (t3, 'ReplaceCommit', [(i, 0)], [h])], {}
        g, h = Group('f').add(t1).add(t2), Group('h').add(t3)
        yield 'several versions replaced', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(g, 1)], []), (t3, 'ReplaceCommit', [(h, 0)], [g])], {}
        g, h = Group('f').add(t1, logs=1), Group('h').add(t2)
        g.blocks = {0: {0: [(t1, 'log')]}}
        yield 'merge-on-read replaced', [g, h], [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])], {}
        x = word('f', UUID)
        a, b, d = Group(x, 'a').add(t1, n='1'), Group(x, 'b').add(t1, n='2'), Group('h', 'a').add(t2)
        a.name, b.name = 'fa', 'fb'
        yield 'same id in two partitions', [a, b, d], [(t1, 'Commit', [(a, 0), (b, 0)], []), (t2, 'ReplaceCommit', [(d, 0)], [a])], {'hoodie.table.partition.fields': 'p'}
        g, h, i = Group('f').add(t1), Group('h').add(t2), Group('i').add(t3)
        yield 'replaced by two commits', [g, h, i], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g]), (t3, 'ReplaceCommit', [(i, 0)], [g])], {}
        g, h, i = Group('f').add(t1), Group('h').add(t1), Group('i').add(t3)
        yield 'replaced by two commits, one more by the second', [g, h, i], [(t1, 'Commit', [(g, 0), (h, 0)], []), (t2, 'ReplaceCommit', [], [g]), (t3, 'ReplaceCommit', [(i, 0)], [g, h])], {}
        g, h = Group('f').add(t1), Group('h').add(t3)
        yield 'delete without new files', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [], [g]), (t3, 'Commit', [(h, 0)], [])], {}

        gs = [Group(x).add(t1) for x in 'fghi'] + [Group('k').add(t5)]
        yield 'four replacecommits', gs, [(t1, 'Commit', [(g, 0) for g in gs[:4]], []), (t2, 'ReplaceCommit', [], [gs[0]]), (t3, 'ReplaceCommit', [], [gs[1]]), (t4, 'ReplaceCommit', [], [gs[2]]),
                                          (t5, 'ReplaceCommit', [(gs[4], 0)], [gs[3]])], {}

    psch = schema(*[(n, U8) for n in META_COLS + ['p', 'v']])
    for name, groups, commits, conf in cases():
        mk_ = lambda: rows_tab(w, groups, commits, conf=conf, sch=psch if conf else None)

        # as of any time
        tab = mk_()
        pp = pairs(tab.times() + [T0])
        exp = lambda s: tab.slices_as_of(s, T0)

        def rows(s):
            out = []
            for g, i in tab.slices_as_of(s, T0):
                out.append('row %s%d' % (g.name, i))
                for li in getattr(g, 'blocks', {}).get(i, {}).values():
                    out += ['row %s' % nm for bt, nm in li if leq(s, bt, T0)]
            return out
        c.outcomes('as-of', 'get_file_slices_as_of: ' + name, lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])), judge_slices(tab, exp, pp), least=2)
        tab = mk_()
        c.outcomes('as-of', 'get_file_slices_splits_as_of: ' + name, lambda: (tab.e, tab.call('get_file_slices_splits_as_of', [C(2), T0, L([])])),
                   judge_slices(tab, exp, pp, flat), least=2)
        tab = mk_()
        c.outcomes('as-of', 'read_snapshot_as_of: ' + name, lambda: (tab.e, tab.call('read_snapshot_as_of', [T0, L([])])), judge_rows(rows, pp), least=2)
        # snapshots
        last = commits[-1][0]
        ppl = pairs(tab.times())
        tab = mk_()
        c.outcomes('snapshot', 'get_file_slices: ' + name, lambda: (tab.e, tab.call('get_file_slices', [L([])])), judge_slices(tab, lambda s: tab.slices_as_of(s, last), ppl))
        tab = mk_()
        c.outcomes('snapshot', 'get_file_slices_splits: ' + name, lambda: (tab.e, tab.call('get_file_slices_splits', [C(2), L([])])),
                   judge_slices(tab, lambda s: tab.slices_as_of(s, last), ppl, flat))

        def rows_last(s):
            out = []
            for g, i in tab.slices_as_of(s, last):
                out.append('row %s%d' % (g.name, i))
                for li in getattr(g, 'blocks', {}).get(i, {}).values():
                    out += ['row %s' % nm for bt, nm in li if leq(s, bt, last)]
            return out
        tab = mk_()
        c.outcomes('snapshot', 'read_snapshot: ' + name, lambda: (tab.e, tab.call('read_snapshot', [L([])])), judge_rows(rows_last, ppl))
        # incremental
        ppi = pairs(tab.times() + [S0, T0])
        for fn, args, S_, E_ in [('get_file_slices_between', [some(S0), some(T0)], S0, T0), ('get_file_slices_between', [NONE, some(T0)], None, T0),
                                 ('get_file_slices_between', [some(S0), NONE], S0, last)]:
            tab = mk_()
            c.outcomes('incremental', '%s(%s): %s' % (fn, ', '.join(map(str, args)), name), lambda: (tab.e, epoch(tab, fn, args)),
                       judge_slices(tab, lambda s: between(tab, s, S_, E_), ppi))

        def rows_inc(s):
            out = []
            for g, i in between(tab, s, S0, T0):
                if lt(s, S0, g.versions[i][0]) and leq(s, g.versions[i][0], T0):
                    out.append('row %s%d' % (g.name, i))
                for li in getattr(g, 'blocks', {}).get(i, {}).values():
                    out += ['row %s' % nm for bt, nm in li if lt(s, S0, bt) and leq(s, bt, T0)]
            return out
        tab = mk_()
        c.outcomes('incremental', 'read_incremental_records: ' + name, lambda: (tab.e, tab.call('read_incremental_records', [S0, some(T0)])), judge_rows(rows_inc, ppi))
    c.floor('as-of', 24)
    c.floor('snapshot', 24)
    c.floor('incremental', 32)
    c.also('c05', 'incremental-slices')
    c.also('c27', 'queries')

EPOCH = C('19700101000000000')


def epoch(tab, fn, args):
    """All commits are later than the epoch."""
    st, t = tab.start()
    for x in tab.times():
        need(st.facts.set_cmp(EPOCH, x, LT), 'epoch')
    return tab.call(fn, args, start=(st, t))
