"""Abstract interpretation of the snapshot entry points of Table (get_file_slices, get_file_slices_splits,
read_snapshot) on tables of zero to three commits, unpartitioned and partitioned, with and without filters, replaced file
groups and log files. On every path the answer has to be that of the as-of query at the last completed commit, computed
independently from the table's description; file slices later than it (in flight) are not part of it."""
from .tables import *

PART = {'hoodie.table.partition.fields': 'p'}


def filters(*fs):
    return L([Tup([C(x) for x in f]) for f in fs])


def check(c):
    w = c.w
    t1, t2, t3 = [ts(x) for x in ('t1', 't2', 't3')]
    flat = lambda v: [y for x in items(v) for y in items(x)]

    def cases():
        g = Group('f')
        yield 'no commits', lambda **k: rows_tab(w, [], [], **k), lambda g: True, L([])
        g = Group('f').add(t1)
        yield 'one commit', lambda **k: rows_tab(w, [g], [(t1, 'Commit', [(g, 0)], [])], **k), lambda g: True, L([])
        g2 = Group('f').add(t1).add(t2)
        yield 'two versions', lambda **k: rows_tab(w, [g2], [(t1, 'Commit', [(g2, 0)], []), (t2, 'Commit', [(g2, 1)], [])], **k), lambda g: True, L([])
        g3, h3 = Group('f').add(t1), Group('h').add(t2)
        yield 'replaced group', lambda **k: rows_tab(w, [g3, h3], [(t1, 'Commit', [(g3, 0)], []), (t2, 'ReplaceCommit', [(h3, 0)], [g3])], **k), lambda g: True, L([])
        g4 = Group('f').add(t1).add(t2)
        yield 'file of a later instant', lambda **k: rows_tab(w, [g4], [(t1, 'Commit', [(g4, 0)], [])], **k), lambda g: True, L([])
        g5 = Group('f').add(t1, logs=1)
        g5.blocks = {0: {0: [(t2, 'log')]}}
        yield 'log file', lambda **k: rows_tab(w, [g5], [(t1, 'DeltaCommit', [(g5, 0)], []), (t2, 'DeltaCommit', [(g5, 0)], [])], **k), lambda g: True, L([])
        for nm, na, nb in (('seconds, then milliseconds', 14, 17), ('milliseconds, then seconds', 17, 14), ('seconds', 14, 14)):
            a, b = (ts('t1', na) if na != 17 else t1), (ts('t2', nb) if nb != 17 else t2)
            gp, hp = Group('f').add(a).add(b), Group('h').add(a)
            yield 'times of ' + nm, lambda **k: rows_tab(w, [gp, hp], [(a, 'Commit', [(gp, 0), (hp, 0)], []), (b, 'Commit', [(gp, 1)], [])], **k), lambda g: True, L([]), [a, '<', b]
        sch = schema(*[(n, U8) for n in META_COLS + ['p', 'v']])
        gs = [Group('f', 'a').add(t1), Group('h', 'b').add(t1).add(t2), Group('i', 'c').add(t2)]
        cm = [(t1, 'Commit', [(gs[0], 0), (gs[1], 0)], []), (t2, 'Commit', [(gs[1], 1), (gs[2], 0)], [])]
        mk_ = lambda **k: rows_tab(w, gs, cm, conf={**PART, **(k.pop('conf', None) or {})}, sch=sch, **k)
        x6 = word('x', UUID)
        g6, h6 = Group(x6, 'a').add(t1, n='1'), Group(x6, 'b').add(t1, n='2')
        g6.name, h6.name = 'xa', 'xb'
        yield 'one file id in two partitions', lambda **k: rows_tab(w, [g6, h6], [(t1, 'Commit', [(g6, 0), (h6, 0)], [])], conf={**PART, **(k.pop('conf', None) or {})}, sch=sch, **k), lambda g: True, L([])
        g8, h8, i8 = [Group(x6, q).add(t1, n='1') for q in 'abc']
        g8.name, h8.name, i8.name = 'za', 'zb', 'zc'
        h8.add(t2, n='3')
        i8.add(t2, n='3')
        yield 'one file name in several partitions', lambda **k: rows_tab(w, [g8, h8, i8], [(t1, 'Commit', [(g8, 0), (h8, 0), (i8, 0)], []), (t2, 'Commit', [(h8, 1), (i8, 1)], [])], conf={**PART, **(k.pop('conf', None) or {})}, sch=sch, **k), lambda g: True, L([])
        g7 = Group(x6, 'a').add(t1, logs=2)
        g7.name, g7.blocks = 'ya', {0: {0: [(t1, 'log1')], 1: [(t2, 'log2')]}}
        h7 = Group('h', 'b').add(t2)
        yield 'two log files', lambda **k: rows_tab(w, [g7, h7], [(t1, 'DeltaCommit', [(g7, 0)], []), (t2, 'DeltaCommit', [(g7, 0), (h7, 0)], [])], conf={**PART, **(k.pop('conf', None) or {})}, sch=sch, **k), lambda g: True, L([])
        P = lambda g: g.part.v
        for name, fl, keep in [('no filter', L([]), lambda g: True),
                               ('= b', filters(('p', '=', 'b')), lambda g: P(g) == 'b'),
                               ('!= b', filters(('p', '!=', 'b')), lambda g: P(g) != 'b'),
                               ('>= b', filters(('p', '>=', 'b')), lambda g: P(g) >= 'b'),
                               ('< b', filters(('p', '<', 'b')), lambda g: P(g) < 'b'),
                               ('> a, <= b', filters(('p', '>', 'a'), ('p', '<=', 'b')), lambda g: P(g) == 'b'),
                               ('none left', filters(('p', '=', 'x')), lambda g: False)]:
            yield 'partitioned, filter ' + name, mk_, keep, fl

    def latest(tab):
        return tab.commits[-1][0] if tab.commits else None

    for name, mk_, keep, fl, *more in cases():
        def exp(tab):
            T0 = latest(tab)
            return lambda s: tab.slices_as_of(s, T0, keep) if T0 is not None else []

        def rows(tab):
            T0 = latest(tab)

            def f(s):
                out = []
                for g, i in (tab.slices_as_of(s, T0, keep) if T0 is not None else []):
                    out.append('row %s%d' % (g.name, i))
                    for li in getattr(g, 'blocks', {}).get(i, {}).values():
                        out += ['row %s' % nm for bt, nm in li if leq(s, bt, T0)]
                return out
            return f
        order = more[0] if more else [t1, '<', t2]

        def run(fn, args):
            tab = mk_()
            return tab, tab.call(fn, args, *order)
        for fn, args, fl_ in [('get_file_slices', [fl], None)] + [('get_file_slices_splits', [C(n), fl], flat) for n in (0, 1, 2, 5)]:
            tab = mk_()
            pp = [] if latest(tab) is None else pairs(tab.times())
            c.outcomes('snapshot-slices', '%s%s: %s' % (fn, '(%d)' % args[0].v if len(args) > 1 else '', name),
                       lambda: (tab.e, tab.call(fn, args, *order)), judge_slices(tab, exp(tab), pp, fl_))
        tab = mk_()
        c.outcomes('snapshot-records', name, lambda: (tab.e, tab.call('read_snapshot', [fl], *order)), judge_rows(rows(tab), pairs(tab.times()) if tab.commits else []))
        # the as-of query at the last commit, for the same table and filters
        if latest(tab) is not None:
            tab = mk_()
            c.outcomes('as-of-latest', 'get_file_slices_as_of: ' + name, lambda: (tab.e, tab.call('get_file_slices_as_of', [latest(tab), fl], *order)),
                       judge_slices(tab, exp(tab), pairs(tab.times())))
            c.outcomes('as-of-latest', 'read_snapshot_as_of: ' + name, lambda: (tab.e, tab.call('read_snapshot_as_of', [latest(tab), fl], *order)),
                       judge_rows(rows(tab), pairs(tab.times())))
    c.floor('snapshot-slices', 65)
    c.floor('snapshot-records', 13)
    c.floor('as-of-latest', 24)
    c.also('c04', 'snapshot', 'as-of')
    c.also('c22', 'splits')
    c.also('c30', 'table')
    c.also('c02', 'slice-choice', 'log-cut')
