"""Abstract interpretation of incremental reads: TimelineSelector::select on timelines of up to four instants with and
without bounds, InstantRange::is_in_range for all four kinds of bound, the commit-time mask over base file rows, log
blocks and the whole of Table::read_incremental_records and get_file_slices_between. All times and both bounds are
unknown; on every path, for every order of the times, what is selected has to be exactly what lies in (start, end]."""
from .tables import *
from .c09 import slice_of, reader
from .c04 import epoch, EPOCH


def check(c):
    w = c.w
    t = [ts('t%d' % i) for i in range(1, 5)]
    t1, t2, t3, t4 = t
    S0, E0 = ts('S'), ts('E')

    # ---- the selector
    for n in range(5):
        for sv, ev in ((NONE, NONE), (some(S0), NONE), (NONE, some(E0)), (some(S0), some(E0))):
            for kind, act in (('completed_commits_in_range', 'Commit'), ('completed_replacecommits_in_range', 'ReplaceCommit'), ('completed_deltacommits_in_range', 'DeltaCommit')):
                mixed = ['Commit', 'ReplaceCommit', 'DeltaCommit', act][:n]

                def run():
                    sc = Scene(w)
                    st = St()
                    for a, b in zip(t[:n], t[1:n]):
                        st = sc.order(st, a, '<', b)
                    rs = sc.run('TimelineSelector::' + kind, [sc.conf, sv, ev], st)
                    need(len(rs) == 1 and is_ok(rs[0][1]), 'selector')
                    tl = sc.timeline([sc.instant(x, a) for x, a in zip(t, mixed)])
                    return sc.e, sc.run('TimelineSelector::select', [rs[0][1].fs[0], tl], rs[0][0])

                def j(s, v):
                    if is_err(v):
                        return 'selecting fails', v
                    got = [fld(x, 'timestamp') for x in items(unwrap(v))]
                    for x in completions(s, pairs(t[:n]) + [(a, b) for a in t[:n] for b in (S0, E0)] + [(S0, E0)]):
                        want = [a for a, k in zip(t[:n], mixed) if k == act and (sv == NONE or lt(x, S0, a)) and (ev == NONE or leq(x, a, E0))]
                        if sv != NONE and ev != NONE and lt(x, E0, S0):
                            want = []
                        if got != want:
                            return 'selected %s instead of %s where %s' % (got, want, describe(x, t[:n] + [S0, E0])), v
                    return None
                c.outcomes('selector', '%s(%s, %s) of %d' % (kind, sv, ev, n), run, j)

    # ---- instant ranges
    x = ts('x')
    for sv, ev in ((NONE, NONE), (some(S0), NONE), (NONE, some(E0)), (some(S0), some(E0))):
        for si in (FALSE, TRUE):
            for ei in (FALSE, TRUE):
                for neg in (False, True):
                    def run():
                        sc = Scene(w)
                        st, r = sc.one('InstantRange::new', [C('utc'), sv, ev, si, ei])
                        return sc.e, sc.run('InstantRange::' + ('not_in_range' if neg else 'is_in_range'), [r, x, C('utc')], st)

                    def j(s, v):
                        if is_err(v):
                            return 'the comparison fails', v
                        need(unwrap(v) in (TRUE, FALSE), 'not a bool: %s' % v)
                        for y in completions(s, [(x, S0), (x, E0), (S0, E0)]):
                            want = (sv == NONE or lt(y, S0, x) or (si.v and leq(y, S0, x))) and (ev == NONE or lt(y, x, E0) or (ei.v and leq(y, x, E0)))
                            if (unwrap(v) == TRUE) != (want != neg):
                                return 'wrong where %s' % describe(y, [S0, x, E0]), v
                        return None
                    c.outcomes('instant-range', '%s%s, %s%s%s' % ('[' if si.v else '(', sv, ev, ']' if ei.v else ')', ' not' if neg else ''), run, j)

    # ---- the ranges by name
    for fn, args, lo, hi in (('up_to', [E0], None, True), ('within', [S0, E0], False, False), ('within_open_closed', [S0, E0], False, True)):
        for neg in (False, True):
            def run():
                sc = Scene(w)
                st, r = sc.one('InstantRange::' + fn, args + [C('utc')])
                return sc.e, sc.run('InstantRange::' + ('not_in_range' if neg else 'is_in_range'), [r, x, C('utc')], st)

            def j(s, v):
                if is_err(v):
                    return 'the comparison fails', v
                need(unwrap(v) in (TRUE, FALSE), 'not a bool: %s' % v)
                for y in completions(s, [(x, S0), (x, E0), (S0, E0)]):
                    want = (lo is None or lt(y, S0, x)) and (leq(y, x, E0) if hi else lt(y, x, E0))
                    if (unwrap(v) == TRUE) != (want != neg):
                        return 'wrong where %s' % describe(y, [S0, x, E0]), v
                return None
            c.outcomes('instant-range', '%s%s' % (fn, ' not' if neg else ''), run, j)

    # ---- rows of a base file
    secs = [ts(x, 14) for x in ('t1', 't2', 't3', 'S', 'E')]
    for populated in ('true', 'false', None, 'seconds'):
        (t1, t2, t3), S0, E0 = (t[:3], ts('S'), ts('E')) if populated != 'seconds' else (secs[:3], secs[3], secs[4])
        for sv, ev in ((None, None), (S0, None), (S0, E0), (None, E0)):
            bf = base_name(word('f', UUID), t1)
            conf = {'hoodie.populate.meta.fields': populated} if populated in ('true', 'false') else {}
            if sv is not None:
                conf['hoodie.read.file_group.start_timestamp'] = sv
            if ev is not None:
                conf['hoodie.read.file_group.end_timestamp'] = ev

            def run():
                sc = Scene(w, conf=conf, parquet={bf: batch(FULL, [row(0, t1), row(1, t2), row(2, t3)])})
                rd = sc.struct('FileGroupReader', {'HudiConfigs': sc.conf, 'Storage': sc.storage})
                return sc.e, sc.run('FileGroupReader::read_file_slice_by_base_file_path', [rd, bf])

            def j(s, v):
                if is_err(v):
                    return 'reading the base file fails: %s' % v.fs[0], v
                got = [r[-1].v for r in need_rows(unwrap(v))]
                for y in completions(s, [(a, b) for a in (t1, t2, t3) for b in (S0, E0)]):
                    on = populated != 'false' and sv is not None
                    want = ['row %d' % i for i, a in enumerate((t1, t2, t3)) if not on or (lt(y, S0, a) and (ev is None or leq(y, a, E0)))]
                    if got != want:
                        return 'rows %s instead of %s where %s' % (got, want, describe(y, [t1, t2, t3, S0, E0])), v
                return None
            c.outcomes('base-rows', 'populated=%s start=%s end=%s' % (populated, sv, ev), run, j)

    # a row without a commit time lies in no range
    (t1, t2, t3), S0, E0 = t[:3], ts('S'), ts('E')
    for sv, ev in ((None, None), (S0, None), (S0, E0), (None, E0)):
        bf = base_name(word('f', UUID), t1)
        conf = {'hoodie.read.file_group.start_timestamp': sv, 'hoodie.read.file_group.end_timestamp': ev}

        def run():
            sc = Scene(w, conf={k: x for k, x in conf.items() if x is not None}, parquet={bf: batch(FULL, [row(0, t1), row(1, T('null')), row(2, t3)])})
            rd = sc.struct('FileGroupReader', {'HudiConfigs': sc.conf, 'Storage': sc.storage})
            return sc.e, sc.run('FileGroupReader::read_file_slice_by_base_file_path', [rd, bf])

        def j(s, v):
            if is_err(v):
                return 'reading the base file fails: %s' % v.fs[0], v
            got = [r[-1].v for r in need_rows(unwrap(v))]
            for y in completions(s, [(a, b) for a in (t1, t3) for b in (S0, E0)]):
                want = ['row %d' % i for i, a in enumerate((t1, None, t3)) if sv is None or (a is not None and lt(y, S0, a) and (ev is None or leq(y, a, E0)))]
                if got != want:
                    return 'rows %s instead of %s where %s' % (got, want, describe(y, [t1, t3, S0, E0])), v
            return None
        c.outcomes('base-rows', 'a row without a commit time, start=%s end=%s' % (sv, ev), run, j)

    (t1, t2, t3), S0, E0 = t[:3], ts('S'), ts('E')
    # ---- log blocks
    fid = word('f', UUID)
    lb, lf = base_name(fid, t1), log_name(fid, t1, 1, 'l')
    for sv, ev in ((None, None), (S0, None), (S0, E0), (None, E0), (S0, S0)):
        conf = {'hoodie.table.record.merge.strategy': 'append_only'}
        if sv is not None:
            conf['hoodie.read.file_group.start_timestamp'] = sv
        if ev is not None:
            conf['hoodie.read.file_group.end_timestamp'] = ev

        def run():
            sc = Scene(w, conf=conf, parquet={lb: batch(FULL, [])}, logs={lf: log_block(t2, [batch(FULL, [row('a', t2)])]) + log_block(t3, [batch(FULL, [row('b', t3)])])})
            st, fs = slice_of(sc, lb, [lf])
            return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)

        def j(s, v):
            if is_err(v):
                return 'reading the log blocks fails: %s' % v.fs[0], v
            got = sorted(r[-1].v for r in need_rows(unwrap(v)))
            for y in completions(s, [(a, b) for a in (t2, t3) for b in (S0, E0)] + [(S0, E0)]):
                want = ['row %s' % n for n, a in (('a', t2), ('b', t3)) if (sv is None or lt(y, sv, a)) and (ev is None or leq(y, a, ev))]
                if got != want:
                    return 'rows %s instead of %s where %s' % (got, want, describe(y, [t2, t3, S0, E0])), v
            return None
        c.outcomes('log-blocks', 'start=%s end=%s' % (sv, ev), run, j)

    # ---- the whole read
    def cases():
        g = Group('f').add(t1).add(t2)
        g.carried = {1: [t1]}
        yield 'two versions', [g], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(g, 1)], [])]
        g = Group('f').add(t1).add(t2).add(t3)
        g.carried = {1: [t1], 2: [t1, t2]}
        yield 'three versions', [g], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(g, 1)], []), (t3, 'Commit', [(g, 2)], [])]
        g, h = Group('f').add(t1), Group('h').add(t2)
        yield 'two file groups', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(h, 0)], [])]
        g = Group('f').add(t1, logs=1)
        g.blocks = {0: {0: [(t1, 'a'), (t2, 'b'), (t3, 'c')]}}
        yield 'log blocks', [g], [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'DeltaCommit', [(g, 0)], []), (t3, 'DeltaCommit', [(g, 0)], [])]
        g, h = Group('f').add(t1, logs=1), Group('h').add(t3)
        g.blocks = {0: {0: [(t1, 'a'), (t4, 'b')]}}
        h.carried = {0: [t1, t2]}
        yield 'an old and a new file group', [g, h], [(t1, 'DeltaCommit', [(g, 0)], []), (t3, 'Commit', [(h, 0)], []), (t4, 'DeltaCommit', [(g, 0)], [])]
        x6 = word('x', UUID)
        g, h = Group(x6, 'a').add(t1, n='1').add(t2, n='2'), Group(x6, 'b').add(t1, n='1').add(t2, n='2')
        g.name, h.name = 'xa', 'xb'
        yield 'one file name in two partitions', [g, h], [(t1, 'Commit', [(g, 0), (h, 0)], []), (t2, 'Commit', [(g, 1), (h, 1)], [])]
        u1, u2 = secs[:2]
        g = Group('f').add(u1).add(u2)
        g.carried = {1: [u1]}
        yield 'times in seconds', [g], [(u1, 'Commit', [(g, 0)], []), (u2, 'Commit', [(g, 1)], [])]
        yield 'nothing', [], []
    for name, groups, commits in cases():
        mk_ = lambda: rows_tab(w, groups, commits)
        S0, E0 = (secs[3], secs[4]) if name == 'times in seconds' else (ts('S'), ts('E'))
        for sv, ev in ((S0, E0), (S0, None)):
            tab = mk_()
            last = commits[-1][0] if commits else None
            E_ = ev if ev is not None else last

            def rows(s):
                if E_ is None:
                    return []
                out = []
                inr = lambda a: lt(s, sv, a) and leq(s, a, E_)
                for g, i in between(tab, s, sv, E_):
                    if inr(g.versions[i][0]):
                        out.append('row %s%d' % (g.name, i))
                    out += ['row %s%d.%s' % (g.name, i, x) for x in getattr(g, 'carried', {}).get(i, []) if inr(x)]
                    for li in getattr(g, 'blocks', {}).get(i, {}).values():
                        out += ['row %s' % nm for bt, nm in li if inr(bt)]
                return out
            pp = pairs(tab.times() + [sv] + ([ev] if ev is not None else []))
            c.outcomes('incremental-records', '%s, start=%s end=%s' % (name, sv, ev), lambda: (tab.e, tab.call('read_incremental_records', [sv, some(ev) if ev is not None else NONE])),
                       judge_rows(rows, pp))
        for sv, ev in ((S0, E0), (S0, None)) + (((None, E0), (None, None)) if name != 'times in seconds' else ()):
            tab = mk_()
            last = commits[-1][0] if commits else None
            E_ = ev if ev is not None else last
            pp = pairs(tab.times() + [x for x in (sv, ev) if x is not None])
            c.outcomes('incremental-slices', '%s, start=%s end=%s' % (name, sv, ev),
                       lambda: (tab.e, epoch(tab, 'get_file_slices_between', [some(sv) if sv is not None else NONE, some(ev) if ev is not None else NONE])),
                       judge_slices(tab, lambda s: between(tab, s, sv, E_) if E_ is not None else [], pp))
    # bounds of another precision than the times of the table
    M3 = [C('20240101000000100'), C('20240102000000200'), C('20240103000000300')]
    S3 = [C('20240101000000'), C('20240102000000'), C('20240103000000')]
    for key, tt, bounds in (('times in milliseconds, bounds in seconds', M3, ('20240101120000', '20240102120000', '20231231000000', '20240201000000')),
                            ('times in seconds, bounds in milliseconds', S3, ('20240101120000500', '20240102120000999', '20231231000000000', '20240201000000001'))):
        g, h = Group('f').add(tt[0]).add(tt[1]), Group('h').add(tt[2])
        cm = [(tt[0], 'Commit', [(g, 0)], []), (tt[1], 'Commit', [(g, 1)], []), (tt[2], 'Commit', [(h, 0)], [])]
        rs = [('row f0', tt[0]), ('row f1', tt[1]), ('row h0', tt[2])]
        for sv in bounds:
            for ev in bounds + (None,):
                inr = lambda x: sv < x.v and (ev is None or x.v <= ev)
                sel = [i for i, t_ in enumerate(tt) if inr(t_)]
                # the latest slice of each file group among the selected commits
                want = (['row f1'] if 1 in sel else ['row f0'] if 0 in sel else []) + (['row h0'] if 2 in sel else [])
                tab = rows_tab(w, [g, h], cm)
                c.outcomes('incremental-records', '%s: start=%s end=%s' % (key, sv, ev), lambda: (tab.e, tab.call('read_incremental_records', [C(sv), some(C(ev)) if ev else NONE])), judge_rows(lambda s: want, []))
    c.floor('selector', 60)
    c.floor('instant-range', 38)
    c.floor('base-rows', 12)
    c.floor('incremental-records', 10)
    c.floor('incremental-slices', 20)
    c.also('c27', 'range', 'queries')
    c.also('c04', 'incremental')
    c.also('c21', 'commit-metadata')

def need_rows(v):
    r = rows_of(v)
    need(r is not None, 'rows of %s' % v)
    return r
