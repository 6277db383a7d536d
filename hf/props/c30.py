"""Abstract interpretation of FileGroupReader::read_file_slice and Table::read_snapshot / read_snapshot_as_of with and
without the read-optimized option, given by the table's options or for one read: which storage accesses every path
performs and which rows it returns, for file slices with zero to two log files, both merge strategies and unknown times."""
from .tables import *
from .c09 import slice_of, reader, judge_latest, judge_all, rec, STRAT, PREC

RO = 'hoodie.read.use.read_optimized.mode'


def opened_logs(s):
    return [e for e in s.events() if e[0] == 'storage' and e[1] in ('get_storage_reader', 'get_file_data') and any('.log' in str(x) for x in e[2])]


def check(c):
    w = c.w
    fid, t0 = word('f', UUID), ts('t0')
    base = base_name(fid, t0)
    lg = [log_name(fid, t0, i + 1, 'l%d' % i) for i in range(2)]
    r0, r1, r2 = rec(0, 'a'), rec(1, 'b'), rec(2, 'a')
    for strat in ('append_only', 'overwrite_with_latest'):
        for n in range(3):
            for flag in ('true', 'false', None):
                for part in (C(''), C('p=1/q=2')):
                    conf = {STRAT: strat, PREC: 'ts'}
                    if flag:
                        conf[RO] = flag
                    logs = {path(part, l): log_block(ts('b%d' % i), [batch(FULL, [r])]) for i, (l, r) in enumerate(zip(lg[:n], (r1, r2)))}

                    def run():
                        sc = Scene(w, conf=conf, parquet={path(part, base): batch(FULL, [r0])}, logs=logs)
                        st, fs = slice_of(sc, base, lg[:n], part)
                        return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
                    rows = [r0] + ([r1, r2][:n] if flag != 'true' else [])
                    inner = judge_all(rows) if strat[0] == 'a' else judge_latest(rows)

                    def j(s, v):
                        op = opened_logs(s)
                        if flag == 'true' and op:
                            return 'a log file is opened in read-optimized mode: %s' % (op[0][2],), v
                        if flag != 'true' and len({e[2] for e in op}) != n:
                            return '%d of %d log files are read' % (len({e[2] for e in op}), n), v
                        return inner(s, v)
                    c.outcomes('file-slice', '%s, %d log files, option %s, partition %s' % (strat, n, flag, part), run, j)

    # ---- with bounds on the times (an incremental read): the mode alone decides whether log files are opened
    S0, E0 = ts('S'), ts('E')
    START, END = 'hoodie.read.file_group.start_timestamp', 'hoodie.read.file_group.end_timestamp'

    def only_mode(flag, n):
        def j(s, v):
            if is_err(v):
                return 'the read fails: %s' % v.fs[0], v
            op = opened_logs(s)
            if flag == 'true' and op:
                return 'a log file is opened in read-optimized mode: %s' % (op[0][2],), v
            if flag != 'true' and len({e[2] for e in op}) != n:
                return '%d of %d log files are read' % (len({e[2] for e in op}), n), v
            return None
        return j
    for flag in ('true', 'false', None):
        for n in range(3):
            for bs in ((START,), (END,), (START, END)):
                conf = {STRAT: 'append_only', PREC: 'ts', **({RO: flag} if flag else {}), **{k: {START: S0, END: E0}[k] for k in bs}}
                logs = {l: log_block(ts('b%d' % i), [batch(FULL, [r])]) for i, (l, r) in enumerate(zip(lg[:n], (r1, r2)))}

                def run():
                    sc = Scene(w, conf=conf, parquet={base: batch(FULL, [r0])}, logs=logs)
                    st, fs = slice_of(sc, base, lg[:n])
                    return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
                c.outcomes('bounded', '%d log files, option %s, %s' % (n, flag, ' and '.join(bs)), run, only_mode(flag, n))

    # ---- through the table, and as an option of a single read
    t1, t2, T0 = ts('t1'), ts('t2'), ts('T')
    for flag in ('true', 'false', None):
        g, h = Group('f').add(t1, logs=1), Group('h').add(t1)
        g.blocks = {0: {0: [(t2, 'log')]}}
        tab = rows_tab(w, [g, h], [(t1, 'DeltaCommit', [(g, 0), (h, 0)], []), (t2, 'DeltaCommit', [(g, 0)], [])], conf={RO: flag} if flag else {})
        want = ['row f0', 'row h0'] + ([] if flag == 'true' else ['row log'])
        inner = judge_rows(lambda s: want, [])

        def j(s, v):
            if flag == 'true' and opened_logs(s):
                return 'a log file is opened in read-optimized mode', v
            return inner(s, v)
        c.outcomes('table', 'read_snapshot, option %s' % flag, lambda: (tab.e, tab.call('read_snapshot', [L([])])), j)

        tab2 = rows_tab(w, [g, h], [(t1, 'DeltaCommit', [(g, 0), (h, 0)], []), (t2, 'DeltaCommit', [(g, 0)], [])], conf={RO: flag} if flag else {})

        def rows(s):
            return (['row f0', 'row h0'] if leq(s, t1, T0) else []) + (['row log'] if flag != 'true' and leq(s, t1, T0) and leq(s, t2, T0) else [])
        c.outcomes('table', 'read_snapshot_as_of, option %s' % flag, lambda: (tab2.e, tab2.call('read_snapshot_as_of', [T0, L([])])), judge_rows(rows, pairs([t1, t2, T0])))
        tab3 = rows_tab(w, [g, h], [(t1, 'DeltaCommit', [(g, 0), (h, 0)], []), (t2, 'DeltaCommit', [(g, 0)], [])], conf={RO: flag} if flag else {})
        for end in (NONE, some(T0)):
            def j3(s, v):
                if is_err(v):
                    return 'the read fails: %s' % v.fs[0], v
                if flag == 'true' and opened_logs(s):
                    return 'a log file is opened in read-optimized mode', v
                return None
            c.outcomes('table', 'read_incremental_records to %s, option %s' % (end, flag), lambda: (tab3.e, tab3.call('read_incremental_records', [ts('S'), end])), j3)
        for own in ('true', 'false'):
            def run():
                sc = Scene(w, conf={STRAT: 'append_only', 'hoodie.base.path': 'file:///t', **({RO: flag} if flag else {})},
                           parquet={base: batch(FULL, [r0])}, logs={lg[0]: log_block(ts('b0'), [batch(FULL, [r1])])})
                st, t = sc.table([])
                st, fs = slice_of(sc, base, lg[:1], st=st)
                out = []
                for s, r in sc.run('Table::create_file_group_reader_with_options', [t, L([Tup((C(RO), C(own)))])], st):
                    if not is_ok(r):
                        out.append((s, r))
                    else:
                        out += sc.run('FileGroupReader::read_file_slice', [r.fs[0], fs], s)
                return sc.e, out
            c.outcomes('one-read', 'table %s, reader %s' % (flag, own), run, judge_all([r0] if own == 'true' else [r0, r1]))
    c.floor('file-slice', 36)
    c.floor('table', 12)
    c.floor('bounded', 27)
    c.floor('one-read', 6)
    c.also('c09', 'file-slice')
