"""Abstract interpretation of log scanning: LogFileScanner::scan through FileGroupReader::read_file_slice on file slices
with up to three log files holding data and rollback command blocks in every placement, with instants and the bounds of the
read unknown. On every path, for every order of the instants, no record of a block whose instant a rollback block within
the range targets may be returned, and every record of the other blocks within the range must be."""
from .tables import *
from .c09 import slice_of, reader

D, R = 'data', 'rollback'


def check(c):
    w = c.w
    X, Y, Z = ts('X'), ts('Y'), ts('Z')
    S0, E0 = ts('S'), ts('E')
    fid, t0 = word('f', UUID), ts('t0')
    base = base_name(fid, t0)
    lg = [log_name(fid, t0, i + 1, 'l%d' % i) for i in range(3)]

    # files: per file a list of (kind, instant, name or target)
    cases = [
        ('same file, rollback after', [[(D, X, 'x'), (R, Y, X)]]),
        ('same file, rollback first', [[(R, Y, X), (D, X, 'x')]]),
        ('rollback in a later file', [[(D, X, 'x')], [(R, Y, X)]]),
        ('rollback in an earlier file', [[(R, Y, X)], [(D, X, 'x')]]),
        ('rollback two files later', [[(D, X, 'x')], [(D, Z, 'z')], [(R, Y, X)]]),
        ('rollback two files earlier', [[(R, Y, X)], [(D, Z, 'z')], [(D, X, 'x')]]),
        ('other block kept', [[(D, X, 'x'), (D, Z, 'z'), (R, Y, X)]]),
        ('two blocks of the instant', [[(D, X, 'x1'), (D, X, 'x2')], [(R, Y, X)]]),
        ('two rollbacks', [[(D, X, 'x'), (D, Z, 'z')], [(R, Y, X), (R, Y, Z)]]),
        ('two rollbacks in two files', [[(D, X, 'x'), (R, Y, Z)], [(D, Z, 'z'), (R, Y, X)]]),
        ('rollback of nothing', [[(D, X, 'x'), (R, Y, Z)]]),
        ('rollback twice', [[(D, X, 'x'), (R, Y, X), (R, Z, X)]]),
        ('data after its rollback', [[(R, Y, X)], [(D, X, 'x'), (D, Z, 'z')]]),
        ('no rollback', [[(D, X, 'x')], [(D, Z, 'z')]]),
        ('only a rollback', [[(R, Y, X)]]),
    ]
    if c.thorough:
        import itertools
        blocks = [(D, X, 'x'), (D, Z, 'z'), (R, Y, X)]
        for p in itertools.permutations(blocks):
            for cutat in itertools.product((0, 1), repeat=2):
                files, cur = [], [p[0]]
                for b, k in zip(p[1:], cutat):
                    if k:
                        files.append(cur)
                        cur = []
                    cur.append(b)
                files.append(cur)
                cases.append(('placement %s' % ' | '.join(' '.join(b[0] + str(b[1]) for b in f) for f in files), files))
    for name, files in cases:
        insts = list(dict.fromkeys(b[1] for f in files for b in f))
        targets = list(dict.fromkeys(b[2] for f in files for b in f if b[0] == R))
        for opts in ((None, None), (None, E0), (S0, None), (S0, E0)):
            conf = {'hoodie.table.record.merge.strategy': 'append_only'}
            if opts[0] is not None:
                conf['hoodie.read.file_group.start_timestamp'] = opts[0]
            if opts[1] is not None:
                conf['hoodie.read.file_group.end_timestamp'] = opts[1]
            logs, n = {}, 0
            for l, f in zip(lg, files):
                ch = []
                for kind, t, x in f:
                    n += 1
                    ch += log_block(t, [batch(FULL, [row(x, t)])]) if kind == D else rollback(t, x)
                logs[l] = ch

            def run():
                sc = Scene(w, conf=conf, parquet={base: batch(FULL, [])}, logs=logs)
                st, fs = slice_of(sc, base, lg[:len(files)])
                return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)

            def j(s, v):
                if is_err(v):
                    return 'the read fails: %s' % v.fs[0], v
                rs = rows_of(unwrap(v))
                need(rs is not None, 'rows of %s' % v)
                got = sorted(r[-1].v for r in rs)
                pp = [(a, b) for a in insts for b in opts if b is not None] + [(a, b) for a in insts for b in targets if a != b]
                pp += [(b_, a) for a in targets for b_ in opts if b_ is not None]
                for x in completions(s, pp):
                    inr = lambda a: (opts[0] is None or lt(x, opts[0], a)) and (opts[1] is None or leq(x, a, opts[1]))
                    dead = [b[2] for f in files for b in f if b[0] == R and inr(b[1])]
                    same = lambda a, b: a == b or x.facts.get_cmp(a, b) == EQ
                    want = sorted('row %s' % b[2] for f in files for b in f if b[0] == D and inr(b[1]) and not any(same(b[1], d) for d in dead))
                    if got != want:
                        return 'rows %s instead of %s (rolled back: %s) where %s' % (got, want, dead, describe(x, insts + [b for b in opts if b is not None])), v
                return None
            c.outcomes('rollback', '%s, start=%s end=%s' % (name, opts[0], opts[1]), run, j)

    # ---- instants with seconds only
    for x_, y_ in ((ts('X', 14), ts('Y')), (ts('X'), ts('Y', 14)), (ts('X', 14), ts('Y', 14)), (C('20240402144910'), C('20240402144910683')), (C('20240402144910683'), C('20240402144911'))):
        for where in ('same file', 'later file', 'earlier file'):
            chs = {'same file': [[(D, x_), (R, y_)]], 'later file': [[(D, x_)], [(R, y_)]], 'earlier file': [[(R, y_)], [(D, x_)]]}[where]

            def run():
                logs = {l: sum((log_block(x_, [batch(FULL, [row('x', x_)])]) if k == D else rollback(y_, x_) for k, _ in f), []) for l, f in zip(lg, chs)}
                sc = Scene(w, conf={'hoodie.table.record.merge.strategy': 'append_only'}, parquet={base: batch(FULL, [])}, logs=logs)
                st, fs = slice_of(sc, base, lg[:len(chs)])
                return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)

            def j(s, v):
                if is_err(v):
                    return 'the read fails: %s' % v.fs[0], v
                need(rows_of(unwrap(v)) is not None, 'rows of %s' % v)
                return None if not rows_of(unwrap(v)) else ('the rolled back record is returned', v)
            c.outcomes('rollback', 'instants of %s and %s, %s' % (x_, y_, where), run, j)

    # ---- what counts as a rollback block
    for code, good in (('0', True), ('1', False), ('x', False), ('', False)):
        def run():
            sc = Scene(w, conf={'hoodie.table.record.merge.strategy': 'append_only'}, parquet={base: batch(FULL, [])},
                       logs={lg[0]: log_block(X, [batch(FULL, [row('x', X)])]) + rollback(Y, X, code=code)})
            st, fs = slice_of(sc, base, lg[:1])
            st.facts.set_cmp(X, Y, LT)
            return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
        c.outcomes('command-block', 'type %r' % code, run, lambda s, v: (None if is_ok(v) and not rows_of(unwrap(v)) else ('the rolled back record is returned', v)) if good
                   else None if is_err(v) else ('a command block of unknown type is ignored', v))
    for head, what in (({'CommandBlockType': '0'}, 'without target'), ({'TargetInstantTime': X}, 'without type')):
        def run():
            sc = Scene(w, conf={'hoodie.table.record.merge.strategy': 'append_only'}, parquet={base: batch(FULL, [])},
                       logs={lg[0]: log_block(X, [batch(FULL, [row('x', X)])]) + log_block(Y, kind='Command', clen=C(0), head=head)})
            st, fs = slice_of(sc, base, lg[:1])
            st.facts.set_cmp(X, Y, LT)
            return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
        c.outcomes('command-block', what, run, lambda s, v: None if is_err(v) else ('a command block %s is ignored' % what, v))
    c.floor('rollback', 60)
    c.floor('command-block', 6)
