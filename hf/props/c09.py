"""Abstract interpretation of merging: RecordMerger::merge_record_batches on up to four rows in up to three batches whose
record keys repeat in every pattern and whose precombine values and commit sequence numbers are unknown, for both merge
strategies; and FileGroupReader::read_file_slice on slices of a base file and up to two log files with several blocks and
batches, for every way the configuration determines the strategy. On every path, for every order of the values, the rows
returned have to be exactly the winning version of each key, or all rows."""
from .tables import *

STRAT, PREC, POP = 'hoodie.table.record.merge.strategy', 'hoodie.table.precombine.field', 'hoodie.populate.meta.fields'


NULL = T('null')


def rec(i, key, pre=None, seq=None):
    return row(i, ts('t%s' % i), C(key), pre, seq)


def winners(s, rows):
    """The sets of rows that may survive: for each key the indices of the rows that are not beaten."""
    out = {}
    for i, r in enumerate(rows):
        out.setdefault(r[2], []).append(i)

    def beaten(i, j):
        a, b = rows[i], rows[j]
        if NULL in (a[5], b[5]):
            # a missing value is lower than any other
            if a[5] != b[5]:
                return a[5] == NULL
            return lt(s, a[1], b[1])
        if lt(s, a[5], b[5]):
            return True
        return s.facts.get_cmp(a[5], b[5]) == EQ and lt(s, a[1], b[1])
    return {k: [i for i in v if not any(beaten(i, j) for j in v if j != i)] for k, v in out.items()}


def judge_latest(rows):
    names = {r[-1]: i for i, r in enumerate(rows)}
    pp = []
    for i, a in enumerate(rows):
        for b in rows[i + 1:]:
            if a[2] == b[2]:
                pp += ([] if NULL in (a[5], b[5]) else [(a[5], b[5])]) + [(a[1], b[1])]

    def j(s, v):
        if is_err(v):
            return 'merging fails: %s' % v.fs[0], v
        rs = rows_of(unwrap(v))
        need(rs is not None, 'rows of %s' % v)
        for r in rs:
            if r[-1] not in names or tuple(rows[names[r[-1]]]) != tuple(r):
                return 'returns a row that was not there: %s' % (r,), v
        got = [names[r[-1]] for r in rs]
        for x in completions(s, pp):
            win = winners(x, rows)
            for k, w_ in win.items():
                mine = [i for i in got if rows[i][2] == k]
                if len(mine) != 1:
                    return '%d rows for key %s' % (len(mine), k), v
                if mine[0] not in w_:
                    return 'key %s keeps row %s although row %s is later where %s' % (k, mine[0], w_[0], describe(x, [rows[i][q] for i in (mine[0], w_[0]) for q in (5, 1) if rows[i][q] != NULL])), v
        return None
    return j


def judge_all(rows, ordered=False):
    def j(s, v):
        if is_err(v):
            return 'merging fails: %s' % v.fs[0], v
        rs = rows_of(unwrap(v))
        need(rs is not None, 'rows of %s' % v)
        got = sorted(str(r[-1]) for r in rs)
        want = sorted(str(r[-1]) for r in rows)
        return None if got == want else ('rows %s instead of %s' % (got, want), v)
    return j


def slice_of(sc, base, logs=(), part=C(''), st=None):
    """A FileSlice of the given file names."""
    st, bf = sc.one(need1(sc, 'BaseFile'), [base], st)
    need(is_ok(bf), 'base file %s' % bf)
    ls = []
    for l in logs:
        st, lf = sc.one(need1(sc, 'LogFile'), [l], st)
        need(is_ok(lf), 'log file %s' % lf)
        ls.append((lf.fs[0], UNIT))
    return st, sc.struct('FileSlice', {'BaseFile': bf.fs[0], 'BTreeSet': M(ls, 'BTreeSet'), 'String': part})


def need1(sc, ty):
    f = sc.w.method(ty, 'from_str', 'FromStr')
    need(len(f) == 1, '%s::from_str' % ty)
    return f[0]


def reader(sc):
    return sc.struct('FileGroupReader', {'HudiConfigs': sc.conf, 'Storage': sc.storage})


def check(c):
    w = c.w
    m = lambda: c.method('RecordMerger', 'merge_record_batches')

    # ---- the merger alone
    shapes = [['a'], ['a', 'b'], ['a', 'a'], ['a', 'a', 'b'], ['a', 'b', 'a'], ['b', 'a', 'a'], ['a', 'b', 'c'], ['a', 'a', 'a']]
    if c.thorough:
        shapes += [['a', 'b', 'a', 'b'], ['a', 'b', 'b', 'a'], ['a', 'a', 'b', 'b']]
    for keys in shapes:
        for cuts in ([len(keys)], [1, len(keys) - 1], [0, len(keys)]) if len(keys) > 1 else ([1], [0, 1]):
            same = [False, True] if len(keys) == 2 else [False]
            for tie in same:
                rows = [rec(i, k, word('p', ALNUM) if tie else None) for i, k in enumerate(keys)]
                bs, n = [], 0
                for q in cuts:
                    bs.append(batch(FULL, rows[n:n + q]))
                    n += q
                for strat in ('overwrite_with_latest', 'append_only'):
                    def run():
                        sc = Scene(w, conf={STRAT: strat, PREC: 'ts'})
                        mg = sc.struct('RecordMerger', {'HudiConfigs': sc.conf})
                        return sc.e, sc.run(m(), [mg, FULL, L(bs)])
                    c.outcomes('merger', '%s: keys %s in batches %s%s' % (strat, ''.join(keys), cuts, ' with equal precombine' if tie else ''), run,
                               judge_latest(rows) if strat[0] == 'o' else judge_all(rows))
    # keys that look odd, and missing precombine values
    for nm, rows in (('empty keys', [rec(0, ''), rec(1, ''), rec(2, 'a')]), ('keys with blanks', [rec(0, ' a'), rec(1, 'a'), rec(2, 'a ')]),
                     ('keys in different case', [rec(0, 'K'), rec(1, 'k'), rec(2, 'K')]), ('keys with a common prefix', [rec(0, 'k:1'), rec(1, 'k:1,j:2'), rec(2, 'k:1,j:3')]),
                     ('numbers as keys', [rec(0, '1'), rec(1, '01'), rec(2, '1.0')]), ('keys with NUL and other characters', [rec(0, 'a\0b'), rec(1, 'a'), rec(2, 'é\U0001f600')]),
                     ('no value in the first', [rec(0, 'a', NULL), rec(1, 'a')]), ('no value in the last', [rec(0, 'a'), rec(1, 'a', NULL)]), ('no values', [rec(0, 'a', NULL), rec(1, 'a', NULL)]),
                     ('no value between values', [rec(0, 'a'), rec(1, 'a', NULL), rec(2, 'a')]), ('no value but the first', [rec(0, 'a'), rec(1, 'a', NULL), rec(2, 'a', NULL)]),
                     ('no value of another key', [rec(0, 'a'), rec(1, 'b', NULL), rec(2, 'a')])):
        for cut in (0, 1, len(rows)):
            for strat in ('overwrite_with_latest', 'append_only'):
                def run():
                    sc = Scene(w, conf={STRAT: strat, PREC: 'ts'})
                    return sc.e, sc.run(m(), [sc.struct('RecordMerger', {'HudiConfigs': sc.conf}), FULL, L([batch(FULL, rows[:cut]), batch(FULL, rows[cut:])])])
                c.outcomes('merger', '%s: %s, %d in the first batch' % (strat, nm, cut), run, judge_latest(rows) if strat[0] == 'o' else judge_all(rows))
    for strat in ('overwrite_with_latest', 'append_only'):
        for bs in ([], [batch(FULL, [])]):
            def run():
                sc = Scene(w, conf={STRAT: strat, PREC: 'ts'})
                return sc.e, sc.run(m(), [sc.struct('RecordMerger', {'HudiConfigs': sc.conf}), FULL, L(bs)])
            c.outcomes('merger', '%s: %d empty batches' % (strat, len(bs)), run, judge_all([]))

    # ---- which strategy applies
    base = base_name(word('f', UUID), ts('t0'))
    lg = [log_name(word('f', UUID), ts('t0'), 1, 'x'), log_name(word('f', UUID), ts('t0'), 2, 'y')]
    r0, r1, r2, r3 = rec(0, 'a'), rec(1, 'a'), rec(2, 'b'), rec(3, 'a')
    for strat in (None, 'append_only', 'overwrite_with_latest', 'APPEND_ONLY'):
        for pre in (None, 'ts'):
            for pop in (None, 'true', 'false'):
                conf = {k: v for k, v in ((STRAT, strat), (PREC, pre), (POP, pop)) if v}
                latest = strat == 'overwrite_with_latest' or strat is None and pre is not None and pop != 'false'
                if latest and pre is None:
                    continue  # refused when the table is opened (C16)
                if latest and pop == 'false':
                    continue

                def run():
                    sc = Scene(w, conf=conf, parquet={base: batch(FULL, [r0])}, logs={lg[0]: log_block(ts('b1'), [batch(FULL, [r1])])})
                    st, fs = slice_of(sc, base, lg[:1])
                    return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
                c.outcomes('strategy', 'strategy=%s precombine=%s populated=%s' % (strat, pre, pop), run, judge_latest([r0, r1]) if latest else judge_all([r0, r1]))
    # options that have nothing to do with it
    for pre in (None, 'ts'):
        for conf in ({'hoodie.table.recordkey.fields': 'v'}, {'hoodie.table.type': 'COPY_ON_WRITE'}, {'hoodie.table.type': 'MERGE_ON_READ'}, {'hoodie.table.partition.fields': 'p'}, {'hoodie.table.name': 'n'},
                     {'hoodie.table.version': '5'}, {'hoodie.table.version': '6'}, {'hoodie.table.base.file.format': 'parquet'}, {'hoodie.table.keygenerator.class': 'k'}, {'hoodie.table.checksum': '1'},
                     {'hoodie.table.timeline.timezone': 'local'}, {'hoodie.datasource.write.drop.partition.columns': 'false'}, {'hoodie.read.use.read_optimized.mode': 'false'}):
            def run():
                sc = Scene(w, conf={**conf, **({PREC: pre} if pre else {})}, parquet={base: batch(FULL, [r0])}, logs={lg[0]: log_block(ts('b1'), [batch(FULL, [r1])])})
                st, fs = slice_of(sc, base, lg[:1])
                return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
            c.outcomes('strategy', 'precombine=%s, %s' % (pre, conf), run, judge_latest([r0, r1]) if pre else judge_all([r0, r1]))
    # log records that do not fit the schema of the base file are not passed over
    for nm, sch in (('without a column', schema(*[(n, U8) for n in META_COLS + ['ts']])), ('with another column', schema(*[(n, U8) for n in META_COLS + ['ts', 'v', 'x']])), ('without columns', schema())):
        for strat in ('overwrite_with_latest', 'append_only'):
            def run():
                n = len(sch.args[0].items)
                sc = Scene(w, conf={STRAT: strat, PREC: 'ts'}, parquet={base: batch(FULL, [r0])}, logs={lg[0]: log_block(ts('b1'), [batch(sch, [(list(r2) + [C('y')])[:n]])])})
                st, fs = slice_of(sc, base, lg[:1])
                return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)

            def j(s, v):
                if is_err(v):
                    return None
                rs = rows_of(unwrap(v))
                need(rs is not None, 'rows of %s' % v)
                return None if len(rs) == 2 else ('a log record %s is passed over' % nm, v)
            c.outcomes('file-slice', 'log records %s, %s' % (nm, strat), run, j)
    # columns are matched by name
    for nm, perm in (('last first', lambda r: r[-1:] + r[:-1]), ('reversed', lambda r: r[::-1]), ('values swapped', lambda r: r[:-2] + r[:-3:-1])):
        names = META_COLS + ['ts', 'v']
        for strat, jd in (('overwrite_with_latest', judge_latest), ('append_only', judge_all)):
            def run():
                sc = Scene(w, conf={STRAT: strat, PREC: 'ts'}, parquet={base: batch(FULL, [r0])}, logs={lg[0]: log_block(ts('b1'), [batch(schema(*[(n, U8) for n in perm(names)]), [perm(list(r2))])])})
                st, fs = slice_of(sc, base, lg[:1])
                return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
            c.outcomes('file-slice', 'log records with the columns %s, %s' % (nm, strat), run, jd([r0, r2]))

    # ---- every file, block and batch takes part
    combos = [
        ('two log files', [r0], [[[[r1]]], [[[r2]]]]),
        ('two blocks', [r0], [[[[r1]], [[r2]]]]),
        ('two batches', [r0], [[[[r1], [r2]]]]),
        ('two rows', [r0], [[[[r1, r2]]]]),
        ('four batches', [], [[[[r1], [r2], [rec(5, 'c')], [rec(6, 'd')]]]]),
        ('four blocks', [], [[[[r1]], [[r2]], [[rec(5, 'c')]], [[rec(6, 'd')]]]]),
        ('empty batches between', [r0], [[[[], [r1], [], [r2]]]]),
        ('empty key', [rec(7, '')], [[[[rec(8, ''), rec(9, 'a')]]]]),
        ('no precombine value in the log', [r0], [[[[rec(8, 'a', NULL), rec(9, 'b', NULL)]]]]),
        ('no precombine value in the base file', [rec(8, 'a', NULL)], [[[[r1]]]]),
        ('empty base file', [], [[[[r1, r2]]]]),
        ('empty log file', [r0, r2], [[]]),
        ('empty block', [r0], [[[[]]]]),
        ('second file newer', [r0], [[[[r1]]], [[[r3]]]]),
    ]
    for name, brs, files in combos:
        rows = list(brs)
        logs = {}
        for l, blocks in zip(lg, files):
            ch = []
            for n, bl in enumerate(blocks):
                ch += log_block(ts('b%s%d' % (l.args[-1].args[0] if isinstance(l.args[-1], T) else '', n)), [batch(FULL, b) for b in bl])
                rows += [r for b in bl for r in b]
            logs[l] = ch
        for strat in ('overwrite_with_latest', 'append_only'):
            def run():
                sc = Scene(w, conf={STRAT: strat, PREC: 'ts'}, parquet={base: batch(FULL, brs)}, logs=logs)
                st, fs = slice_of(sc, base, lg[:len(files)])
                return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
            c.outcomes('file-slice', '%s, %s' % (name, strat), run, judge_latest(rows) if strat[0] == 'o' else judge_all(rows))

    # ---- the order of rows by columns
    for k in (1, 2):
        cs = [[word('%s%d' % (n, i), S.DIGITS) for i in range(3)] for n in 'xy'[:k]]
        for desc in (False, True):
            for fn in ('try_lexsort_to_indices', 'lexsort_to_indices'):
                def run():
                    sc = Scene(w)
                    return sc.e, sc.run('hudi_core::util::arrow::' + fn, [L([T('col', L(x), U8) for x in cs]), C(desc)])

                def j(s, v):
                    if is_err(v):
                        return 'sorting fails: %s' % v, v
                    ix = items(unwrap(v) if is_ok(v) else v)
                    if sorted(i.v for i in ix) != [0, 1, 2]:
                        return 'the rows %s' % v, v
                    for y in completions(s, [(x[a], x[b]) for x in cs for a in range(3) for b in range(a)]):
                        for a, b in zip(ix, ix[1:]):
                            ms = [s.facts.get_cmp(x[a.v], x[b.v]) if y is None else (LT if lt(y, x[a.v], x[b.v]) else GT if lt(y, x[b.v], x[a.v]) else EQ) for x in cs]
                            m = next((m for m in ms if m != EQ), EQ)
                            if m == (LT if desc else GT):
                                return 'row %s before row %s, %s, where %s' % (a, b, 'descending' if desc else 'ascending', describe(y, [z for x in cs for z in x])), v
                    return None
                c.outcomes('sorting', '%s of %d columns, %s' % (fn, k, 'descending' if desc else 'ascending'), run, j)

    # ---- configured strategies are told apart by name
    for s_, want in (('append_only', 'AppendOnly'), ('overwrite_with_latest', 'OverwriteWithLatest'), ('Append_Only', 'AppendOnly'), ('latest', None), ('', None)):
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('RecordMergeStrategyValue', 'from_str', 'FromStr'), [C(s_)])
        c.outcomes('name', repr(s_), run, lambda s, v: None if (is_err(v) if want is None else is_ok(v) and variant(unwrap(v)) == want) else ('%r is %s' % (s_, v), v))
    c.floor('merger', 44)
    c.floor('strategy', 12)
    c.floor('file-slice', 16)
    c.also('c30', 'file-slice', 'one-read')
