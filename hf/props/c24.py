"""Abstract interpretation of two queries in sequence on one table handle: for every pair of queries from a set that
covers all entry points, filters and times, every path of the second is followed from every state the first can leave
behind (caches included: the heap is carried over), and its answer has to be the one the table's description gives for
that query alone. Repeated with a first query that fails at any storage operation, with a clone of the handle, and with
files added to or removed from the storage in between; and with another query run in full just before each operation of the
first on shared state (the concurrent map of the handle)."""
from .tables import *
from .c03 import filters, PART

SCH = schema(*[(n, U8) for n in META_COLS + ['p', 'v']])
NOF = L([])


def check(c):
    w = c.w
    t1, t2, t3, t4, T0 = [ts(x) for x in ('t1', 't2', 't3', 't4', 'T')]

    def table(a2=True, b=True, cc=True, d=False, alog=False, a3=False):
        """Partitions a (two versions), b (replaced at t3), c (new at t2, with a log file), d."""
        f = Group('f', 'a').add(t1, logs=1 if alog else 0)
        if a2:
            f.add(t2)
        if a3:
            f.add(t3)
        h, i, k, m = Group('h', 'b').add(t1), Group('i', 'c').add(t2, logs=1), Group('k', 'b').add(t3), Group('m', 'd').add(t1)
        i.blocks = {0: {0: [(t2, 'li'), (t3, 'lj')]}}
        if alog:
            f.blocks = {0: {0: [(t1, 'lf')]}}
        gs = [f] + ([h, k] if b else []) + ([i] if cc else []) + ([m] if d else [])
        cm = [(t1, 'Commit', [(f, 0)], []), (t2, 'DeltaCommit', [(i, 0)], []), (t3, 'ReplaceCommit', [(k, 0)], [h])]
        return rows_tab(w, gs, cm, conf=PART, sch=SCH, after=C('19700101000000000'), distinct=[[g.fid for g in (f, h, i, k, m)]])

    FILT = {'': (NOF, lambda g: True), ' p = a': (filters(('p', '=', 'a')), lambda g: g.part.v == 'a'), ' p != a': (filters(('p', '!=', 'a')), lambda g: g.part.v != 'a'),
            ' p = b': (filters(('p', '=', 'b')), lambda g: g.part.v == 'b'), ' p = x': (filters(('p', '=', 'x')), lambda g: False), ' p >= b': (filters(('p', '>=', 'b')), lambda g: g.part.v >= 'b')}
    flat = lambda v: [y for x in items(v) for y in items(x)]

    def rows(tab, sl, S0, E0):
        """Names of the rows that file slices have in (S0, E0]."""
        def f(s):
            out = []
            for g, i in sl(s):
                t = g.versions[i][0]
                ok_ = lambda x: (S0 is None or lt(s, S0, x)) and leq(s, x, E0)
                if ok_(t):
                    out.append('row %s%d' % (g.name, i))
                for li in getattr(g, 'blocks', {}).get(i, {}).values():
                    out += ['row %s' % nm for bt, nm in li if ok_(bt)]
            return out
        return f

    def query(kind, T_, fl):
        """(name, function, arguments, judge for a table description)."""
        fv, keep = FILT[fl]
        pp = pairs([t1, t2, t3, T0])
        if kind == 'between':
            return '%s(%s)' % (kind, T_), 'get_file_slices_between', [some(t1), some(T_)], lambda tab: judge_slices(tab, lambda s: between(tab, s, t1, T_), pp)
        if kind == 'incremental':
            return '%s(%s)' % (kind, T_), 'read_incremental_records', [t1, some(T_)], lambda tab: judge_rows(rows(tab, lambda s: between(tab, s, t1, T_), t1, T_), pp)
        last = T_ is None
        X = t3 if last else T_
        n = '%s(%s%s)' % (kind, 'latest' if last else T_, fl)
        a = ([] if last else [T_]) + [fv]
        sl = lambda tab: lambda s: tab.slices_as_of(s, X, keep)
        suf = '' if last else '_as_of'
        if kind == 'slices':
            return n, 'get_file_slices' + suf, a, lambda tab: judge_slices(tab, sl(tab), pp)
        if kind == 'splits':
            return n, 'get_file_slices_splits' + suf, [C(2)] + a, lambda tab: judge_slices(tab, sl(tab), pp, flat)
        return n, 'read_snapshot' + suf, a, lambda tab: judge_rows(rows(tab, sl(tab), None, X), pp)

    FIRST = [query('slices', None, ''), query('slices', None, ' p = a'), query('slices', t1, ''), query('slices', t1, ' p = b'), query('slices', t2, ' p != a'), query('slices', T0, ''),
             query('slices', None, ' p = x'), query('splits', None, ''), query('read', None, ''), query('read', t1, ' p = a'), query('between', t3, ''), query('incremental', t3, '')]
    SECOND = FIRST + [query('slices', t2, ' p >= b'), query('splits', t1, ' p = a'), query('read', t2, ''), query('read', T0, ' p = b'), query('slices', t1, ' p != a'),
                      query('between', t2, ''), query('incremental', t2, '')]
    ids = {}
    for q in SECOND:
        ids.setdefault(q[0], q)

    def seq(tab, first, second, fail=False, then=None, clone=False):
        def run():
            st, h = tab.start()
            st.facts.set_cmp(C('19700101000000000'), T0, LT)
            h1 = h
            if clone:
                (st, h1), = tab.sc.run('<hudi_core::table::Table as core::clone::Clone>::clone', [h], st)
            was = tab.sc.fail
            tab.sc.fail = fail
            rs = tab.sc.run('table::Table::' + first[1], [h1] + first[2], st)
            tab.sc.fail = was
            keep = {k: getattr(tab.sc, k) for k in ('files', 'dirs', 'data', 'parquet', 'logs')}
            if then is not None:
                for k in keep:
                    setattr(tab.sc, k, getattr(then.sc, k))
            out = []
            for s, v in rs:
                out += tab.sc.run('table::Table::' + second[1], [h] + second[2], s)
            for k, x in keep.items():
                setattr(tab.sc, k, x)
            return tab.e, out
        return run
    for a in FIRST:
        for b in ids.values():
            tab = table()
            c.outcomes('sequence', '%s, then %s' % (a[0], b[0]), seq(tab, a, b), b[3](tab))
    some_ = [ids[n] for n in ids if n.startswith(('slices(latest)', 'slices(<t1>', 'read(latest', 'slices(latest p = a)', 'between', 'slices(<t2> p >= b)'))]
    for a in [FIRST[i] for i in (0, 1, 3, 8)]:
        for b in some_:
            tab = table()
            c.outcomes('after-a-failure', '%s failing, then %s' % (a[0], b[0]), seq(tab, a, b, fail=True), b[3](tab))
            tab = table()
            c.outcomes('clone', '%s on a clone, then %s' % (a[0], b[0]), seq(tab, a, b, clone=True), b[3](tab))
    # ---- another query on the handle that runs in full just before the k-th operation of the first on shared state
    def during(tab, first, other, k, fired):
        def run():
            st, h = tab.start()
            st.facts.set_cmp(C('19700101000000000'), T0, LT)

            def before(en, s, name, args):
                if 'DashMap' not in name or name.rsplit('::', 1)[-1] not in SHARED:
                    return None
                n = sum(ev[0] == 'shared' for ev in s.events())
                s.event('shared', C(name))
                if n != k:
                    return None
                fired.append(name)
                was, en.before, stack, en.stack = en.before, None, en.stack, []
                try:
                    return [x for x, _ in en.run('table::Table::' + other[1], [h] + other[2], s)]
                finally:
                    en.before, en.stack = was, stack
            tab.e.before = before
            try:
                return tab.e, tab.sc.run('table::Table::' + first[1], [h] + first[2], st)
            finally:
                tab.e.before = None
        return run
    SHARED = ('iter', 'retain', 'insert', 'get', 'contains_key', 'entry', 'clear', 'remove', 'len', 'is_empty', 'into_iter', 'get_mut', 'iter_mut', 'alter', 'extend')
    alone = [ids[n] for n in ids if n in ('slices(latest)', 'slices(latest p = a)', 'read(latest)', 'slices(<t1> p = b)')]
    others = [ids[n] for n in ids if n in ('slices(latest)', 'slices(latest p = a)', 'slices(latest p = x)', 'slices(<t1> p = b)', 'slices(<t2> p != a)')]
    fired = []
    for a in alone:
        for b in others:
            for k in range(12):
                tab, n = table(), len(fired)
                c.outcomes('interleaved', '%s, during it before operation %d on shared state %s' % (a[0], k, b[0]), during(tab, a, b, k, fired), a[3](tab))
                if len(fired) == n:
                    break
    if not fired:
        c.undec('interleaved', 'operations on shared state', 'none seen')
    # ---- the storage changed in between
    CH = {'a version is added': dict(a3=True), 'a version is cleaned': dict(a2=False), 'a partition appears': dict(d=True), 'a partition disappears': dict(cc=False),
          'a log file is added': dict(alog=True), 'two partitions disappear, one appears': dict(cc=False, b=False, d=True)}
    for key, kw in CH.items():
        for a in [FIRST[i] for i in (0, 1, 2, 6)]:
            for b in [q for q in some_ if q[0].startswith(('slices', 'read'))]:
                tab, new = table(), table(**kw)
                c.outcomes('storage-change', '%s, %s, then %s' % (a[0], key, b[0]), seq(tab, a, b, then=new), b[3](new))
    c.floor('sequence', 200)
    c.floor('after-a-failure', 20)
    c.floor('storage-change', 120)
