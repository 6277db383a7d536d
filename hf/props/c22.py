"""Abstract interpretation of get_file_slices_splits and get_file_slices_splits_as_of for every number of file slices up to
nine and every n up to eleven, and the largest n: every slice of the snapshot has to be in exactly one part, no part
empty, at most max(n, 1) parts."""
from .tables import *


def check(c):
    w = c.w
    A = ts('A')
    NS = list(range(0, 12)) + [2**32, 2**63, 2**64 - 1] if c.thorough else (0, 1, 2, 3, 4, 5, 7, 9, 11, 2**32, 2**63, 2**64 - 1)
    MS = range(0, 10) if c.thorough else (0, 1, 2, 3, 4, 5, 7, 9)

    x = word('x', UUID)

    def case(m, twins):
        if twins:
            gs = [Group(x, 'p%d' % i).add(A, n='1') for i in range(m)]
            for i, g in enumerate(gs):
                g.name = 'g%d' % i
            return gs, Tab(w, gs, [(A, 'Commit', [(g, 0) for g in gs], [])], conf={'hoodie.table.partition.fields': 'p'}, sch=schema(('p', U8)))
        gs = [Group('g%d' % i).add(A) for i in range(m)]
        return gs, Tab(w, gs, [(A, 'Commit', [(g, 0) for g in gs], [])])

    def judge(m, n):
        def j(s, v):
            if is_err(v):
                return 'the query fails: %s' % v.fs[0], v
            ps = items(unwrap(v))
            need(ps is not None, 'parts %s' % v)
            ids = []
            for p in ps:
                xs = items(p)
                need(xs is not None, 'part %s' % p)
                if not xs:
                    return 'an empty part', v
                ids += [slice_id(x) for x in xs]
            if len(ps) > max(n, 1):
                return '%d parts of at most %d' % (len(ps), max(n, 1)), C(len(ps))
            if len(set(ids)) != len(ids):
                return 'a file slice is in two parts', v
            if len(ids) != m:
                return '%d of %d file slices' % (len(ids), m), v
            return None
        return j
    for m, twins in [(m, False) for m in MS] + [(m, True) for m in (2, 3, 4)]:
        for n in NS:
            for fn in ('get_file_slices_splits', 'get_file_slices_splits_as_of'):
                def run():
                    if m == 0:
                        B = ts('B')
                        g = Group('g').add(A)
                        t = Tab(w, [g], [(A, 'Commit', [(g, 0)], [])] if 'as_of' in fn else [])
                        st = t.start()
                        if 'as_of' in fn:
                            return t.e, t.call(fn, [C(n), B, L([])], start=(t.sc.order(st[0], B, '<', A), st[1]))
                        return t.e, t.call(fn, [C(n), L([])], start=st)
                    gs, t = case(m, twins)
                    start = t.start()
                    if 'as_of' in fn:
                        return t.e, t.call(fn, [C(n), A, L([])], start=start)
                    return t.e, t.call(fn, [C(n), L([])], start=start)
                c.outcomes('splits', '%s: %d slices%s in %d' % (fn, m, ' of one file name' if twins else '', n), run, judge(m, n))
    c.floor('splits', 100)
    c.also('c03', 'snapshot-slices')
