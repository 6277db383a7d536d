"""Abstract interpretation of every query of Table on tables whose directory holds data of instants that never completed:
base files and file groups, log files and log blocks, with and without the instants' requested and inflight files in the
timeline, which is loaded from its directory. Data of instants later than the last completed one must be left out by every
query that reads the latest state, and data that no commit's metadata names by every incremental one; data of instants
before the last completed one must be left out too (where hudi-rs does not, the finding is listed by scenario)."""
from .tables import *
from .c04 import EPOCH

INFLIGHT = {'Commit': ('.commit.requested', '.inflight'), 'DeltaCommit': ('.deltacommit.requested', '.deltacommit.inflight'), 'ReplaceCommit': ('.replacecommit.requested', '.replacecommit.inflight')}
PART = {'hoodie.table.partition.fields': 'p'}


def check(c):
    w = c.w
    t1, t2, t3, u, S0, T0 = [ts(x) for x in ('t1', 't2', 't3', 'u', 'S', 'T')]
    flat = lambda v: [y for x in items(v) for y in items(x)]

    def tables():
        """(name, groups, commits, file slices that are committed, log blocks that are not, configuration)"""
        z = Group('z').add(t2)
        last = (t2, 'Commit', [(z, 0)], [])
        g = Group('f').add(t1).add(u)
        yield 'a new version of a file group', [g, z], [(t1, 'Commit', [(g, 0)], []), last], 'Commit'
        g = Group('f').add(u).add(t1)
        yield 'a new version of a file group, listed first', [g, z], [(t1, 'Commit', [(g, 1)], []), last], 'Commit'
        g, h = Group('f').add(t1), Group('h').add(u)
        yield 'a new file group', [g, h, z], [(t1, 'Commit', [(g, 0)], []), last], 'Commit'
        g, h, y = Group('f', 'a').add(t1).add(u), Group('h', 'b').add(u), Group('y', 'a').add(t2)
        yield 'a new partition', [g, h, y], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(y, 0)], [])], 'Commit'
        g, h = Group('f').add(t1).add(t2), Group('h').add(u)
        yield 'replaced file groups', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'Commit', [(g, 1)], [])], 'ReplaceCommit'
        g, h = Group('f').add(t1).add(u), Group('h').add(t2)
        yield 'a file group replaced later', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])], 'Commit'
        g = Group('f').add(t1, logs=1)
        g.blocks = {0: {0: [(t1, 'a'), (t2, 'b'), (u, 'x')]}}
        yield 'a block of a log file', [g], [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'DeltaCommit', [(g, 0)], [])], 'DeltaCommit'
        g = Group('f').add(t1, logs=2)
        g.blocks = {0: {0: [(t2, 'b')], 1: [(u, 'x'), (u, 'y')]}}
        yield 'a log file', [g], [(t1, 'DeltaCommit', [(g, 0, [0])], []), (t2, 'DeltaCommit', [(g, 0, [0])], [])], 'DeltaCommit'
        g = Group('f').add(t1, logs=1).add(u, logs=1)
        g.blocks = {0: {0: [(t2, 'b')]}, 1: {0: [(u, 'x')]}}
        yield 'a compacted version', [g], [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'DeltaCommit', [(g, 0)], [])], 'Commit'

    def committed(tab, s, T_):
        """The file slices of completed instants as of a time."""
        gone, out = tab.replaced(s, T_), []
        for g in tab.groups:
            best = None
            for i, (t, b, ls) in enumerate(g.versions):
                if t != u and leq(s, t, T_) and (best is None or lt(s, g.versions[best][0], t)):
                    best = i
            if best is not None and g not in gone:
                out.append((g, best))
        return out

    def names(tab, s, slices, lo, hi):
        inr = lambda a: (lo is None or lt(s, lo, a)) and leq(s, a, hi)
        out = []
        for g, i in slices:
            if inr(g.versions[i][0]):
                out.append('row %s%d' % (g.name, i))
            for li in getattr(g, 'blocks', {}).get(i, {}).values():
                out += ['row %s' % nm for bt, nm in li if bt != u and inr(bt)]
        return out

    def built(gs, cm, act, shown, conf):
        tab = rows_tab(w, gs, cm, conf=conf)
        tab.sc.files[C('.hoodie')] = [cat(t, SUFFIX[a]) for t, a, _, _ in cm] + [cat(u, x) for x in INFLIGHT[act][:shown]]
        return tab

    def start(tab, orders):
        st = St()
        for a, b in orders:
            st = tab.sc.order(st, a, '<', b)
            need(st is not None, 'order')
        for a, b in pairs(tab.groups):
            if a.fid != b.fid:
                st.facts.set_cmp(a.fid, b.fid, LT | GT)
        for t in (t1, t2, u, S0, T0):
            st.facts.set_cmp(EPOCH, t, LT)
        rs = tab.sc.run('Timeline::new_from_storage', [tab.sc.conf, omap({})], st)
        need(len(rs) == 1 and is_ok(tab.e.deep(rs[0][0], rs[0][1])), '%d timelines' % len(rs))
        st, tl = rs[0][0], tab.e.deep(rs[0][0], rs[0][1]).fs[0]
        st, fv = tab.sc.fsview(st)
        return st, tab.sc.struct('table::Table', {'HudiConfigs': tab.sc.conf, 'HashMap<': omap({}), 'timeline::Timeline': tl, 'FileSystemView': fv})

    LATER, AMID = [(t1, t2), (t2, u)], [(t1, u), (u, t2)]
    for rule, orders in (('later', LATER), ('amid', AMID)):
        for name, gs, cm, act in tables():
            conf = PART if any(g.part != C('') for g in gs) else {}
            for shown in (0, 1, 2) if rule == 'later' else (1,):
                def go(fn, args, jd, more=()):
                    tab = built(gs, cm, act, shown, conf)
                    what = '%s: %s, %d of its files in the timeline' % (fn, name, shown)
                    c.outcomes(rule, what, lambda: (tab.e, tab.call(fn, args, start=start(tab, orders + list(more)))), jd(tab))
                at = lambda T_: lambda tab: judge_slices(tab, lambda s: committed(tab, s, T_), [])
                rows = lambda lo, hi: lambda tab: judge_rows(lambda s: names(tab, s, committed(tab, s, hi), lo, hi), [])
                go('get_file_slices', [L([])], at(t2))
                go('read_snapshot', [L([])], rows(None, t2))
                go('read_snapshot_as_of', [t1, L([])], rows(None, t1))
                if rule == 'later':
                    go('get_file_slices_splits', [C(2), L([])], lambda tab: judge_slices(tab, lambda s: committed(tab, s, t2), [], flat))
                    go('get_file_slices_as_of', [t2, L([])], at(t2))
                    go('read_snapshot_as_of', [t2, L([])], rows(None, t2))

                # incremental queries read what the commits name
                def inc(lo, hi):
                    def mkj(tab):
                        def j(s, v):
                            if is_err(v):
                                return 'the query fails: %s' % (v.fs[0],), v
                            xs = items(unwrap(v))
                            need(xs is not None, 'not a list of file slices: %s' % v)
                            ids, want = [slice_id(x)[:3] for x in xs], [want_id(g, i) for g, i in between(tab, s, lo, hi)]
                            for x in ids:
                                if x not in want or ids.count(x) > 1:
                                    return 'file slice %s does not belong to the answer' % short(x), v
                            for x in want:
                                if x not in ids:
                                    return 'file slice %s is missing' % short(x), v
                            named = [l for t, act, ws, _ in tab.commits for g, i, *only in ws for k, l in enumerate(g.versions[i][2]) if not only or k in only[0]]
                            for x in xs:
                                for l in items(fld(x, 'log_files')):
                                    if log_fname(l) not in named:
                                        return 'log file %s, which no commit names, belongs to the answer' % log_fname(l), v
                            return None
                        return j
                    return mkj
                go('get_file_slices_between', [NONE, NONE], inc(None, t2))
                go('get_file_slices_between', [some(t1), NONE], inc(t1, t2))
                go('read_incremental_records', [S0, NONE], lambda tab: judge_rows(lambda s: names(tab, s, between(tab, s, S0, t2), S0, t2), []), [(S0, t1)])
    c.floor('later', 200)
    c.floor('amid', 45)
