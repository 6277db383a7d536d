"""Abstract interpretation of the timeline loader (the async functions Timeline::new_from_storage and
get_completed_*, with TimelineSelector and Instant beneath them) on directory listings of known shape: a file name is
<word of digits of unknown value> + literal suffix. Every shape a Hudi writer leaves in the metadata directory is an
obligation: it must be kept exactly if it is a completed commit, deltacommit or replacecommit. Listings of several names
leave the order of their times open; on every path the loaded instants must be in ascending order of time and none lost.
The latest commit time is compared with the last instant for timelines of 0 to 3 instants."""
import itertools

from .common import *

# shape of a name after the timestamp -> action of the completed instant, or None
SHAPES = {
    '.commit': 'Commit', '.deltacommit': 'DeltaCommit', '.replacecommit': 'ReplaceCommit',
    '.commit.requested': None, '.inflight': None, '.commit.inflight': None, '.deltacommit.requested': None,
    '.deltacommit.inflight': None, '.replacecommit.requested': None, '.replacecommit.inflight': None,
    '.clean': None, '.clean.requested': None, '.clean.inflight': None, '.rollback': None, '.rollback.requested': None,
    '.rollback.inflight': None, '.savepoint': None, '.savepoint.inflight': None, '.compaction.requested': None,
    '.compaction.inflight': None, '.compaction': None, '.logcompaction.requested': None, '.logcompaction.inflight': None,
    '.restore': None, '.restore.inflight': None, '.indexing': None, '.indexing.inflight': None, '.requested': None,
    '.commit.crc': None, '.commit.tmp': None, '.commit.requested.crc': None, '.commit.completed': None, '.Commit': None,
    '.COMMIT': None, '.commits': None, '.commi': None, '': None, '.': None, '.cluster': None, '.deltacommit.commit': None,
}
FOREIGN = ['hoodie.properties', 'hoodie.properties.backup', '.hoodie.properties.crc', 'archived', '.aux', 'commit',
           '.commit', 'README', 'a.b.c', '']
ONE = [('get_completed_commits', 'Commit'), ('get_completed_deltacommits', 'DeltaCommit'), ('get_completed_replacecommits', 'ReplaceCommit')]


def instants_of(v):
    v = unwrap(v)
    if isinstance(v, Adt) and v.field('completed_commits') is not None:
        v = v.field('completed_commits')
    return items(v)


def is_instant(x, t, act):
    return fld(x, 'timestamp') == t and variant(fld(x, 'action')) == act and variant(fld(x, 'state')) == 'Completed'


def judge(exp):
    """exp: [(timestamp, action)] in any order of time."""
    def j(s, v):
        if is_err(v):
            return 'loading fails'
        got = instants_of(v)
        if got is None:
            raise Undecided('not a list: %s' % v)
        for t, a in exp:
            n = sum(1 for x in got if is_instant(x, t, a))
            if n != 1:
                return '%s instant %s %s' % ('completed' if n == 0 else 'one', a, 'is left out' if n == 0 else 'appears %d times' % n)
        if len(got) != len(exp):
            return 'an instant which is not a completed commit is included: %s' % [
                (variant(fld(x, 'action')), variant(fld(x, 'state'))) for x in got]
        for a, b in zip(got, got[1:]):
            if not before(s, tm(fld(a, 'timestamp')), tm(fld(b, 'timestamp'))) and not before(s, fld(a, 'timestamp'), fld(b, 'timestamp')):
                return 'instants are not in ascending order of time: %s before %s' % (fld(a, 'timestamp'), fld(b, 'timestamp'))
        return None
    return j


def check(c):
    w = c.w

    def load(files, ordering=None):
        sc = Scene(w, files={META: files})
        st = St()
        if ordering:
            st = sc.order(st, *ordering)
        return sc.e, sc.run('Timeline::new_from_storage', [sc.conf, omap({})], st)

    def listed(fn, files, desc=FALSE, ordering=None):
        sc = Scene(w, files={META: files})
        st = St()
        if ordering:
            st = sc.order(st, *ordering)
        return sc.e, sc.run('Timeline::' + fn, [sc.timeline([]), desc], st)

    for n in (17, 14):
        for suf, act in SHAPES.items():
            t = ts('t', n)
            c.outcomes('timeline-membership', '<%d digits>%s' % (n, suf), lambda: load([cat(t, suf)] if suf else [t]),
                       judge([(t, act)] if act else []))
    for f in FOREIGN:
        c.outcomes('foreign-file', f or '(empty name)', lambda: load([f]), judge([]))
    x, y = word('x', S.ALNUM), word('y', S.ALNUM)
    c.outcomes('foreign-file', '<word>', lambda: load([x]), judge([]))
    t1, t2, t3 = ts('t1'), ts('t2'), ts('t3')
    c.outcomes('order', 'two instants', lambda: load([cat(t1, '.commit'), cat(t2, '.deltacommit')]),
               judge([(t1, 'Commit'), (t2, 'DeltaCommit')]), least=2)
    c.outcomes('order', 'three instants', lambda: load([cat(t1, '.replacecommit'), cat(t2, '.commit'), cat(t3, '.deltacommit')]),
               judge([(t1, 'ReplaceCommit'), (t2, 'Commit'), (t3, 'DeltaCommit')]), least=6)
    c.outcomes('order', 'mixed directory', lambda: load(
        [cat(t1, '.commit.requested'), cat(t1, '.inflight'), cat(t2, '.deltacommit.inflight'), 'hoodie.properties', cat(t1, '.commit'),
         cat(t3, '.replacecommit'), cat(t2, '.deltacommit.requested'), cat(t3, '.replacecommit.inflight')]),
        judge([(t1, 'Commit'), (t3, 'ReplaceCommit')]), least=2)
    # known times of both precisions, in every arrangement of the listing
    known = [('20240315123455', '.commit', 'Commit'), ('20240315123455999', '.deltacommit', 'DeltaCommit'), ('20240315123456', '.replacecommit', 'ReplaceCommit'), ('20240315123456001', '.commit', 'Commit')]
    for perm in itertools.permutations(range(4)):
        def run():
            sc = Scene(w, files={META: [known[i][0] + known[i][1] for i in perm]})
            del sc.e.cuts[PD]
            sc.e.local = lambda x: [0]
            return sc.e, sc.run('Timeline::new_from_storage', [sc.conf, omap({})])

        def jk(s, v):
            if is_err(v):
                return 'loading fails'
            got = [fld(x, 'timestamp') for x in instants_of(v)]
            return None if got == [C(k[0]) for k in known] else ('instants %s are not in ascending order' % got, v)
        c.outcomes('order', 'seconds and milliseconds, listed %s' % (perm,), run, jk)
    for desc in (FALSE, TRUE):
        for fn, act in ONE:
            k = '%s(desc=%s)' % (fn, desc.v)
            for suf, a in SHAPES.items():
                t = ts('t')
                c.outcomes('action-listing', '%s %s' % (k, suf), lambda: listed(fn, [cat(t, suf)] if suf else [t], desc),
                           judge([(t, a)] if a == act else []))
            suf = [s for s, a in SHAPES.items() if a == act][0]

            def jd(s, v):
                if desc.v and is_ok(v):
                    got = instants_of(v)
                    v = ok(L(list(reversed(got)))) if got is not None else v
                return judge([(t1, act), (t2, act)])(s, v)
            c.outcomes('action-listing', k + ' order', lambda: listed(fn, [cat(t1, suf), cat(t2, suf)], desc), jd, least=2)

    # the listing of clustering commits: replacecommits whose metadata says that clustering wrote them
    OPS = {'CLUSTER': True, 'cluster': True, 'UPSERT': False, 'BULK_INSERT': False, 'INSERT_OVERWRITE': False, 'INSERT_OVERWRITE_TABLE': False,
           'DELETE_PARTITION': False, 'COMPACT': False, 'UNKNOWN': False}
    for desc in (FALSE, TRUE):
        for o1, y1 in OPS.items():
            o2 = 'CLUSTER' if not y1 else 'INSERT_OVERWRITE'

            def clustering():
                data = {cat('.hoodie/', t1, '.replacecommit'): T('json', jval({'operationType': o1})),
                        cat('.hoodie/', t2, '.replacecommit'): T('json', jval({'operationType': o2}))}
                sc = Scene(w, files={META: [cat(t1, '.replacecommit'), cat(t2, '.replacecommit'), cat(t3, '.commit'), cat(t3, '.inflight')]}, data=data)
                return sc.e, sc.run('Timeline::get_completed_clustering_commits', [sc.timeline([]), desc], sc.order(St(), t1, '<', t2))
            c.outcomes('clustering-listing', '%s and %s (desc=%s)' % (o1, o2, desc.v), clustering, judge([(t1 if y1 else t2, 'ReplaceCommit')]))

    for n in range(4):
        tl = [ts('l%d' % i) for i in range(n)]
        acts = ['Commit', 'ReplaceCommit', 'DeltaCommit']

        def run():
            sc = Scene(w)
            return sc.e, sc.run('Timeline::get_latest_commit_timestamp', [sc.timeline([sc.instant(t, a) for t, a in zip(tl, acts)])])

        def jl(s, v):
            if n == 0:
                return None if is_err(v) else 'an empty timeline has a latest commit: %s' % v
            return None if is_ok(v) and v.fs[0] == tl[-1] else 'not the last instant: %s' % v
        c.outcomes('latest', '%d instants' % n, run, jl)
    c.floor('timeline-membership', 78)
    c.floor('foreign-file', 11)
    c.floor('order', 3)
    c.floor('action-listing', 234)
    c.floor('clustering-listing', 18)
    c.floor('latest', 4)
    c.also('c27', 'timeline')
    c.also('c20', 'instant-name', 'malformed-instant-name')
