"""Abstract interpretation of table listing (Table::get_file_slices_as_of through FileLister and FileGroup) and of the
building of file groups from commit metadata (Table::get_file_slices_between through build_file_groups), on tables of
several partitions, file groups, versions and log files whose ids, tokens and times are words of unknown value, with
files listed in several orders and mixed with files that are none of the table's data. At every commit time the answer
has to consist of exactly the slices the files denote, each with its own base file, exactly its own log files and its
own partition; content that cannot be placed has to fail the query."""
from .tables import *
from .c04 import EPOCH

PF = 'hoodie.table.partition.fields'


def sch_of(*fields):
    return schema(*[(n, U8) for n in META_COLS + ['ts', 'v'] + list(fields)])


def has(part, name):
    return lambda fs: name in fs


def reorder(tab, how):
    for d in tab.files:
        fs = tab.files[d]
        if how == 'reversed':
            fs.reverse()
        elif how == 'logs first':
            fs.sort(key=lambda n: not str(n).startswith("'."))
        elif how == 'interleaved':
            fs[:] = fs[1::2] + fs[::2]


def check(c):
    w = c.w
    t1, t2, t3 = [ts(x) for x in ('t1', 't2', 't3')]
    T0 = ts('T')
    LAY = {'flat': ([C('')], {}, ()), 'partitioned': ([C('p=a'), C('p=b')], {PF: 'p'}, ('p',)), 'unknown partitions': ([cat('p-', word('pa', S.ALNUM)), cat('p-', word('pb', S.ALNUM))], {PF: 'p'}, ('p',)),
           'two levels': ([C('a/x'), C('a/y'), C('b/x')], {PF: 'p,q'}, ('p', 'q'))}

    def groups(parts):
        """File ids shared between partitions, several versions, logs on some of them."""
        out = [Group('f', parts[0]).add(t1, logs=2).add(t2, logs=1), Group('g', parts[0]).add(t2, logs=0)]
        for i, p in enumerate(parts[1:]):
            h = Group('f', p)
            h.name = 'f%d' % (i + 1)
            out.append(h.add(t1, logs=1))
        return out

    def commits(gs, ts_):
        out = []
        for t in ts_:
            wr = [(g, i) for g in gs for i, v in enumerate(g.versions) if v[0] == t]
            if wr:
                out.append((t, 'DeltaCommit' if any(g.versions[i][2] for g, i in wr) else 'Commit', wr, []))
        return out

    def mk_(gs, lay, ts_=(t1, t2, t3), **kw):
        parts, conf, fields = LAY[lay]
        kw.setdefault('distinct', [[token('l' + x) for x in ('x', 'y', 'z')]])
        return Tab(w, gs, commits(gs, ts_), conf=conf, sch=sch_of(*fields), **kw)

    # ---- listing
    for lay, (parts, conf, fields) in LAY.items():
        for how in ('as written', 'reversed', 'logs first', 'interleaved'):
            gs = groups(parts)
            for kind, crc in (('plain', False), ('foreign files', True)):
                ex = {}
                if crc:
                    for g in gs:
                        d = ex.setdefault(g.part, [C('.hoodie_partition_metadata')])
                        d += [cat('.', g.base(0), '.crc'), cat('_temporary')] if len(d) == 1 else []
                        d += [cat('.', g.fid, '_', t1, '.log.1_', word('z', UUID), '.cdc'), cat(g.logs(0)[0], '.crc') if g.logs(0) else C('_SUCCESS')]
                tab = mk_(gs, lay, extra_files=ex)
                reorder(tab, how)
                c.outcomes('listing', '%s, %s, %s' % (lay, how, kind), lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])),
                           judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pairs([t1, t2, T0])), least=3)
    # log files of ten and more versions, of several writers, of one version
    for key, vers in (('versions 1 to 11', [(i, 'x') for i in range(1, 12)]), ('same version, three writers', [(1, 'x'), (1, 'y'), (1, 'z')]), ('versions 2, 1', [(2, 'x'), (1, 'x')])):
        g = Group('f').add(t1)
        g.versions[0][2].extend(log_name(g.fid, t1, v, n) for v, n in vers)
        tab = mk_([g], 'flat')
        c.outcomes('listing', key, lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])),
                   judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pairs([t1, T0])), least=2)
    # three versions, logs on each
    g = Group('f').add(t1, logs=1).add(t2, logs=2).add(t3, logs=3)
    for how in ('as written', 'reversed', 'logs first'):
        tab = mk_([g], 'flat')
        reorder(tab, how)
        c.outcomes('listing', 'three versions with log files, %s' % how, lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])),
                   judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pairs([t1, t2, t3, T0])), least=4)
    # ---- content that cannot be placed fails the query
    def fails(s, v):
        if is_err(v):
            return None
        return 'the query succeeds: %s' % v, v
    for how in ('as written', 'logs first'):
        g = Group('f').add(t1, logs=1)
        other = Group('h')
        distinct = [[t1, t3], [g.fid, other.fid]]
        cases = [('a log file that names an absent base commit', [log_name(g.fid, t3, 1, 'o')], fails),
                 ('two base files of one file group and time', [base_name(g.fid, t1, 'other')], fails),
                 ('a base file without a write token', [cat(g.fid, '_', t1, '.parquet')], fails),
                 ('a base file with four parts', [cat(g.fid, '_', token('1'), '_', t1, '_x.parquet')], fails)]
        for key, ex, j in cases:
            tab = mk_([g], 'flat', extra_files={'': ex}, distinct=distinct)
            reorder(tab, how)
            c.outcomes('unplaceable', '%s, %s' % (key, how), lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])), j)
    for lay, (parts, conf, fields) in LAY.items():
        if lay == 'flat':
            continue
        for at in range(len(parts)):
            gs = groups(parts)
            g = [x for x in gs if x.part == parts[at]][0]
            distinct = [[t1, t2, t3], [x.fid for x in gs[:2]]]
            for key, ex in (('a log file that names an absent base commit', log_name(g.fid, t3, 1, 'o')), ('two base files of one file group and time', base_name(g.fid, t1, 'other')),
                            ('a base file without a write token', cat(g.fid, '_', t1, '.parquet')), ('a base file with four parts', cat(g.fid, '_', token('1'), '_', t1, '_x.parquet'))):
                tab = mk_(gs, lay, extra_files={parts[at]: [ex]}, distinct=distinct + [[token('l' + x) for x in ('x', 'y', 'z')]])
                c.outcomes('unplaceable', '%s, %s, in partition %d' % (key, lay, at), lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])), fails)
    # a file group that has log files only
    g, h = Group('f').add(t1, logs=1), Group('h')
    tab = mk_([g], 'flat', extra_files={'': [log_name(h.fid, t1, 1, 'h')]}, distinct=[[g.fid, h.fid]])

    def keeps(s, v):
        if is_err(v):
            return None
        for x in completions(s, pairs([t1, T0])):
            if leq(x, t1, T0) and not any(h.fid == i for y in items(unwrap(v)) for i in slice_id(y)[:1]):
                return 'the log files of a file group without a base file are silently left out', v
        return None
    c.outcomes('log-only-file-group', 'a file group of log files only, next to one with a base file', lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])), keeps)

    # ---- from commit metadata
    for lay, (parts, conf, fields) in LAY.items():
        gs = groups(parts)
        for S0, key in ((None, 'from the start'), (ts('S'), 'after S')):
            E0 = ts('E')
            tab = mk_(gs, lay, after=EPOCH)
            a = [some(S0) if S0 is not None else NONE, some(E0)]
            c.outcomes('commit-metadata', '%s, %s' % (lay, key), lambda: (tab.e, tab.call('get_file_slices_between', a)),
                       judge_slices(tab, lambda s: between(tab, s, S0, E0), pairs([t1, t2, E0] + ([S0] if S0 is not None else []))), least=3)
    # one slice whose log files come from several commits
    for n in (2, 3):
        g = Group('f').add(t1, logs=n)
        cm = [(t, 'DeltaCommit', [(g, 0, [i])], []) for i, t in enumerate((t1, t2, t3)[:n])]
        kw = dict(after=EPOCH, distinct=[[token('lf0%d' % i) for i in range(n)]])
        tab = Tab(w, [g], cm, **kw)
        c.outcomes('commit-metadata', 'the log files of one slice in %d commits' % n, lambda: (tab.e, tab.call('get_file_slices_between', [NONE, some((t1, t2, t3)[n - 1])])),
                   judge_slices(tab, lambda s: [(g, 0)], pairs([t1, t2, t3][:n])))
        u = Group('u', C('x'))
        u.versions = [(t1, base_name(u.fid, t1, 'u'), [])]
        tab = Tab(w, [g, u], [(a, b, x + [(u, 0)] if i == 0 else x, r) for i, (a, b, x, r) in enumerate(cm)], **kw)
        c.outcomes('commit-metadata', 'the log files of one slice in %d commits, next to another partition' % n,
                   lambda: (tab.e, tab.call('get_file_slices_between', [NONE, some((t1, t2, t3)[n - 1])])), judge_slices(tab, lambda s: [(g, 0), (u, 0)], pairs([t1, t2, t3][:n])))

    # ---- the file group itself: built by name and merged, for every set of times and of log files
    F, OTHER, PT = word('f', UUID), word('other', UUID), cat('p-', word('P', S.ALNUM))
    A = [C('2024010%d000000000' % i) for i in range(1, 5)]

    def built(sc, st, spec, fid=F, part=PT, first=False):
        """[(state, file group or error)]: spec is [(time index, [log numbers])], added in that order."""
        bn = lambda i: cat(fid, '_', token('w'), '_', A[i], '.parquet')
        ln = lambda i, v: cat('.', fid, '_', A[i], '.log.%d_' % v, token('l'))
        if first:
            rs = [(s, r) for s, r in sc.run('FileGroup::new_with_base_file_name', [fid, part, bn(spec[0][0])], st)]
        else:
            rs = [(s, Adt('core::result::Result', 0, 'Ok', (r,), ('0',))) for s, r in sc.run('FileGroup::new', [fid, part], st)]
        ops = []
        for n, (i, vs) in enumerate(spec):
            if not (first and n == 0):
                ops.append(('add_base_file_from_name', bn(i)))
        for i, vs in spec:
            ops += [('add_log_file_from_name', ln(i, v)) for v in vs]
        out = []
        for s, r in rs:
            if not is_ok(r):
                out.append((s, r))
                continue
            cell = sc.e.alloc(s, r.fs[0])
            cur = [s]
            for m, a in ops:
                nx = []
                for s1 in cur:
                    for s2, r2 in sc.run('FileGroup::' + m, [Ref(cell), a], s1):
                        if is_ok(r2):
                            nx.append(s2)
                        else:
                            out.append((s2, r2))
                cur = nx
            out += [(s1, Ref(cell)) for s1 in cur]
        return out

    def content(s, e, v):
        """{time: (base time, partition, log names)} of a file group."""
        m = fld(e.deep(s, v), 'file_slices')
        need(isinstance(m, M), 'file slices %s' % m)
        got = {}
        for t, x in m.items:
            x = e.deep(s, x)
            got[str(t)] = (str(fld(fld(x, 'base_file'), 'commit_timestamp')), str(fld(x, 'partition_path')), sorted((str(fld(l, 'version')), str(fld(l, 'base_commit_timestamp'))) for l in items(fld(x, 'log_files'))))
        return got

    def wanted(*specs):
        d = {}
        for spec in specs:
            for i, vs in spec:
                d.setdefault(i, set()).update(vs)
        return {str(A[i]): (str(A[i]), str(PT), sorted((str(C(str(v))), str(A[i])) for v in vs)) for i, vs in d.items()}
    SPECS = [[], [(0, [])], [(0, [1])], [(2, [1, 2])], [(0, []), (1, [])], [(1, [2]), (0, [1])], [(0, [1]), (1, []), (2, [1])], [(2, []), (0, [2]), (1, [1, 2])], [(3, [1]), (2, [1]), (1, [1]), (0, [1])], [(0, []), (2, []), (3, [3])]]

    def fg(run, want):
        def go():
            sc = Scene(w)
            return sc.e, [(s, r if not isinstance(r, Ref) else T('group', *[Tup((C(k), C(str(x)))) for k, x in sorted(content(s, sc.e, r).items())])) for s, r in run(sc)]

        def j(s, v):
            if not (isinstance(v, T) and v.op == 'group'):
                return None if want is None else ('it fails: %s' % (v.fs[0] if is_err(v) else v), v)
            if want is None:
                return 'it succeeds', v
            got = {x.items[0].v: x.items[1].v for x in v.args}
            exp = {k: str(x) for k, x in want.items()}
            for k in sorted(set(got) | set(exp)):
                if got.get(k) != exp.get(k):
                    return 'the slice at %s is %s instead of %s' % (k, got.get(k), exp.get(k)), v
            return None
        return go, j
    for a in SPECS:
        for first in (False, True):
            if a or not first:
                c.outcomes('file-group', 'built %s%s' % (a, ' from a file name' if first else ''), *fg(lambda sc: built(sc, St(), a, first=first), wanted(a)))
        for b in SPECS:
            def merged(sc, b=b, **kw):
                out = []
                for s, x in built(sc, St(), a):
                    for s2, y in (built(sc, s, b, **kw) if isinstance(x, Ref) else [(s, x)]):
                        if not isinstance(y, Ref):
                            out.append((s2, y))
                            continue
                        for s3, r in sc.run('FileGroup::merge', [x, y], s2):
                            out.append((s3, x if is_ok(r) else r))
                return out
            c.outcomes('file-group', '%s merged into %s' % (b, a), *fg(merged, wanted(a, b)))
        c.outcomes('file-group', 'a group of another partition merged into %s' % a, *fg(lambda sc: merged(sc, b=SPECS[1], part=cat('q-', word('P', S.ALNUM))), None))
        c.outcomes('file-group', 'the same base file twice, %s' % a, *fg(lambda sc: built(sc, St(), a + a[:1]), None if a else {}))
        c.outcomes('file-group', 'a log file without its base file, %s' % a, *fg(lambda sc: [(s2, r if not is_ok(r) else x) for s, x in built(sc, St(), a) for s2, r in
                   sc.run('FileGroup::add_log_file_from_name', [x, cat('.', F, '_', C('20230101000000000'), '.log.1_', token('l'))], s)], None))
    c.floor('file-group', 100)

    # malformed metadata
    def broken(**kw):
        g = Group('f').add(t1, logs=1)
        tab = Tab(w, [g], commits([g], (t1,)))
        m = tab.meta(0)
        st = m['partitionToWriteStats'][C('')][0]
        for k, x in kw.items():
            k = k.replace('_', '')
            if x is None:
                st.pop(k, None)
            else:
                st[k] = x
        tab.sc.data[cat('.hoodie/', t1, '.deltacommit')] = T('json', jval(m))
        return tab
    g = Group('f')
    BAD = {'no file id': dict(fileId=None), 'file id a number': dict(fileId=num(C(1))), 'base file a number': dict(baseFile=num(C(1))),
           'base file malformed': dict(baseFile=cat(g.fid, '.parquet')), 'no log files': dict(logFiles=None), 'log files a string': dict(logFiles=C('x')),
           'a log file a number': dict(logFiles=[num(C(1))]), 'a log file malformed': dict(logFiles=[cat('.', g.fid, '_', t1, '.log')]),
           'a log file of another base commit': dict(logFiles=[log_name(g.fid, t2, 1, 'x')]), 'neither base file nor path': dict(baseFile=None, path=None),
           'path without a base file name': dict(baseFile=None, path=C('..')), 'path a number': dict(baseFile=None, path=num(C(1))),
           'path to a malformed name': dict(baseFile=None, path=cat('p/', g.fid, '.parquet'))}
    for key, kw in BAD.items():
        def run():
            tab = broken(**kw)
            st = tab.sc.order(St(), EPOCH, '<', t1, '<', t2)
            return tab.e, tab.call('get_file_slices_between', [NONE, some(t1)], start=tab.sc.table([tab.sc.instant(t1, 'DeltaCommit')], st))
        c.outcomes('malformed-metadata', key, run, fails)
    c.floor('listing', 35)
    c.floor('commit-metadata', 12)
    c.floor('unplaceable', 8)
    c.floor('malformed-metadata', 13)
    c.also('c20', 'base-file-name', 'log-file-name', 'slice-path')
    c.also('c02', 'slice-choice')
