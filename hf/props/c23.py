"""Abstract interpretation of directory and file listing (Table::get_file_slices_as_of through FileLister and get_leaf_dirs):
tables whose base directory holds metadata directories of the lake formats next to partitions of several depths with
names of unknown value, and whose partitions hold partition metadata and checksum files. The slices returned have to be
exactly those of the leaf directories, and no storage operation may list or open anything below a metadata directory or
any of the excluded files."""
from .tables import *
from .c21 import sch_of, PF

METADIRS = ('.hoodie', '_delta_log', 'metadata')


def check(c):
    w = c.w
    t1, T0 = ts('t1'), ts('T')
    P, Q, R = word('P', S.ALNUM), word('Q', S.ALNUM), word('R', S.ALNUM)

    def table(parts, fields, extra_files=None, dirs=(), loose=()):
        """One file group per partition directory; loose: partitions whose data must not be seen."""
        gs, no = [], []
        for i, p in enumerate(parts):
            gs.append(Group('f%d' % i, p).add(t1))
        for i, p in enumerate(loose):
            no.append(Group('x%d' % i, p).add(t1))
        tab = Tab(w, gs + no, [(t1, 'Commit', [(g, 0) for g in gs], [])], conf={PF: fields} if fields else {}, sch=sch_of(*[x for x in (fields or '').split(',') if x]),
                  extra_files=extra_files, extra_dirs=dirs, recur=8, after=C('19700101000000000'), distinct=[[g.fid for g in gs + no], [x for x in (P, Q, R)]])
        tab.wanted = gs
        return tab

    def judge(tab, names=()):
        inner = judge_slices(tab, lambda s: [(g, 0) for g in tab.wanted if leq(s, t1, T0)], pairs([t1, T0]))
        pars = sorted({str(g.part) for g in tab.wanted})

        def j(s, v):
            r = inner(s, v)
            if r:
                return r
            n = {}
            for ev in storage_calls(s):
                p = ev[2][0] if ev[2] else None
                p = p.fs[0] if isinstance(p, Adt) and p.fs else p
                if ev[1] in ('list_files', 'list_dirs') and p is not None and not isinstance(p, Adt):
                    first = split_path(p)[0]
                    if isinstance(first, C) and first.v in METADIRS:
                        return '%s of the metadata directory %s' % (ev[1], p), v
                    n[(ev[1], str(p))] = n.get((ev[1], str(p)), 0) + 1
                elif ev[1] != 'get_file_data':
                    for x in names:
                        if str(p).endswith(str(x)):
                            return '%s of %s' % (ev[1], p), v
            for (m, p), k in n.items():
                if m == 'list_files' and k > 1:
                    return 'partition %s is listed %d times' % (p, k), v
            return None
        return j

    def go(rule, key, tab, names=(), least=2):
        c.outcomes(rule, key, lambda: (tab.e, tab.call('get_file_slices_as_of', [T0, L([])])), judge(tab, names), least=least)

    # ---- directories
    one = [cat('p-', P), cat('p-', Q)]
    two = [cat('p-', P, '/', Q), cat('p-', P, '/', R), cat('q-', Q, '/', P)]
    three = [cat('p-', P, '/', Q, '/', R), cat('p-', P, '/', R, '/', Q), cat('q-', P, '/x/', Q)]
    for n, (parts, fields) in {'one level': (one, 'p'), 'two levels': (two, 'p,q'), 'three levels': (three, 'p,q,r'), 'mixed depths': (one + two[2:], 'p'), 'one partition': (one[:1], 'p')}.items():
        go('partitions', n, table(parts, fields))
        for d in METADIRS:
            # data-like files inside the metadata directory and below it
            go('metadata-directory', '%s with %s' % (n, d), table(parts, fields, dirs=[C(d)], loose=[C(d)]))
            go('metadata-directory', '%s with %s and directories in it' % (n, d), table(parts, fields, dirs=[C(d + '/sub')], loose=[C(d + '/sub'), C(d + '/sub2/deep')]))
        go('metadata-directory', n + ' with all of them', table(parts, fields, dirs=[C(d + '/x') for d in METADIRS], loose=[C(d + '/x') for d in METADIRS]))
        # only the top level is special: a partition may be named like one below
    # partitions whose names merely resemble metadata directories
    for p in ('metadata2', 'my_metadata', 'p=metadata', 'Metadata', 'x/metadata', 'x/_delta_log', 'delta_log', 'hoodie', '.hoodie_x', 'a/.hoodie', '_delta_log_', '2024', 'meta'):
        f = ','.join(['p', 'q'][:p.count('/') + 1])
        go('partitions', 'named %s' % p, table([C(p)] + ([C('z/1')] if '/' in p else [C('z')]), f))
    # a directory that holds files and sub-directories is a partition through its leaves
    go('partitions', 'an empty leaf directory', table(one, 'p', dirs=[cat('e-', R)], extra_files={cat('e-', R): []}))
    # ---- an unpartitioned table is listed at its root only
    for key, kw in {'plain': {}, 'with directories': dict(dirs=[C('sub'), C('p=1')], loose=[C('sub'), C('p=1/q')]), 'with metadata directories': dict(dirs=[C(d) for d in METADIRS], loose=[C(d) for d in METADIRS])}.items():
        for fields in (None, ''):
            tab = table([C('')], fields, **kw)
            go('unpartitioned', '%s, partition fields %s' % (key, 'not set' if fields is None else 'empty'), tab)
    # ---- files
    g0 = Group('f0', one[0]).add(t1)
    H = [C('.hoodie_partition_metadata'), C('.hoodie_partition_metadata.parquet'), C('.hoodie_partition_metadata.orc'), C('.hoodie_partition_metadata.crc'), C('..hoodie_partition_metadata.crc'),
         cat('.', g0.base(0), '.crc'), cat('.', g0.fid, '_', t1, '.log.1_0-1-2.crc'), cat('..', g0.fid, '_', t1, '.log.1_0-1-2.crc'), C('_SUCCESS'), C('.DS_Store'), C('_SUCCESS.crc'), cat('.', R, '.parquet.crc')]
    for x in H:
        for order in ('first', 'last'):
            for flat in (False, True):
                tab = table([C('')], None) if flat else table(one, 'p')
                p = C('') if flat else one[0]
                if order == 'first':
                    tab.files[p].insert(0, x)
                else:
                    tab.files[p].append(x)
                go('foreign-file', '%s listed %s%s' % (x, order, ', unpartitioned' if flat else ''), tab, names=[x])
    tab = table(one, 'p')
    for p in one:
        tab.files[p] += H
    go('foreign-file', 'all of them in every partition', tab, names=H)
    c.floor('metadata-directory', 35)
    c.floor('partitions', 19)
    c.floor('unpartitioned', 6)
    c.floor('foreign-file', 49)
    c.also('c21', 'listing')
