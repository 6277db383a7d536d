"""Fault analysis by abstract interpretation: every storage operation and every fallible library operation (reading bytes,
UTF-8, JSON, Avro and Parquet decoding, Arrow kernels, URL and date parsing) that a query reaches is followed both
succeeding and failing. On every path on which one of them fails, the query has to return an error. The documented tolerant
spots are excluded one by one where the scenario reaches them."""
import re

from .tables import *
from .c03 import filters, PART
from .c09 import rec, slice_of, reader, STRAT
from .c16 import build_scene, builder, GOOD
from .c18 import storage, FILES, LISTS

FALLIBLE = re.compile(r'read_exact$|read_to_end$|read_to_string$|from_utf8$|^serde_json::|^apache_avro::|^arrow|^parquet::|^object_store::|^url::|^chrono::|decode_utf8$|::seek$|stream_position$|^std::fs::')
LOOKUP = re.compile(r'::(index_of|field_with_name)$')  # whether a name is there is decided by the schema, not by a fault
SCH = schema(*[(n, U8) for n in META_COLS + ['p', 'ts', 'v']])
TOLERANT = re.compile(r'^arrow_cast::|^arrow_ord::|decode_utf8$')  # partition values that cannot be read or compared keep the partition (C06)


def faults(skip=None):
    def f(name):
        if not FALLIBLE.search(name) or LOOKUP.search(name) or (skip is not None and skip.search(name)):
            return None
        if re.search(r'read_exact$|read_to_end$|::seek$|stream_position$', name):
            return T('io_err', C('Other'))
        return T('fault', C(name))
    return f


def failed(s):
    """What fails on this path, or None."""
    for what, val in s.facts.trail:
        if not isinstance(what, tuple):
            continue
        if what[0] == 'fault':
            return what[1].v, what
        if what[0] == 'var' and isinstance(what[1], T) and val == 1:
            if what[1].op == 'io':
                return 'storage operation %s(%s)' % (what[1].args[0], ', '.join(str(x) for x in what[1].args[1:])), what
            if what[1].op == 'parsed':
                return 'parsing the time %s' % what[1].args[0], what
    return None


def judge(tolerated=lambda s, what: False, seen=None):
    def j(s, v):
        f = failed(s)
        if f is None:
            return None
        if seen is not None:
            seen[f[0]] = seen.get(f[0], 0) + 1
        need(is_ok(v) or is_err(v), 'result %s' % v)
        if is_err(v) or tolerated(s, f[1]):
            return None
        return 'succeeds although this failed: %s' % f[0], v
    return j


def check(c):
    w = c.w
    t1, t2, t3, T0 = [ts(x) for x in ('t1', 't2', 't3', 'T')]
    after = C('19700101000000000')
    seen = {}

    def tables():
        kw = dict(after=after, fail=True)
        g = Group('f').add(t1)
        yield 'copy on write', lambda: rows_tab(w, [g], [(t1, 'Commit', [(g, 0)], [])], sch=SCH, **kw), None
        h = Group('h').add(t2)
        yield 'with a replaced file group', lambda: rows_tab(w, [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])], sch=SCH, **kw), None
        m = Group('m').add(t1, logs=2)
        m.blocks = {0: {0: [(t2, 'a')], 1: [(t3, 'b')]}}
        for strat in ('append_only', 'overwrite_with_latest'):
            yield 'merge on read, %s' % strat, lambda: rows_tab(w, [m], [(t1, 'DeltaCommit', [(m, 0, [])], []), (t2, 'DeltaCommit', [(m, 0, [0])], []), (t3, 'DeltaCommit', [(m, 0, [1])], [])],
                                                                conf={'hoodie.table.record.merge.strategy': strat, 'hoodie.table.precombine.field': 'ts', 'hoodie.table.type': 'MERGE_ON_READ'},
                                                                sch=SCH, **kw), None
        a, b = Group('x', 'a').add(t1), Group('y', 'b').add(t2)
        yield 'partitioned', lambda: rows_tab(w, [a, b], [(t1, 'Commit', [(a, 0)], []), (t2, 'Commit', [(b, 0)], [])], conf=PART, sch=SCH, **kw), None
    FL = filters(('p', '=', 'a'))
    ENTRIES = [('get_file_slices', lambda f: [f]), ('get_file_slices_as_of', lambda f: [T0, f]), ('get_file_slices_splits', lambda f: [C(2), f]),
               ('get_file_slices_splits_as_of', lambda f: [C(2), T0, f]), ('get_file_slices_between', lambda f: [some(t1), some(T0)]), ('get_file_slices_between', lambda f: [NONE, NONE]),
               ('read_snapshot', lambda f: [f]), ('read_snapshot_as_of', lambda f: [T0, f]), ('read_incremental_records', lambda f: [t1, some(T0)]), ('read_incremental_records', lambda f: [t1, NONE]),
               ('get_schema', lambda f: []), ('get_avro_schema', lambda f: []), ('get_partition_schema', lambda f: [])]
    for name, mk_, _ in tables():
        for fn, args in ENTRIES:
            for flt in ((False, True) if name == 'partitioned' and len(args(L([]))) and args(FL)[-1] is FL else (False,)):
                tab = mk_()
                tab.e.faults = faults(TOLERANT if name == 'partitioned' else None)
                a = args(FL if flt else L([]))
                c.outcomes('query-faults', '%s(%s): %s%s' % (fn, ', '.join(str(x) for x in a if not isinstance(x, L)), name, ', filtered' if flt else ''),
                           lambda: (tab.e, tab.call(fn, a)), judge(seen=seen), panics=False)
    c.floor('query-faults', 60)

    # ---- operations of the timeline, over commits of two kinds
    META = '.hoodie'
    OPER = {k: T('json', jval({'operationType': 'CLUSTER', 'schema': '{"type":"record","name":"r","fields":[]}', 'extraMetadata': {'schema': '{"type":"record","name":"r","fields":[]}'},
                               'partitionToWriteStats': {}})) for k in ('a', 'b')}
    for fn, args in [('get_completed_' + k, [d]) for k in ('commits', 'deltacommits', 'replacecommits', 'clustering_commits') for d in (TRUE, FALSE)] + \
            [('get_latest_avro_schema', []), ('get_latest_schema', []), ('get_latest_commit_timestamp', [])]:
        for sufs in (('.replacecommit', '.replacecommit'), ('.commit', '.replacecommit'), ('.deltacommit', '.commit')):
            def run():
                sc = Scene(w, files={META: [cat(t1, sufs[0]), cat(t2, sufs[1])]}, data={cat('.hoodie/', t1, sufs[0]): OPER['a'], cat('.hoodie/', t2, sufs[1]): OPER['b']}, fail=True)
                sc.e.faults = faults()
                ins = [sc.instant(t, {'.commit': 'Commit', '.replacecommit': 'ReplaceCommit', '.deltacommit': 'DeltaCommit'}[x]) for t, x in zip((t1, t2), sufs)]
                return sc.e, sc.run('Timeline::' + fn, [sc.timeline(ins)] + args, sc.order(St(), t1, '<', t2))
            c.outcomes('timeline-faults', '%s(%s): %s' % (fn, ', '.join(str(x) for x in args), ' '.join(sufs)), run, judge(seen=seen), panics=False)
    c.floor('timeline-faults', 30)

    # ---- times given by the caller that cannot be parsed
    for name, mk_, _ in tables():
        for fn, args in ENTRIES:
            if not any(x in (T0, some(T0), some(t1), t1) for x in args(L([]))):
                continue
            tab = mk_()
            tab.sc.fail = False
            tab.e.cuts[PD] = cut_parse_datetime_err
            given = [x.fs[0] if isinstance(x, Adt) and x.fs else x for x in args(L([])) if not isinstance(x, L)]
            # an instant of the timeline that does not parse cannot be in the table; the other times are the caller's
            c.outcomes('caller-times', '%s(%s): %s' % (fn, ', '.join(str(x) for x in args(L([])) if not isinstance(x, L)), name), lambda: (tab.e, tab.call(fn, args(L([])))),
                       judge(), panics=False, least=2)
    c.floor('caller-times', 20)

    # ---- commit metadata in which a part a query needs is missing or of another kind
    KINDS = {'null': None, 'a number': num(C(5)), 'a boolean': jbool(C(True)), 'a text': 'x', 'a list': [], 'a list of numbers': [num(C(5))], 'an object': {}}
    GONE = object()

    def parts(d, at=()):
        """Every place of the metadata, with its kind."""
        yield at, d
        for k in (d if isinstance(d, dict) else range(len(d)) if isinstance(d, (list, tuple)) else ()):
            yield from parts(d[k], at + (k,))

    def put(d, at, v):
        if not at:
            return v
        k = at[0]
        if isinstance(d, dict):
            return {x: (put(y, at[1:], v) if x == k else y) for x, y in d.items() if not (x == k and len(at) == 1 and v is GONE)}
        return [put(y, at[1:], v) if i == k else y for i, y in enumerate(d) if not (i == k and len(at) == 1 and v is GONE)]

    def needed(at):
        names = [x for x in at if isinstance(x, str)]
        if not names:
            return 'object'
        if names[0] == 'partitionToWriteStats':
            if len(at) == 1:
                return 'object'
            if len(at) == 2:
                return 'list'
            if len(at) == 4:
                return {'fileId': 'text', 'path': 'text', 'baseFile': 'text', 'logFiles': 'list'}.get(at[3])
            if len(at) == 5 and at[3] == 'logFiles':
                return 'text'
        if names[0] == 'partitionToReplaceFileIds':
            return {1: 'object', 2: 'list', 3: 'text'}.get(len(at))
        return None

    def wrong(kind, at, d):
        for k, v in KINDS.items():
            if not {'object': k == 'an object', 'list': k.startswith('a list') and (k == 'a list'), 'text': k == 'a text'}[kind]:
                yield k, v
        last = at[-1] if at else None
        if kind == 'object' and at or last in ('fileId', 'path', 'logFiles'):
            yield 'missing', GONE

    g = Group('f').add(t1)
    m = Group('m').add(t1, logs=2)
    m.blocks = {0: {0: [(t2, 'a')], 1: [(t2, 'b')]}}
    h = Group('h').add(t2)
    METAS = [('copy on write', [g], [(t1, 'Commit', [(g, 0)], [])], 0, [('get_file_slices_between', [NONE, NONE]), ('get_file_slices_between', [some(t0_), some(t1)]), ('read_incremental_records', [t0_, some(t1)])])
             for t0_ in [ts('t0')]]
    METAS += [('merge on read', [m], [(t1, 'DeltaCommit', [(m, 0, [])], []), (t2, 'DeltaCommit', [(m, 0, [0, 1])], [])], 1, [('get_file_slices_between', [some(t1), some(t2)]), ('read_incremental_records', [t1, some(t2)])]),
              ('replacing', [g, h], [(t1, 'Commit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], [g])], 1,
               [('get_file_slices', [L([])]), ('get_file_slices_as_of', [T0, L([])]), ('read_snapshot', [L([])]), ('get_file_slices_between', [some(t1), NONE])])]
    for name, groups, commits, at_commit, entries in METAS:
        base = Tab(w, groups, commits)
        meta = base.meta(at_commit)
        file = cat('.hoodie/', commits[at_commit][0], SUFFIX[commits[at_commit][1]])
        for at, d in parts(meta):
            kind = needed(at)
            if kind is None:
                continue
            replaced = bool(at) and at[0] == 'partitionToReplaceFileIds'
            if at and at[0] == 'partitionToWriteStats' and len(at) >= 4 and at[-1] == 'path' and 'baseFile' in str(put(meta, at[:3], None) != meta and [k for k in dict(parts(meta))[at[:3]]]):
                continue  # the path is not needed where the base file is named
            for kname, v in wrong(kind, at, d):
                new = put(meta, at, v)
                for fn, args in entries:
                    if fn != 'read_incremental_records' and not fn.endswith('between') and not (replaced or not at):
                        continue  # write statistics are needed by incremental queries only

                    def run():
                        tab = rows_tab(w, groups, commits, sch=SCH, after=after)
                        need(file in tab.sc.data, 'commit file')
                        tab.sc.data[file] = T('json', jval(new))
                        return tab.e, tab.call(fn, args)

                    def j(s, v):
                        if is_err(v) or not any(e[0] == 'storage' and e[1] == 'get_file_data' and e[2][0] == file for e in s.events()):
                            return None
                        if replaced and T0 in args and lt(s, T0, commits[at_commit][0]):
                            return None  # the latest commit may be read for its schema
                        return 'succeeds although %s of the commit metadata is %s' % ('.'.join(str(x) for x in at) or 'all', kname), v
                    c.outcomes('commit-metadata', '%s: %s is %s: %s(%s)' % (name, '.'.join(str(x) for x in at) or 'all', kname, fn, ', '.join(str(x) for x in args if not isinstance(x, L))), run, j)
    c.floor('commit-metadata', 150)

    # ---- opening a table, and the storage methods themselves
    for key, kw in (('options in the properties file', {}), ('options of the caller', {'options': {'hoodie.read.listing.parallelism': '5'}, 'hudi': {'hoodie.table.name': 'n'}}), ('global configuration', {'conf_file': {'hoodie.table.name': 'x'}}),
                    ('cloud options', {'env': {'AWS_REGION': C('x')}})):
        def run():
            sc = build_scene(w, GOOD, kw.get('conf_file'), kw.get('env'), fail=True)
            sc.e.faults = faults()
            st = St()
            cell = sc.e.alloc(st, builder(sc, 'file:///t', kw.get('hudi'), None, kw.get('options')))
            return sc.e, sc.run('table::builder::TableBuilder::build', [Ref(cell)], st)
        # the global configuration file is optional
        c.outcomes('build-faults', key, run, judge(seen=seen), panics=False)

    SCM = T('pqschema', C('t/p/f'))
    for m in FILES + LISTS:
        for kind in ('each operation', 'a Parquet batch') if m == 'get_parquet_file_data' else ('each operation',):
            def run():
                e, rs = storage(w, C('file:///t'), {C('t/p/f'): ([C('d')], [C('f')])}, faults())
                if kind != 'each operation':
                    e.faults = None
                    e.pq_batches = [ok(T('batch', SCM, L([C(1)]))), err(T('pqerr')), ok(T('batch', SCM, L([C(2)])))]
                out = []
                for s, v in rs:
                    need(is_ok(v), 'storage')
                    out += e.run(STG + m, [Ref(e.alloc(s, v.fs[0])), some(C('p/f')) if m in LISTS else C('p/f')], s)
                return e, out
            c.outcomes('storage-faults', '%s: %s' % (m, kind), run, judge(seen=seen) if kind == 'each operation' else lambda s, v: None if is_err(v) else ('succeeds', v), allow=('concat_batches',), panics=False)
    c.floor('storage-faults', 9)

    # ---- a log block one of whose Parquet batches cannot be decoded
    for bad in range(3):
        def run():
            fid, t0 = word('f', UUID), ts('t0')
            bn, ln = base_name(fid, t0), log_name(fid, t0, 1, 'l')
            bs = [batch(FULL, [rec(i, 'k%d' % i)]) for i in range(3)]
            bs[bad] = err(T('pqerr'))
            sc = Scene(w, conf={STRAT: 'append_only'}, parquet={bn: batch(FULL, [rec(9, 'z')])}, logs={ln: log_block(ts('b'), bs)})
            st, fs = slice_of(sc, bn, [ln], C(''))
            return sc.e, sc.run('FileGroupReader::read_file_slice', [reader(sc), fs], st)
        c.outcomes('log-batches', 'batch %d cannot be decoded' % bad, run, lambda s, v: None if is_err(v) else ('succeeds', v))
    c.rule('coverage', 'operations seen failing', lambda: need(len(seen) >= 40, 'only %d kinds of failure are reached: %s' % (len(seen), sorted(seen))))
    c.also('c11', 'refused', 'truncated')
    c.also('c28', 'refused', 'cut-block', 'bad-rows')
    c.also('c21', 'malformed-metadata', 'commit-metadata', 'unplaceable')
    c.also('c26', 'scan-faults')
