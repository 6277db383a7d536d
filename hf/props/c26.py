"""Abstract interpretation of HudiDataSource::scan through to the table's listing and pruning: tables with and without
commits, several file groups, versions, replaced groups and partitions (also of special characters), several base locations,
zero to two filters, every kind of projection and limit, and all numbers of input partitions, with unknown names and times.
The plan built has to scan every base file of the latest snapshot that the filters may match exactly once, at its path below
the table's base in the object store registered for it, with its size, the table's schema, the requested projection and limit,
and the conjunction of all filters as predicate. Every storage or library operation reached is also followed failing."""
import re

from .tables import *
from .c03 import PART
from .c08 import Mk
from .c12 import SCH, faults, failed, TOLERANT
from .c18 import expected, BASES


LOOKUP = re.compile(r'field_with_name$')  # whether a filter is on a partition field is asked of the schema


def conjuncts(x):
    if isinstance(x, Adt) and x.vn == 'BinaryExpr':
        b = x.fs[0]
        if variant(fld(b, 'op')) == 'And':
            return conjuncts(fld(b, 'left')) + conjuncts(fld(b, 'right'))
    return [x]


def check(c):
    w = c.w
    k = Mk(w)
    t1, t2, t3 = [ts(x) for x in ('t1', 't2', 't3')]
    scan = w.method('HudiDataSource', 'scan', 'TableProvider')
    URL = 'file:///data/t'

    def storage_of(sc, base):
        """A storage with a URL; its operations are those of the scenario."""
        st = St()
        r = sc.e.run(CORE + 'storage::util::parse_uri', [C(base) if isinstance(base, str) else base], st)
        need(len(r) == 1 and is_ok(r[0][1]), 'base URL')
        return sc.struct('storage::Storage', {}, {'base_url': r[0][1].fs[0], 'object_store': T('objectstore', 'table'), 'options': omap({}), 'hudi_configs': sc.conf})

    def source(mk, base=URL, conf=None, fail=False):
        tab = mk(conf={'hoodie.base.path': base, **(conf or {})}, fail=fail)
        own = tab.sc.storage = storage_of(tab.sc, base)
        tab.e.cuts[STG + 'new'] = lambda en, st, a, c: [(st, ok(own))]
        return tab

    def run(mk, filters=(), projection=NONE, limit=NONE, base=URL, conf=None, fail=False, flt=None, order=()):
        def go():
            need(len(scan) == 1, 'HudiDataSource::scan')
            tab = source(mk, base, conf, fail)
            if fail:
                tab.e.faults = flt
            st, t = tab.start(*order)
            ds = tab.sc.struct('HudiDataSource', {'Table': t})
            return tab.e, tab.sc.run(scan[0], [ds, T('session'), projection, L(list(filters)), limit], st)
        return go

    def judge(tab, kept, base_path, host, filters=(), projection=NONE, limit=NONE):
        """kept(state, group) -> True (must be scanned), False (need not)."""
        want_proj = some(projection.fs[0]) if is_some(projection) else NONE

        def j(s, v):
            if is_err(v):
                return 'the scan fails: %s' % v.fs[0], v
            x = unwrap(v)
            need(isinstance(x, Adt) and x.names and 'predicate' in x.names, 'plan %s' % v)
            cfg = fld(x, 'config')
            if fld(cfg, 'url') != T('osurl', C(host)):
                return 'the files are looked up in %s' % fld(cfg, 'url'), v
            regs = [e[1] for e in s.events() if e[0] == 'register']
            if not any(isinstance(u, T) and u.op == 'url' and u.args[0] == C(host) for u in regs):
                return 'no object store is registered for %s (but %s)' % (host, regs), v
            sch = tab.sch if tab.commits else schema()
            if fld(cfg, 'schema') != sch:
                return 'the schema is %s' % fld(cfg, 'schema'), v
            if fld(cfg, 'projection') != want_proj:
                return 'the projection is %s instead of %s' % (fld(cfg, 'projection'), want_proj), v
            if fld(cfg, 'limit') != limit:
                return 'the limit is %s instead of %s' % (fld(cfg, 'limit'), limit), v
            for m in items(fld(cfg, 'more')):
                if m.items[0] in (C('with_table_partition_cols'), C('with_output_ordering'), C('with_statistics')):
                    raise Undecided('plan with %s' % m)
            p = fld(x, 'predicate')
            given = []
            if is_some(p):
                need(isinstance(p.fs[0], T) and p.fs[0].op == 'physical', 'predicate %s' % p)
                if p.fs[0].args[1] != T('dfschema', sch):
                    return 'the predicate is planned for the schema %s' % p.fs[0].args[1], v
                given = conjuncts(p.fs[0].args[0])
            # a predicate may be missing conjuncts (they are evaluated again after the scan), but has no other ones
            flat = [y for f in filters for y in conjuncts(f)]
            for g in given:
                if g not in flat:
                    return 'the predicate contains %s, which is none of the filters' % g, v
            for f in flat:
                if f not in given:
                    return 'the predicate lacks %s' % f, v
            files = []
            for g in items(fld(cfg, 'groups')):
                for f in items(g):
                    if fld(f, 'range') != NONE:
                        return 'only a part of %s is scanned' % f, v
                    files.append(fld(f, 'object_meta'))
            last = latest(tab, s)
            paths = {}
            for g, i in last:
                b = g.base(i)
                rel = path(g.part, b)
                paths[expected(base_path, rel)] = (g, (T('size', rel),))
            seen = []
            for m in files:
                loc = fld(m, 'location')
                need(isinstance(loc, T) and loc.op == 'objpath', 'path %s' % loc)
                loc = loc.args[0]
                if loc not in paths:
                    return 'scans %s, which is no base file of the latest snapshot' % loc, v
                if loc in seen:
                    return 'scans %s twice' % loc, v
                seen.append(loc)
                if fld(m, 'size') not in paths[loc][1]:
                    return 'the size of %s is %s' % (loc, fld(m, 'size')), v
            for loc, (g, b) in paths.items():
                if loc not in seen and kept(s, g):
                    return 'does not scan %s' % loc, v
            return None
        return j

    def latest(tab, s):
        gone = [g for x in tab.commits for g in x[3]]
        out = []
        for g in tab.groups:
            best = None
            for i, x in enumerate(g.versions):
                if best is None or lt(s, g.versions[best][0], x[0]):
                    best = i
            if g not in gone and best is not None:
                out.append((g, best))
        return out

    def tables():
        yield 'no commits', lambda **kw: rows_tab(w, [], [], **kw)
        g = Group('f').add(t1)
        yield 'one file', lambda **kw: rows_tab(w, [g], [(t1, 'Commit', [(g, 0)], [])], **kw)
        g2 = Group('f').add(t1).add(t2)
        yield 'two versions', lambda **kw: rows_tab(w, [g2], [(t1, 'Commit', [(g2, 0)], []), (t2, 'Commit', [(g2, 1)], [])], **kw)
        h = [Group('g%d' % i).add((t1, t2)[i % 2]) for i in range(3)]
        yield 'three groups', lambda **kw: rows_tab(w, h, [(t1, 'Commit', [(h[0], 0), (h[2], 0)], []), (t2, 'Commit', [(h[1], 0)], [])], **kw)
        r = [Group('f').add(t1), Group('h').add(t2)]
        yield 'a replaced group', lambda **kw: rows_tab(w, r, [(t1, 'Commit', [(r[0], 0)], []), (t2, 'ReplaceCommit', [(r[1], 0)], [r[0]])], **kw)

    everything = lambda s, g: True
    HOSTS = {'file:///data/t': 'file://', 'file:///data/t/': 'file://', 's3://bucket/a/b': 's3://bucket', 's3a://bucket/x%20y/t': 's3a://bucket', '/data/t': 'file://', '/data/t/': 'file://',
             'file:///data/a b/t': 'file://', '/data/ü/t': 'file://', 's3://bucket': 's3://bucket', 'gs://b.c:8/d': 'gs://b.c:8'}
    PATHS = {**BASES, 'gs://b.c:8/d': 'd'}
    PROJ = {'none': NONE, 'empty': some(L([])), 'two columns': some(L([C(5), C(0)])), 'unknown column': some(L([T('sym', 'column')]))}
    LIM = {'none': NONE, '0': some(C(0)), 'any': some(T('sym', 'limit'))}
    fl = lambda *fs: list(fs)
    A, X = C('p'), word('x', ALNUM)
    eq = k.bin('Eq', k.col(C('v')), k.lit(X))
    gt = k.bin('Gt', k.lit(X), k.col(C('ts')))
    either = k.bin('Or', eq, gt)
    FILTERS = {'none': (), 'one': (eq,), 'two': (eq, gt), 'a disjunction': (either,), 'a negation': (k.not_(eq), either), 'a conjunction': (k.bin('And', eq, gt), either), 'three': (gt, eq, k.not_(gt))}
    case = lambda rule, key, mk, kept=everything, base=URL, conf=None, **kw: c.outcomes(
        rule, key, run(mk, base=base, conf=conf, **kw), judge(mk(), kept, PATHS[base], HOSTS[base], **kw), panics=True)

    TABLES = list(tables())
    for name, mk in TABLES:
        for pn, pr in PROJ.items():
            for ln, li in LIM.items():
                case('plan', '%s: projection %s, limit %s' % (name, pn, ln), mk, projection=pr, limit=li)
        for fn, fs in FILTERS.items():
            if name == 'no commits' and fs:
                continue  # a table without commits has no columns to filter on
            case('plan', '%s: filters %s' % (name, fn), mk, filters=fs, projection=PROJ['two columns'], limit=LIM['any'])
        for n in ('0', '1', '2', '3', '4', '7', '1000'):
            case('partitions', '%s: %s input partitions' % (name, n), mk, conf={'hoodie.read.input.partitions': n})
        for base in HOSTS:
            case('locations', '%s: below %s' % (name, base), mk, base=base)
    for value in ('a b', 'a%20b', 'ä', 'a#b', 'a?b', '[a]', 'a~b', "a'b", 'a%2Fb', 'a{b}', 'a^b', 'a|b', '100%', 'a*b', 'a"b', 'a<b>', 'a`b', 'a\\b', 'a;b&c', 'p=1/q=2', '...', 'a:b'):
        g = Group('f', value).add(t1)
        mk = lambda **kw: rows_tab(w, [g], [(t1, 'Commit', [(g, 0)], [])], sch=SCH, **kw)
        for base in ('file:///data/t', 's3a://bucket/x%20y/t', '/data/ü/t'):
            case('locations', 'partition %s below %s' % (value, base), mk, base=base, conf={'hoodie.table.partition.fields': 'p,q' if '/' in value else 'p'})

    # ---- partition pruning
    ga, gb = Group('x', 'a').add(t1), Group('y', 'b').add(t2)
    mk = lambda **kw: rows_tab(w, [ga, gb], [(t1, 'Commit', [(ga, 0)], []), (t2, 'Commit', [(gb, 0)], [])], sch=SCH, **{**kw, 'conf': {**PART, **(kw.get('conf') or {})}})
    col, lit = k.col(A), lambda v: k.lit(C(v))
    PRUNE = {'p = a': (k.bin('Eq', col, lit('a')), 'a'), 'p != a': (k.bin('NotEq', col, lit('a')), 'b'), 'a < p': (k.bin('Lt', lit('a'), col), 'b'), 'p < b': (k.bin('Lt', col, lit('b')), 'a'),
             'not p = a': (k.not_(k.bin('Eq', col, lit('a'))), 'b'), 'not not p = a': (k.not_(k.not_(k.bin('Eq', col, lit('a')))), 'a'), 'p <= a or v = x': (k.bin('Or', k.bin('LtEq', col, lit('a')), eq), 'ab'),
             'p >= a': (k.bin('GtEq', col, lit('a')), 'ab'), 'p = c': (k.bin('Eq', col, lit('c')), ''), 'v = x': (eq, 'ab'), 'b >= p': (k.bin('GtEq', lit('b'), col), 'ab')}
    for a, (fa, ka) in PRUNE.items():
        case('pruning', a, mk, lambda s, g: g.part.v in ka, filters=(fa,))
        for b, (fb, kb) in PRUNE.items():
            if a < b:
                case('pruning', '%s; %s' % (a, b), mk, lambda s, g: g.part.v in ka and g.part.v in kb, filters=(fa, fb))

    mkp = mk

    # ---- one file name in several partitions
    x = word('x', UUID)
    twins = [Group(x, q).add(t1, n='1') for q in 'abc'] + [Group(x, 'd').add(t1, n='2')]
    for i, g in enumerate(twins):
        g.name = 'twin%d' % i
    for m in (2, 3, 4):
        two = twins[:m]
        mk = lambda **kw: rows_tab(w, two, [(t1, 'Commit', [(g, 0) for g in two], [])], sch=SCH, **{**kw, 'conf': {**PART, **(kw.get('conf') or {})}})
        for n in ('0', '1', '2', '3', '4', '7'):
            case('partitions', 'one file name in %d partitions: %s input partitions' % (m, n), mk, conf={'hoodie.read.input.partitions': n})
        for pn, pr in PROJ.items():
            case('plan', 'one file name in %d partitions: projection %s' % (m, pn), mk, projection=pr)
    mk = mkp

    # ---- failures
    for name, mk in TABLES + [('partitioned', mk)]:
        for fn, fs in (('none', ()), ('on another column', (eq,)), ('on the partition', (PRUNE['p = a'][0],))):
            if fn == 'on the partition' and name != 'partitioned':
                continue

            def j(s, v):
                f = failed(s)
                if f is None or is_err(v):
                    return None
                cfg = fld(fld(unwrap(v), 'config'), 'schema')
                if cfg == schema() or isinstance(cfg, T) and cfg.op == 'schema' and not cfg.args[0].items:
                    return None  # the schema of a table that cannot be read is empty: see schema-errors
                return 'the scan succeeds although this failed: %s' % f[0], v
            c.outcomes('scan-faults', '%s: filters %s' % (name, fn), run(mk, filters=fs, fail=True, flt=faults(LOOKUP if name != 'partitioned' else re.compile('%s|%s' % (TOLERANT.pattern, LOOKUP.pattern)))), j, panics=False)
    sch_ = w.method('HudiDataSource', 'schema', 'TableProvider')
    for name, mk in TABLES[1:2]:
        def go():
            need(len(sch_) == 1, 'HudiDataSource::schema')
            tab = source(mk, fail=True)
            st, t = tab.start()
            return tab.e, tab.sc.run(sch_[0], [tab.sc.struct('HudiDataSource', {'Table': t})], st)

        def j(s, v):
            if failed(s) is None:
                return None if v == mk().sch else ('the schema is %s' % v, v)
            return 'the schema is %s although it cannot be read' % v, v
        c.outcomes('schema-errors', 'the schema of a table that cannot be read', go, j, panics=False)

    # ---- file slices with log files
    for n in range(3):
        m = Group('m').add(t1, logs=n)
        m.blocks = {0: {i: [(t2, 'b%d' % i)] for i in range(n)}}
        commits = [(t1, 'DeltaCommit', [(m, 0, [])], [])] + ([(t2, 'DeltaCommit', [(m, 0, list(range(n)))], [])] if n else [])
        for ro in (None, 'true'):
            mk2 = lambda **kw: rows_tab(w, [m], commits, **{**kw, 'conf': {'hoodie.table.type': 'MERGE_ON_READ', **({'hoodie.read.use.read_optimized.mode': ro} if ro else {}), **(kw.get('conf') or {})}})
            inner = judge(mk2(), everything, PATHS[URL], HOSTS[URL])

            def j(s, v):
                if n and not ro and is_ok(v):
                    return 'the scan does not read the log files', C('plan')
                return inner(s, v)
            key = 'no log files' if not n else 'log files in %s mode' % ('read-optimized' if ro else 'snapshot')
            c.outcomes('log-files', '%s%s' % (key, ' (%d)' % n if n and ro else ''), run(mk2), j, panics=False)
    c.floor('plan', 80)
    c.floor('partitions', 30)
    c.floor('locations', 90)
    c.floor('pruning', 50)
    c.floor('scan-faults', 10)
    c.floor('log-files', 4)
    c.also('c03', 'snapshot-slices')
    c.also('c22', 'splits')
