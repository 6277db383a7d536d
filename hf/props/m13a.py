"""Malformed names, times, filters and locations for C13."""
from .tables import *
from .c16 import build_scene, builder, GOOD
from .c07 import OPS

BASE = '5a-0_0-7-24_20240402144910683.parquet'
LOG = '.5a-0_20240402144910683.log.1_0-188-2'
INST = ['20240402144910683.commit', '20240402144910.deltacommit.inflight', '20240402144910683.inflight', '20240402144910683.replacecommit.requested']
ODD = ['', ' ', '.', '..', '...', '_', '__', '___', '____', '-', '/', '\\', '\0', '\n', '%', '%z', '%zz', '%2', '=', '==', ':', '::', 'é', 'éé', '日本', '\U0001f600', 'a', 'a.', '.a', '.log', '.log.', '._.log._', '._.log.1_', '.log.log.log',
       '.a_b.log.1_0', '.a_b.log.-1_0', '.a_b.log.1', '.a.log.1_0', '.a_b_c.log.1_0', 'a_b_c', 'a_b_c.d', 'a_b.c_d', '_.', '._', '_._', 'x' * 40, '0', '-1', '+', '20240402', '20240402144910', '2024040214491068', '20240402144910683',
       '99999999999999999', '00000000000000', '.commit', 'commit', '.inflight', '..commit', 'a.commit', '.commit.requested', 'hoodie.properties', '.hoodie_partition_metadata', 'é.commit', '2024040214491éé.commit', '20240402144910é', '2024é0402144910683.commit']


def mutations(s):
    """The name cut at every place, with a character of several bytes in every place, with every character taken away, and with one doubled."""
    for i in range(len(s)):
        yield s[:i]
        yield s[i:]
        yield s[:i] + s[i + 1:]
        yield s[:i] + 'é' + s[i:]
        yield s[:i] + '日' + s[i + 1:]
        yield s[:i] + s[i] + s[i:]


def texts(*good):
    seen = {}
    for x in ODD:
        seen[x] = 1
    for g in good:
        for x in mutations(g):
            seen[x] = 1
    return list(seen)


def quiet(s, v):
    return None


def groups(xs, n=40):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


def each(c, rule, key, xs, run):
    """One obligation for each input."""
    for x in xs:
        def go():
            sc, rs = run(x)
            return sc.e, rs
        c.outcomes(rule, '%s %r' % (key, x), go, quiet)


def check(c):
    w = c.w

    def fn(f):
        return lambda x: (lambda sc: (sc, sc.run(f, [C(x)])))(Scene(w))

    # ---- names
    for kind, good in (('BaseFile', BASE), ('LogFile', LOG)):
        for tr, code in (('FromStr', 'from_str'), ('TryFrom', 'try_from')):
            f = c.method(kind, code, tr)

            def run(x):
                sc = Scene(w)
                return sc, sc.run(f, [C(x) if tr == 'FromStr' else sc.file_meta(sc.e, C(x))])
            each(c, 'names', '%s::%s' % (kind, code), texts(good) if tr == 'FromStr' else ODD, run)
    f = c.method('timeline::instant::Instant', 'from_str', 'FromStr')
    g = c.method('timeline::instant::Instant', 'try_from_file_name_and_timezone')

    def uncut(**kw):
        sc = Scene(w, **kw)
        del sc.e.cuts[PD]
        sc.e.local = lambda x: [3600]
        return sc
    each(c, 'names', 'Instant::from_str', texts(INST[0], INST[1]), lambda x: (lambda sc: (sc, sc.run(f, [C(x)])))(uncut()))
    for tz in ('utc', 'local', '', 'é', 'Europe/Berlin'):
        each(c, 'names', 'instant in %r' % tz, texts(*INST) if tz == 'local' else ODD + INST, lambda x: (lambda sc: (sc, sc.run(g, [C(x), C(tz)])))(uncut()))
        h = c.method('timeline::instant::Instant', 'parse_datetime')
        each(c, 'times', 'parse_datetime in %r' % tz, texts('20240402144910683', '20240402144910') if tz == 'utc' else ODD, lambda x: (lambda sc: (sc, sc.run(h, [C(x), C(tz)])))(uncut()))

    # ---- in directories
    t1 = ts('t1')
    for d, names in (('', texts(BASE)), ('.hoodie', texts(*INST[:2]))):
        if d:
            for xs in groups(names, 20):
                def run():
                    sc = Scene(w, files={C('.hoodie'): [C(x) for x in xs if x and '/' not in x]}, dirs={C(''): ['.hoodie']}, data={}, conf={})
                    del sc.e.cuts[PD]
                    sc.e.local = lambda x: [3600]
                    return sc.e, sc.run('Timeline::new_from_storage', [sc.conf, omap({})])
                c.outcomes('directories', 'timeline with %r…' % xs[0], run, quiet)
        else:
            for i, xs in enumerate(groups([x for x in names if x and "/" not in x], 8)):
                fg = Group('f').add(t1)
                tab = Tab(w, [fg], [(t1, 'Commit', [(fg, 0)], [])], extra_files={'': [C(x) for x in xs]}, after=C('19700101000000000'), recur=8)
                c.outcomes('directories', 'data files with %r…' % xs[0], lambda: (tab.e, tab.call('get_file_slices', [L([])])), quiet)

    # ---- times of queries
    for x in ODD + ['earliest', '20240402144910683', '20240230000000', '20240402144910683é']:
        fg = Group('f').add(C('20240101000000000'))
        for fnm, args in (('get_file_slices_as_of', [C(x), L([])]), ('get_file_slices_splits_as_of', [C(2), C(x), L([])]), ('read_snapshot_as_of', [C(x), L([])]), ('read_incremental_records', [C(x), NONE]),
                          ('read_incremental_records', [C('20240101000000'), some(C(x))]), ('get_file_slices_between', [some(C(x)), some(C(x))])):
            def run():
                tab = Tab(w, [fg], [(C('20240101000000000'), 'Commit', [(fg, 0)], [])], after=C('19700101000000000'))
                return tab.e, tab.call(fnm, args)

            def run2():
                # the time is read for what it is
                tab = Tab(w, [], [])
                st, t = tab.start()
                del tab.e.cuts[PD]
                return tab.e, tab.sc.run('table::Table::' + fnm, [t] + args, st)
            c.outcomes('times', '%s %r' % (fnm, x), run, quiet)
            c.outcomes('times', '%s on an empty table %r' % (fnm, x), run2, quiet)

    # ---- file paths given by the caller
    from .c09 import reader
    for x in ODD + [BASE, 'a/' + BASE, LOG, '/' + BASE, BASE + '/', '//', 'a//b', '../' + BASE]:
        def run():
            sc = Scene(w)
            return sc.e, sc.run('FileGroupReader::read_file_slice_by_base_file_path', [reader(sc), C(x)])
        c.outcomes('paths', 'read_file_slice_by_base_file_path %r' % x, run, quiet)

    # ---- filters
    for x in ODD:
        for o in [C('='), C('!='), C('<'), C(x), C('IN'), C('')]:
            for v in (C(x), C(''), C('1')):
                def run():
                    sc = Scene(w)
                    out = []
                    for s, r in sc.run('hudi_core::expr::filter::from_str_tuples', [L([Tup((C(x), o, v))])]):
                        r = sc.e.deep(s, r)
                        if is_ok(r):
                            for typ in ('Int32', 'Utf8', 'Date32', 'Boolean'):
                                for col in ('x', x):
                                    out += sc.run(c.method('SchemableFilter', 'try_from', 'TryFrom'), [Tup((items(r.fs[0])[0], schema((col, T(typ)))))], s.fork())
                        else:
                            out.append((s, r))
                    return sc.e, out
                c.outcomes('filters', '%r %s %r' % (x, o, v), run, quiet)

    # ---- locations
    for x in ODD + ['file:', 'file://', 'file:///', 'file:///t', 'mailto:a@b', 'data:,x', 's3:', 's3://', 's3://b', 's3://b/', 'http://', 'http:///', '://', 'c:\\x', 'file://é/x', 'memory:', 'memory:///', 's3a://b/%zz', '/t', 't', './t', '//t', 'file:///t?x=1#y']:
        def run():
            sc = build_scene(w, GOOD)
            st = St()
            return sc.e, sc.run('table::builder::TableBuilder::build', [Ref(sc.e.alloc(st, builder(sc, x)))], st)
        c.outcomes('locations', 'build %r' % x, run, quiet)

        def run():
            sc = Scene(w)
            return sc.e, sc.run('hudi_core::storage::util::parse_uri', [C(x)])
        c.outcomes('locations', 'parse_uri %r' % x, run, quiet)
