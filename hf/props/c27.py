"""Abstract interpretation of Instant::parse_datetime with chrono evaluated on the known texts and time zones of a process
(a fixed offset, and one with daylight saving time), of the instants of a loaded timeline, of InstantRange with different
zones, and of whole queries on tables for every setting of the timeline's timezone, where times parsed in different zones
have no known order. Every text of second or millisecond precision has to give exactly its instant in the zone asked for,
other texts an error, and the queries the answers that comparing everything in the configured zone gives."""
from .tables import *
from .c04 import epoch, EPOCH
from ..models_time import civil, NS

ZONES = [None, 'utc', 'UTC', 'Utc', 'local', 'LOCAL', 'Local']


def at(*xs):
    return civil(*xs) // NS


def berlin(x):
    """The offsets of a local time in a zone with daylight saving time in 2024."""
    a, b = at(2024, 3, 31, 2), at(2024, 10, 27, 2)
    if a <= x < a + 3600:
        return []
    if b <= x < b + 3600:
        return [7200, 3600]
    return [7200] if a < x < b else [3600]


PROCESS = {'UTC+0': lambda x: [0], 'UTC+5:30': lambda x: [19800], 'UTC-8': lambda x: [-28800], 'daylight saving': berlin}

TIMES = {
    '20240315123456': (2024, 3, 15, 12, 34, 56), '20240315123456789': (2024, 3, 15, 12, 34, 56, 789000000), '20240315123456001': (2024, 3, 15, 12, 34, 56, 1000000),
    '20240315123456010': (2024, 3, 15, 12, 34, 56, 10000000), '20240315123456100': (2024, 3, 15, 12, 34, 56, 100000000),
    '20240315123456000': (2024, 3, 15, 12, 34, 56), '20240315235959999': (2024, 3, 15, 23, 59, 59, 999000000), '20240229000000': (2024, 2, 29), '19700101000000000': (1970, 1, 1),
    '20991231235959999': (2099, 12, 31, 23, 59, 59, 999000000), '20240731120000500': (2024, 7, 31, 12, 0, 0, 500000000), '20240101000000000': (2024, 1, 1),
    '19691231235959999': (1969, 12, 31, 23, 59, 59, 999000000), '19691231235959': (1969, 12, 31, 23, 59, 59), '18991231120000500': (1899, 12, 31, 12, 0, 0, 500000000),
    '00010101000000': (1, 1, 1), '99991231235959999': (9999, 12, 31, 23, 59, 59, 999000000), '22620411234716854': (2262, 4, 11, 23, 47, 16, 854000000),
    '22620411234716855': (2262, 4, 11, 23, 47, 16, 855000000), '20380119031408': (2038, 1, 19, 3, 14, 8), '20000229235959999': (2000, 2, 29, 23, 59, 59, 999000000),
    '20241027023000000': (2024, 10, 27, 2, 30), '20241027023000': (2024, 10, 27, 2, 30), '20241027030000000': (2024, 10, 27, 3), '20240331030000': (2024, 3, 31, 3),
}
BAD = ['', '2024', '2024031512345', '202403151234567', '2024031512345678', '202403151234567890', '20241315123456', '20240230123456', '20240315253456', '20240315126056',
       '2024031512345x', 'x0240315123456', '20240315123456x89', '20240315123456 89', '20240315123456+89', '20240315123456-89', '+0240315123456', '2024 315123456', '2024031512345６',
       '2024-03-15 12:', '2024-03-15 12:34:5', '2023022900000012', '20230229000000', '20230229000000000', '00000000000000', 'metadata123456', 'hoodie.properti']


def check(c):
    w = c.w
    t1, t2, t3, T0, S0 = [ts(x) for x in ('t1', 't2', 't3', 'T', 'S')]

    # ---- one text
    def parse(txt, tz, local):
        def run():
            sc = Scene(w)
            del sc.e.cuts[PD]
            sc.e.local = local
            return sc.e, sc.run(c.method('timeline::instant::Instant', 'parse_datetime'), [C(txt), C(tz)])
        return run
    for tz in ('utc', 'UTC', 'Utc', 'local', 'LOCAL'):
        for pn, local in PROCESS.items():
            for txt, v in TIMES.items():
                offs = [0] if tz.lower() == 'utc' else local(civil(*v) // NS)
                want = [T('dt', C(civil(*v) - o * NS)) for o in offs]

                def j(s, x):
                    if is_err(x):
                        return '%s is refused: %s' % (txt, x.fs[0]), x
                    return None if unwrap(x) in want else ('%s in %s is %s instead of %s' % (txt, tz, unwrap(x), want[0]), x)
                c.outcomes('parsing', '%s, %s, process in %s' % (txt, tz, pn), parse(txt, tz, local), j)
        for txt in BAD:
            c.outcomes('malformed', '%r, %s' % (txt, tz), parse(txt, tz, PROCESS['UTC+5:30']), lambda s, x: None if is_err(x) else ('%r is taken for a time' % txt, x))
    for tz in ('', 'UTCC', 'Europe/Berlin', '+01:00', 'utc '):
        c.outcomes('malformed', 'timezone %r' % tz, parse('20240315123456', tz, PROCESS['UTC+5:30']), lambda s, x: None if is_err(x) else ('timezone %r is accepted' % tz, x))

    # ---- the zone reaches every comparison
    def parsed(en, st, a, c_):
        z = en.deep(st, a[1])
        if isinstance(z, C) and isinstance(z.v, str):
            z = C(z.v.lower())
        x = en.deep(st, a[0])
        st.event('parsed', x, z)
        return [(st, ok(T('time', x, z)))]

    conf_of = lambda tz: {} if tz is None else {'hoodie.table.timeline.timezone': tz}
    zone_of = lambda tz: C((tz or 'utc').lower())

    for tz, digits in [(z, 17) for z in ZONES] + [('local', 14), ('utc', 14)]:
        t1, t2, t3, T0, S0 = [ts(x, digits) for x in ('t1', 't2', 't3', 'T', 'S')]
        # instants of the loaded timeline
        for n in (14, 17) if digits == 17 else ():
            x, y = ts('x', n), ts('y', n)

            def load():
                sc = Scene(w, files={C('.hoodie'): [cat(x, '.commit'), cat(y, '.deltacommit')]}, conf=conf_of(tz), cuts={PD: parsed})
                return sc.e, sc.run('Timeline::new_from_storage', [sc.conf, omap({})])

            def j(s, v):
                if is_err(v):
                    return 'loading fails', v
                got = items(fld(unwrap(v), 'completed_commits'))
                need(got is not None, 'instants')
                for i in got:
                    m = fld(i, 'epoch_millis')
                    if m != T('time', fld(i, 'timestamp'), zone_of(tz)):
                        return 'instant %s has the time %s in a timeline in %s' % (fld(i, 'timestamp'), m, zone_of(tz)), v
                if len(got) != 2:
                    return '%d instants instead of 2' % len(got), v
                for a, b in zip(got, got[1:]):
                    if not before(s, fld(a, 'epoch_millis'), fld(b, 'epoch_millis')):
                        return 'instants are not in the order of time', v
            c.outcomes('timeline', 'timezone %s, %d digits' % (tz, n), load, j)

        # ranges
        for own in ('utc', 'local'):
            for sv, ev in ((some(S0), NONE), (NONE, some(T0)), (some(S0), some(T0))):
                def run():
                    sc = Scene(w, cuts={PD: parsed})
                    st, r = sc.one('InstantRange::new', [C(tz or 'utc'), sv, ev, FALSE, TRUE])
                    return sc.e, sc.run('InstantRange::is_in_range', [r, t1, C(own)], st)

                def jr(s, v):
                    if is_err(v):
                        return 'the comparison fails', v
                    a, lo, hi = T('time', t1, C(own)), T('time', S0, zone_of(tz)), T('time', T0, zone_of(tz))
                    for x in completions(s, ([(a, lo)] if sv != NONE else []) + ([(a, hi)] if ev != NONE else [])):
                        want = (sv == NONE or lt(x, lo, a)) and (ev == NONE or leq(x, a, hi))
                        if unwrap(v) != C(want):
                            return 'wrong where %s' % describe(x, [lo, a, hi]), v
                    return None
                c.outcomes('range', '(%s, %s] in %s, %s, %d digits' % (sv, ev, tz, own, digits), run, jr)

        # whole queries
        g = Group('f').add(t1, logs=1).add(t3)
        g.blocks = {0: {0: [(t1, 'a'), (t2, 'b')]}}
        h = Group('h').add(t2)
        commits = [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'ReplaceCommit', [(h, 0)], []), (t3, 'Commit', [(g, 1)], [h])]
        commits = [(t1, 'DeltaCommit', [(g, 0)], []), (t2, 'DeltaCommit', [(g, 0), (h, 0)], []), (t3, 'ReplaceCommit', [(g, 1)], [h])]
        mk_ = lambda: rows_tab(w, [g, h], commits, conf=conf_of(tz), cuts={PD: parsed})

        def start(tab):
            """The table as loaded from its timeline directory."""
            tab.sc.files[C('.hoodie')] = [cat(t, SUFFIX[a]) for t, a, _, _ in commits]
            st = St()
            for a, b in ((t1, t2), (t2, t3)):
                st = tab.sc.order(st, a, '<', b)
            st.facts.set_cmp(g.fid, h.fid, LT | GT)
            for t in (S0, T0):
                st.facts.set_cmp(EPOCH, t, LT)
            for t in (t1, t2, t3, S0, T0):
                st.facts.set_cmp(EPOCH, t, LT)
                st.facts.set_cmp(T('time', EPOCH, zone_of(tz)), T('time', t, zone_of(tz)), LT)
            rs = tab.sc.run('Timeline::new_from_storage', [tab.sc.conf, omap({})], st)
            need(len(rs) == 1 and is_ok(tab.e.deep(rs[0][0], rs[0][1])), '%d timelines' % len(rs))
            st, tl = rs[0][0], tab.e.deep(rs[0][0], rs[0][1]).fs[0]
            st, fv = tab.sc.fsview(st)
            return st, tab.sc.struct('table::Table', {'HudiConfigs': tab.sc.conf, 'HashMap<': omap({}), 'timeline::Timeline': tl, 'FileSystemView': fv})

        def rows_at(tab, T_):
            def f(s):
                out = []
                for gg, i in tab.slices_as_of(s, T_):
                    out.append('row %s%d' % (gg.name, i))
                    for li in getattr(gg, 'blocks', {}).get(i, {}).values():
                        out += ['row %s' % nm for bt, nm in li if leq(s, bt, T_)]
                return out
            return f

        def rows_in(tab, E_):
            def f(s):
                out = []
                inr = lambda a: lt(s, S0, a) and leq(s, a, E_)
                for gg, i in between(tab, s, S0, E_):
                    if inr(gg.versions[i][0]):
                        out.append('row %s%d' % (gg.name, i))
                    for li in getattr(gg, 'blocks', {}).get(i, {}).values():
                        out += ['row %s' % nm for bt, nm in li if inr(bt)]
                return out
            return f
        flat = lambda v: [y for x in items(v) for y in items(x)]
        pp, ppi = pairs([t1, t2, t3, T0]), pairs([t1, t2, t3, S0, T0])
        for fn, args, jd in (
                ('get_file_slices_as_of', [T0, L([])], lambda tab: judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pp)),
                ('get_file_slices_splits_as_of', [C(2), T0, L([])], lambda tab: judge_slices(tab, lambda s: tab.slices_as_of(s, T0), pp, flat)),
                ('read_snapshot_as_of', [T0, L([])], lambda tab: judge_rows(rows_at(tab, T0), pp)),
                ('get_file_slices', [L([])], lambda tab: judge_slices(tab, lambda s: tab.slices_as_of(s, t3), pairs([t1, t2, t3]))),
                ('read_snapshot', [L([])], lambda tab: judge_rows(rows_at(tab, t3), pairs([t1, t2, t3]))),
                ('get_file_slices_between', [some(S0), some(T0)], lambda tab: judge_slices(tab, lambda s: between(tab, s, S0, T0), ppi)),
                ('get_file_slices_between', [NONE, some(T0)], lambda tab: judge_slices(tab, lambda s: between(tab, s, None, T0), pp)),
                ('read_incremental_records', [S0, some(T0)], lambda tab: judge_rows(rows_in(tab, T0), ppi)),
                ('read_incremental_records', [S0, NONE], lambda tab: judge_rows(rows_in(tab, t3), pairs([t1, t2, t3, S0])))):
            tab = mk_()
            c.outcomes('queries', '%s(%s), timezone %s, %d digits' % (fn, ', '.join(str(a) for a in args if not isinstance(a, L)), tz, digits), lambda: (tab.e, tab.call(fn, args, start=start(tab))), jd(tab))

    # ---- times of both precisions in one table
    secs, ms = '20240102030405', '20240102030405500'
    for key, files, when, want in (
            ('read in the second of a later file', ['20240102030404000', ms], secs, 0), ('read in the second of an earlier file', ['20240102030404', secs], ms, 1),
            ('read in a later second', ['20240102030404', ms], '20240102030406', 1), ('read in an earlier second', [secs, '20240102030406500'], '20240102030405900', 0),
            ('read at the same instant, given with seconds', ['20240102030404000', secs + '000'], secs, 1), ('read at the same instant, given with milliseconds', ['20240102030404', secs], secs + '000', 1)):
        for tz in ('utc', 'local'):
            g = Group('f')
            for i, f in enumerate(files):
                g.add(C(f), n='%d' % i)
            tab = rows_tab(w, [g], [(C(f), 'Commit', [(g, i)], []) for i, f in enumerate(files)], conf=conf_of(tz), cuts={PD: parsed})
            c.outcomes('precision', '%s, %s' % (key, tz), lambda: (tab.e, tab.call('get_file_slices_as_of', [C(when), L([])])), judge_slices(tab, lambda s: [(g, want)], []))
    c.floor('parsing', 300)
    c.floor('malformed', 100)
    c.floor('timeline', 14)
    c.floor('range', 30)
    c.floor('queries', 60)
    c.floor('precision', 12)
    c.also('c05', 'instant-range', 'selector')
    c.also('c02', 'log-cut')
