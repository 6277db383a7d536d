"""Abstract interpretation of the file name codecs: BaseFile and LogFile (from a name and from file metadata), Instant
(names in the timeline) and the relative paths of FileSlice. Names are built from words of unknown value in the documented
shape, and in shapes with a part missing, empty, doubled or of another form. An accepted name has to be taken apart into
the documented fields, and the name printed from the parsed value has to be the name parsed; other shapes are refused."""
from ..models import display
from .tables import *

F, K, P = word('fid', UUID), word('tok', UUID), word('w', UUID)
CODE = {'FromStr': 'from_str', 'TryFrom': 'try_from'}
STATES = {'.commit': ('Commit', 'Completed'), '.deltacommit': ('DeltaCommit', 'Completed'), '.replacecommit': ('ReplaceCommit', 'Completed'),
          '.commit.requested': ('Commit', 'Requested'), '.inflight': ('Commit', 'Inflight'), '.deltacommit.requested': ('DeltaCommit', 'Requested'),
          '.deltacommit.inflight': ('DeltaCommit', 'Inflight'), '.replacecommit.requested': ('ReplaceCommit', 'Requested'),
          '.replacecommit.inflight': ('ReplaceCommit', 'Inflight')}


def roundtrip(sc, rs, printer):
    """Pairs each parsed value with the name printed from it."""
    out = []
    for s, v in rs:
        v = sc.e.deep(s, v)
        if is_ok(v):
            for s2, n in sc.run(printer, [v.fs[0]], s):
                out.append((s2, Tup((v, sc.e.deep(s2, n)))))
        else:
            out.append((s, Tup((v, C('')))))
    return out


def judge(name, want):
    """want: {field: value}, or None if the name has to be refused."""
    def j(s, x):
        need(isinstance(x, Tup), 'result %s' % x)
        v, n = x.items
        need(is_ok(v) or is_err(v), 'result %s' % v)
        if want is None:
            return None if is_err(v) else ('malformed name %s is accepted as %s' % (name, v), v)
        if is_err(v):
            return 'well-formed name %s is refused' % name, v
        for f, y in want.items():
            g = fld(v.fs[0], f)
            need(g is not None, 'no field %s' % f)
            g = C(g.vn) if isinstance(g, Adt) and not g.fs else g
            if g != y:
                return '%s of %s is %s instead of %s' % (f, name, g, y), v
        if n != name:
            return '%s is printed as %s' % (name, n), n
        return None
    return j


def check(c):
    w = c.w
    A = ts('A')
    A14 = ts('A', 14)

    def base(tr, name):
        sc = Scene(w)
        a = name if tr == 'FromStr' else sc.file_meta(sc.e, name)
        rs = sc.run(c.method('BaseFile', CODE[tr], tr), [a])
        return sc.e, roundtrip(sc, rs, c.method('BaseFile', 'file_name'))

    def log(tr, name):
        sc = Scene(w)
        a = name if tr == 'FromStr' else sc.file_meta(sc.e, name)
        rs = sc.run(c.method('LogFile', CODE[tr], tr), [a])
        return sc.e, roundtrip(sc, rs, c.method('LogFile', 'file_name'))

    def parts(**kw):
        return {k: C(v) if isinstance(v, str) else v for k, v in kw.items()}

    D = '5a226868-2934-4f84-a16f-55124630c68d-0'
    T1, T2, X = word('t1', UUID), word('t2', UUID), word('e', S.ALNUM)
    for tr in CODE:
        good = [(cat(f, '_', k, '_', t, '.', e), parts(file_id=f, write_token=k, commit_timestamp=t, extension=e))
                for f in (F, D, cat(' ', F), 'a b', 'a.b', '1.2.3', 'v.parquet') for k in (K, '0-7-24', '0', ' 0') for t in (A, A14, '20240402144910683') for e in ('parquet', 'orc', 'hfile', X, 'parquet ')]
        for name, want in good:
            c.outcomes('base-file-name', '%s %s' % (tr, name), lambda: base(tr, name), judge(name, want))
        bad = ['', '.', '.parquet', 'parquet', '_', '__', '__.parquet', '_._', cat(F, '.parquet'), cat(F, '_', K, '.parquet'), cat(F, '_', K, '_', A),
               cat(F, '_', K, '_', A, '_', P, '.parquet'), cat(F, '_', K, '_', A, '_.parquet'), cat('_', K, '_', A, '.parquet'), cat(F, '__', A, '.parquet'),
               cat(F, '_', K, '_.parquet'), cat(F, '_', K, '_', A, '.'), cat(F, '-', K, '-', A, '.parquet'), cat('x_', F, '_', K, '_', A, '.parquet'),
               cat('.', F, '_', A, '.log.1_', K), '.hoodie_partition_metadata', P]
        for n in bad:
            n = C(n) if isinstance(n, str) else n
            c.outcomes('malformed-base-file-name', '%s %s' % (tr, n), lambda: base(tr, n), judge(n, None))
        good = [(cat('.', f, '_', t, '.', e, '.', v, '_', k), parts(file_id=f, base_commit_timestamp=t, extension=e, version=v, write_token=k))
                for f in (F, D, 'a.b', '1.2.3', 'v.log') for t in (A, A14, '20250109233025121') for e in ('log', 'archive') for v in ('1', '2', '10', word('n', S.DIGITS)) for k in (K, '0-51-115')]
        for name, want in good:
            c.outcomes('log-file-name', '%s %s' % (tr, name), lambda: log(tr, name), judge(name, want))
        bad = ['', '.', '_', '..', '._.._', '._...', '.log', cat(F, '_', A, '.log.1_', K), cat('.', F, A, '.log.1_', K) if False else cat('.', F, '.log.1_', K),
               cat('.', F, '_', A, '.log.1'), cat('.', F, '_', A, '.log_', K), cat('.', F, '_', A, '.1_', K), cat('.', F, '_', A, '_', K), cat('._', A, '.log.1_', K),
               cat('.', F, '_.log.1_', K), cat('.', F, '_', A, '..1_', K), cat('.', F, '_', A, '.log._', K), cat('.', F, '_', A, '.log.1_'),
               cat('.', F, '_', A, '.log.1.x_', K), cat('.', F, '_', A, '.log.1_', K, '_', P), cat('.', F, '_', P, '_', A, '.log.1_', K),
               cat('.', F, '_', A, '.log.1_', K, '.cdc'), cat('.', F, '_', A, '.log.1_', K, '.crc'), cat(F, '_', K, '_', A, '.parquet'), '.hoodie_partition_metadata', P]
        for n in bad:
            n = C(n) if isinstance(n, str) else n
            c.outcomes('malformed-log-file-name', '%s %s' % (tr, n), lambda: log(tr, n), judge(n, None))

    # ---- equality and order of files: by what the name says
    def same(kind, n1, n2):
        sc = Scene(w)
        st, out = St(), []
        for s, a in sc.run(c.method(kind, 'from_str', 'FromStr'), [n1], st):
            for s2, b in sc.run(c.method(kind, 'from_str', 'FromStr'), [n2], s):
                a, b = sc.e.deep(s2, a), sc.e.deep(s2, b)
                need(is_ok(a) and is_ok(b), 'names refused')
                out += sc.run(c.method(kind, 'eq', 'PartialEq'), [a.fs[0], b.fs[0]], s2)
        return sc.e, out
    mkb = lambda f='f-0', k='0-1-2', t='20240402144910683', e='parquet': C('%s_%s_%s.%s' % (f, k, t, e))
    mkl = lambda f='f-0', t='20240402144910683', v='1', k='0-1-2', e='log': C('.%s_%s.%s.%s_%s' % (f, t, e, v, k))
    for kind, m, alts in (('BaseFile', mkb, dict(f='g-0', k='0-1-3', t='20240402144910684', e='orc')),
                          ('LogFile', mkl, dict(f='g-0', t='20240402144910684', v='2', k='0-1-3', e='archive'))):
        c.outcomes('file-equality', kind + ' same name', lambda: same(kind, m(), m()), lambda s, x: None if x == TRUE else ('the same name compares as different', x))
        for f, y in alts.items():
            c.outcomes('file-equality', '%s other %s' % (kind, f), lambda: same(kind, m(), m(**{f: y})),
                       lambda s, x: None if x == FALSE else ('files of different names compare as equal', x))

    # the log files of a slice are kept in a set: files of different names are different there too
    def cmp_(n1, n2):
        sc = Scene(w)
        st, out = St(), []
        for s, a in sc.run(c.method('LogFile', 'from_str', 'FromStr'), [n1], st):
            for s2, b in sc.run(c.method('LogFile', 'from_str', 'FromStr'), [n2], s):
                a, b = sc.e.deep(s2, a), sc.e.deep(s2, b)
                need(is_ok(a) and is_ok(b), 'names refused')
                for s3, x in sc.run(c.method('LogFile', 'cmp', 'Ord'), [a.fs[0], b.fs[0]], s2):
                    for s4, y in sc.run(c.method('LogFile', 'cmp', 'Ord'), [b.fs[0], a.fs[0]], s3):
                        out.append((s4, Tup((sc.e.deep(s3, x), sc.e.deep(s4, y)))))
        return sc.e, out

    def jcmp(same_):
        def j(s, x):
            need(isinstance(x, Tup) and all(isinstance(y, Adt) for y in x.items), 'order %s' % x)
            a, b = [y.vn for y in x.items]
            if {'Less': 'Greater', 'Equal': 'Equal', 'Greater': 'Less'}[a] != b:
                return 'one order is %s, the other %s' % (a, b), x
            if (a == 'Equal') != same_:
                return 'files of different names are one in a set' if a == 'Equal' else 'files of one name are two in a set', x
            return None
        return j
    VER = [('1', '2'), ('9', '10'), ('1', '10'), ('2', '12'), ('1', '11'), ('1', '257'), ('1', '1001'), ('7', '10007'), ('1', '65537'), ('1', '4294967297'), ('1', '01'), ('99', '100')]
    for a, b in VER:
        c.outcomes('file-order', 'versions %s, %s' % (a, b), lambda: cmp_(mkl(v=a), mkl(v=b)), jcmp(False))
        c.outcomes('file-order', 'versions %s twice' % b, lambda: cmp_(mkl(v=b), mkl(v=b)), jcmp(True))
    for a, b in (('0-1-2', '0-1-3'), ('0-1-2', '1-0-2'), ('0-1-2', '0-12'), ('0-1-2', '0-1-12'), ('0-11-2', '0-1-12'), ('a', 'A')):
        c.outcomes('file-order', 'write tokens %s, %s' % (a, b), lambda: cmp_(mkl(k=a), mkl(k=b)), jcmp(False))
    for a, b in (('20240402144910683', '20240402144910684'), ('20240402144910683', '20250402144910683'), ('20240402144910', '20240402144910000'), ('20240402144910683', '20240402144911683')):
        c.outcomes('file-order', 'base times %s, %s' % (a, b), lambda: cmp_(mkl(t=a), mkl(t=b)), jcmp(False))
    W1, W2 = word('tokA', UUID), word('tokB', UUID)

    def jw(s, x):
        need(isinstance(x, Tup) and all(isinstance(y, Adt) for y in x.items), 'order %s' % x)
        if x.items[0].vn == 'Equal':
            return None if s.facts.get_cmp(W1, W2) == EQ else ('files of different names are one in a set', x)
        return None
    c.outcomes('file-order', 'two write tokens', lambda: cmp_(cat('.f-0_20240402144910683.log.1_', W1), cat('.f-0_20240402144910683.log.1_', W2)), jw)
    c.floor('file-order', 30)

    # ---- instants
    def instant(name, tz=None):
        sc = Scene(w)
        if tz is None:
            rs = sc.run(c.method('timeline::instant::Instant', 'from_str', 'FromStr'), [name])
        else:
            rs = sc.run(c.method('timeline::instant::Instant', 'try_from_file_name_and_timezone'), [name, C(tz)])
        return sc.e, roundtrip(sc, rs, c.method('timeline::instant::Instant', 'file_name'))

    def inst_path(name):
        sc = Scene(w)
        rs = sc.run(c.method('timeline::instant::Instant', 'try_from_file_name_and_timezone'), [name, C('local')])
        out = []
        for s, v in rs:
            v = sc.e.deep(s, v)
            need(is_ok(v), 'refused')
            out += sc.run(c.method('timeline::instant::Instant', 'relative_path'), [v.fs[0]], s)
        return sc.e, out
    for t in (A, A14):
        for suf, (act, stt) in STATES.items():
            n = cat(t, suf)
            for tz in (None, 'utc', 'local'):
                c.outcomes('instant-name', '%s%s (%s)' % (len(str(t)) and ('14 digits' if t == A14 else '17 digits'), suf, tz), lambda: instant(n, tz),
                           judge(n, {'timestamp': t, 'action': C(act), 'state': C(stt)}))
            c.outcomes('instant-path', '%s%s' % ('14 digits' if t == A14 else '17 digits', suf), lambda: inst_path(n),
                       lambda s, x: None if is_ok(x) and x.fs[0] == cat('.hoodie/', n) else ('the file of %s is %s' % (n, x), x))
        for suf in ('', '.', '.commit.', '.commit.completed', '.clean', '.clean.inflight', '.rollback', '.commits', '.Commit', '.commit.requested.crc', '.requested', '.inflight.commit',
                    '.commit.inflight.requested', '..commit', '.commit..inflight', '.savepoint', '.deltacommit.done', ' .commit', '.commit '):
            n = cat(t, suf) if suf else t
            want = None
            c.outcomes('malformed-instant-name', '%s%r' % ('14 digits' if t == A14 else '17 digits', suf), lambda: instant(n, 'utc'), judge(n, want))
    for t in (ts('s', 13), ts('s', 15), ts('s', 16), ts('s', 18), ts('s', 1), cat(ts('s', 8), 'T', ts('r', 8)), cat('-', ts('s', 16)), C('')):
        n = cat(t, '.commit')
        c.outcomes('malformed-instant-name', 'time %s' % t, lambda: instant(n, 'utc'), judge(n, None))
    for tz in ('UTCC', '', 'Europe/Berlin', 'loc'):
        n = C('20240402144910683.commit')

        def badtz():
            sc = Scene(w)
            del sc.e.cuts[[k for k in sc.e.cuts if k.endswith('parse_datetime')][0]]
            rs = sc.run(c.method('timeline::instant::Instant', 'try_from_file_name_and_timezone'), [n, C(tz)])
            return sc.e, roundtrip(sc, rs, c.method('timeline::instant::Instant', 'file_name'))
        c.outcomes('malformed-instant-name', 'timezone %r' % tz, badtz, judge(n, None))

    # ---- the paths of a file slice
    for part in (C(''), C('a'), C('x=1/y=2'), C('a..b'), C('..a'), C('a..'), C('a/..b/c'), C('a.b'), C('x=a%2Fb'), C('x=a b'), C(' a '), C('ä/ö'), C('x=%2E%2E'), C('a\\b'), C('__HIVE_DEFAULT_PARTITION__'), word('p', S.ALNUM), cat(word('p', S.ALNUM), '/', word('q', S.ALNUM))):
        bn, ln = cat(F, '_', K, '_', A, '.parquet'), cat('.', F, '_', A, '.log.1_', P)

        def paths(which):
            sc = Scene(w)
            out = []
            for s, b in sc.run(c.method('BaseFile', 'from_str', 'FromStr'), [bn]):
                for s2, l in sc.run(c.method('LogFile', 'from_str', 'FromStr'), [ln], s):
                    b, l = sc.e.deep(s2, b), sc.e.deep(s2, l)
                    need(is_ok(b) and is_ok(l), 'refused')
                    for s3, fs in sc.run(c.method('FileSlice', 'new'), [b.fs[0], part], s2):
                        args = [fs] + ([l.fs[0]] if which == 'log' else [])
                        out += sc.run(c.method('FileSlice', which + '_file_relative_path'), args, s3)
            return sc.e, out
        for which, n in (('base', bn), ('log', ln)):
            want = path(part, n)
            c.outcomes('slice-path', '%s file in %s' % (which, part), lambda: paths(which),
                       lambda s, x: None if is_ok(x) and x.fs[0] == want else ('the path of %s in %s is %s' % (n, part, x), x))
    c.floor('base-file-name', 140)
    c.floor('malformed-base-file-name', 44)
    c.floor('log-file-name', 180)
    c.floor('malformed-log-file-name', 50)
    c.floor('instant-name', 54)
    c.floor('malformed-instant-name', 46)
    c.floor('slice-path', 10)
    c.also('c01', 'foreign-file', 'timeline-membership')
    c.also('c21', 'listing')
    c.also('c23', 'foreign-file')
