"""Abstract interpretation of the meta field type: the names it prints (Display and AsRef), parses (FromStr) and reports as
positions (field_index), and the two meta schemas. The six names and their positions are those of the Hudi specification;
every variant is enumerated, and unknown names, near misses and words of any content have to be refused."""
from ..models import display
from .tables import *

FIELDS = ['_hoodie_commit_time', '_hoodie_commit_seqno', '_hoodie_record_key', '_hoodie_partition_path', '_hoodie_file_name', '_hoodie_operation']
PRE = word('w', S.ALNUM)
LOW = word('low', S.ALNUM + '_')


def text_value(s, v):
    return v.v if isinstance(v, C) else None


def check(c):
    w = c.w
    a = w.adt('MetaField')
    if a is None:
        c.undec('names', 'enum', 'no MetaField')
        return
    vs = [Adt(a['d'], i, v['n'], ()) for i, v in enumerate(a['v'])]

    def names():
        if len(vs) != 6:
            raise Bad('%d meta fields instead of 6' % len(vs))
        got = {}
        for v in vs:
            sc = Scene(w)
            rs = sc.run(c.method('MetaField', 'as_ref', 'AsRef'), [v])
            c.note_engine(sc.e)
            ts_ = [text_value(s, sc.e.deep(s, x)) for s, x in rs]
            need(len(ts_) == 1 and ts_[0] is not None, 'name of %s: %s' % (v.vn, rs))
            got[v.vn] = ts_[0]
        for n in FIELDS:
            if list(got.values()).count(n) != 1:
                raise Bad('%s is the name of %s' % (n, [k for k, x in got.items() if x == n]))
        return str(got)
    c.rule('names', 'the six names', names)

    # which variant has which name: as_ref decides, the rest has to agree
    def name_of(v):
        sc = Scene(w)
        rs = sc.run(c.method('MetaField', 'as_ref', 'AsRef'), [v])
        ts_ = [text_value(s, sc.e.deep(s, x)) for s, x in rs]
        need(len(ts_) == 1 and ts_[0] in FIELDS, 'name of %s' % v.vn)
        return ts_[0]

    for v in vs:
        try:
            n = name_of(v)
        except Undecided as u:
            c.undec('agree', v.vn, u)
            continue
        i = FIELDS.index(n)

        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('MetaField', 'field_index'), [v])
        c.outcomes('position', n, run, lambda s, x: None if x == C(i) else ('%s has position %s instead of %d' % (n, x, i), x))

        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('MetaField', 'from_str', 'FromStr'), [C(n)])
        c.outcomes('parse', n, run, lambda s, x: None if is_ok(x) and variant(unwrap(x)) == v.vn else ('%s parses to %s' % (n, x), x))

        def run():
            sc = Scene(w)
            return sc.e, display(sc.e, St(), v)
        c.outcomes('print', n, run, lambda s, x: None if x == C(n) else ('%s prints as %s' % (n, x), x))

        for bad in (n.upper(), n[1:], n + '_', ' ' + n, n.replace('_hoodie_', ''), n.replace('_hoodie_', '_hudi_')):
            def run():
                sc = Scene(w)
                return sc.e, sc.run(c.method('MetaField', 'from_str', 'FromStr'), [C(bad)])
            c.outcomes('unknown-name', repr(bad), run, lambda s, x: None if is_err(x) else ('unknown name %r parses to %s' % (bad, x), x))
    for n in ('_hoodie_is_deleted', '_hoodie_event_time', '_hoodie_change_type', '_hoodie_file', '_hoodie_instant_time', '_hoodie_record_key_', '_hoodie_recordkey', '_hoodie_commit_time_', 'operation',
              'Operation', 'CommitTime', 'CommitSeqno', 'RecordKey', 'PartitionPath', 'FileName', '_hoodie_', '_hoodie_commit', '_hoodie_record', '_hoodie_partition', '_hoodie_commit_seqno_2',
              '_hoodie_is_delete_block', '_hoodie_writer_version', '_hoodie_cdc_operation', '_hudi_operation', 'hoodie_operation', '__hoodie_operation', '_Hoodie_Operation'):
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('MetaField', 'from_str', 'FromStr'), [C(n)])
        c.outcomes('unknown-name', repr(n), run, lambda s, x: None if is_err(x) else ('unknown name %r parses to %s' % (n, x), x))
    for k, bad in (('(empty)', C('')), ('<word>', PRE), ('_hoodie_<word>', cat('_hoodie_', word('q', 'xyz0123456789'))), ('hoodie_<word>', cat('hoodie_', LOW)), ('__<word>', cat('__', LOW)), ('h<word>', cat('h', LOW)), ('_H<word>', cat('_H', LOW)),
                   ('<capital><word>', cat(word('cap', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'), LOW))):
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('MetaField', 'from_str', 'FromStr'), [bad])
        c.outcomes('unknown-name', k, run, lambda s, x: None if is_err(x) else ('unknown name %s parses to %s' % (bad, x), x))

    for fn, n in (('schema', 5), ('schema_with_operation', 6)):
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('MetaField', fn), [])

        def j(s, x):
            got = fields_of(x)
            want = FIELDS[:n]
            if [g[0] for g in got] != [C(y) for y in want]:
                return 'columns %s instead of %s' % ([str(g[0]) for g in got], want), x
            for g in got:
                if str(g[1]) != 'Utf8' and variant(g[1]) != 'Utf8' and getattr(g[1], 'op', None) != 'Utf8':
                    return 'column %s has type %s' % (g[0], g[1]), x
            return None
        c.outcomes('schema', fn, run, j)
    # a column is looked up by its name as it is
    look = [c.method('RecordBatch', 'get_array', 'ColumnAsArray'), c.method('RecordBatch', 'get_string_array', 'ColumnAsArray')]
    NEAR = ['_HOODIE_COMMIT_TIME', '_hoodie_commit_time_', 'hoodie_commit_time', ' _hoodie_commit_time', '_hoodie_commit', 'X_hoodie_commit_time', '_Hoodie_Commit_Time']
    for f in look:
        for pos in (None, 0, 3, 7):
            names = list(NEAR)
            if pos is not None:
                names.insert(pos, '_hoodie_commit_time')

            def run():
                sc = Scene(w)
                b = batch(schema(*[(n, U8) for n in names]), [[C('v%d' % i) for i in range(len(names))]])
                return sc.e, sc.run(f, [b, C('_hoodie_commit_time')])

            def j(s, x):
                if pos is None:
                    return None if is_err(x) else ('a column that is not there is found: %s' % x, x)
                return None if is_ok(x) and getattr(unwrap(x), 'op', None) == 'col' and unwrap(x).args[0] == L([C('v%d' % pos)]) else ('_hoodie_commit_time among %s is %s instead of column %d' % (names, x, pos), x)
            c.outcomes('lookup', '%s, column at %s' % (f.name, pos), run, j)
    c.floor('lookup', 8)
    c.floor('print', 6)
    c.floor('position', 6)
    c.floor('parse', 6)
    c.floor('schema', 2)


def fields_of(x):
    """[(name, type)]"""
    x = unwrap(x)
    need(isinstance(x, T) and x.op == 'schema', 'schema %s' % x)
    out = []
    for f in items(x.args[0]) or ():
        need(isinstance(f, T) and f.op == 'field', 'field %s' % f)
        out.append((f.args[0], f.args[1]))
    return out
