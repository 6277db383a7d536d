"""Abstract interpretation of partition pruning: PartitionPruner::new and should_include for every combination of hive
style and URL encoding, one and two partition fields, text and integer columns, well-formed and malformed partition
paths and conjunctions of up to two filters over all six operators, with unknown path segments and filter values; and
Table::get_file_slices on tables whose configured field order differs from the schema. A path on which a partition is
skipped must have established that one filter is false for the value in that field's segment; a path on which it is
kept must not have every value read and one filter false."""
from urllib.parse import unquote

from urllib.parse import unquote_to_bytes
from .tables import *
from .c07 import OPS, mkfilter, schemable, say
from .c03 import filters

HIVE, ENC = 'hoodie.datasource.write.hive_style_partitioning', 'hoodie.datasource.write.partitionpath.urlencode'


def segments(path, fields, hive, enc):
    """The value of each field in a partition path given as a list of literals and words, or None if it has another form."""
    if enc:
        path = [C(unquote(x.v)) if isinstance(x, C) else x for x in path]
        if any(isinstance(x, C) and '�' in x.v for x in path):
            return None
    parts, cur = [], []
    for x in path:
        if isinstance(x, C):
            bits = x.v.split('/')
            cur.append(C(bits[0]))
            for b in bits[1:]:
                parts.append(S.mk(cur))
                cur = [C(b)]
        else:
            cur.append(x)
    parts.append(S.mk(cur))
    if len(parts) != len(fields):
        return None
    out = {}
    for (n, ty), p in zip(fields, parts):
        if hive:
            r = S.split_once(p, '=')
            need(r is not None, 'segment %s' % p)
            if r == NONE or r.fs[0].items[0] != C(n):
                return None
            p = r.fs[0].items[1]
        out[n] = p
    return out


def typed(v, ty):
    """A text as a value of a column type: the value, None when it is not one, or a term whose cast may fail."""
    if ty == 'Utf8':
        return v
    if isinstance(v, C):
        try:
            n = int(v.v)
            return C(n) if v.v.strip() == v.v and '_' not in v.v else None
        except ValueError:
            return None
    return T('cast', v, T(ty))


def verdict(s, seg, fl, fields, failed):
    """(a filter is certainly false, every filter was certainly evaluated) in a state; failed: casts known to fail."""
    if seg is None:
        return False, False
    vals = {}
    for n, ty in fields:
        v = typed(seg[n], ty)
        if v is None or (isinstance(v, T) and v.op == 'cast' and castfact(s, v) == 1):
            return False, False  # one value unreadable: the whole path is not used
        vals[n] = v
    no, all_ = False, True
    for n, o, x in fl:
        if n not in vals:
            continue
        ty = dict(fields)[n]
        y = typed(x, ty)
        m = s.facts.get_cmp(vals[n], y)
        if not m & OPS[o][2]:
            no = True
        if cmpfact(s, vals[n], y) == 1:
            all_ = False
    return no, all_


def castfact(s, v):
    return varfact(s, T('castable', v.args[0], v.args[1]))


def cmpfact(s, x, y):
    return varfact(s, T('comparable', x, y))


def varfact(s, k):
    for what, val in s.facts.trail:
        if what == ('var', k):
            return val
    return None


def check(c):
    w = c.w
    A, B, X, Y = word('A', ALNUM), word('B', ALNUM), word('X', ALNUM), word('Y', ALNUM)
    one_, two = [('p', 'Utf8')], [('p', 'Utf8'), ('q', 'Utf8')]
    num = [('p', 'Int32')]
    mixed = [('p', 'Int32'), ('q', 'Utf8')]

    def sch(fields):
        return schema(*[(n, T(t)) for n, t in fields])

    def go(rule, key, fields, path_, fl, conf, direct=False):
        hive, enc = conf.get(HIVE) == 'true', conf.get(ENC) == 'true'
        seg = segments(path_, fields, hive, enc)

        def run():
            sc = Scene(w, conf=conf)
            st = St()
            fs = [mkfilter(sc, C(n), o, x) for n, o, x in fl]
            if direct:
                rs = [(st, ok(sc.struct('PartitionPruner', {}, {
                    'schema': sch(fields), 'is_hive_style': C(hive), 'is_url_encoded': C(enc),
                    'and_filters': L([schemable(sc, n, U8, o, x) for n, o, x in fl])})))]
            else:
                rs = sc.run('PartitionPruner::new', [L(fs), sch(fields), sc.conf], st)
            out = []
            for s, r in rs:
                if is_ok(r):
                    out += sc.run('PartitionPruner::should_include', [r.fs[0], S.mk(path_)], s)
                else:
                    out.append((s, r))
            return sc.e, out

        def j(s, v):
            if is_err(v):
                bad = [n for n, o, x in fl if n not in dict(fields) or typed(x, dict(fields)[n]) is None
                       or (dict(fields)[n] != 'Utf8' and castfact(s, T('cast', x, T(dict(fields)[n]))) == 1)]
                return None if bad else ('building the pruner fails: %s' % v, v)
            need(v in (TRUE, FALSE), 'answer %s' % v)
            ps = []
            for n, o, x in fl:
                if seg is not None and n in seg:
                    a_, b_ = typed(seg[n], dict(fields)[n]), typed(x, dict(fields)[n])
                    if a_ is not None and b_ is not None and not (isinstance(a_, C) and isinstance(b_, C)):
                        ps.append((a_, b_))
            for x in completions(s, ps):
                no, all_ = verdict(x, seg, fl, fields, None)
                at = 'partition %s of %s with %s' % (S.mk(path_), [n for n, _ in fields], ' and '.join('%s %s %s' % (n, OPS[o][0], y) for n, o, y in fl))
                if v == FALSE and not no:
                    return '%s is skipped although no filter is known to be false: value %s' % (at, seg and ', '.join('%s=%s' % z for z in seg.items())), v
                if v == TRUE and no and all_:
                    return '%s is kept although a filter is false' % at, v
            return None
        c.outcomes(rule, key, run, j)

    confs = []
    for h in ('false', 'true', None):
        for en in ('false', 'true', None):
            confs.append({k: v for k, v in ((HIVE, h), (ENC, en)) if v is not None})
    for conf in confs:
        hive, enc = conf.get(HIVE) == 'true', conf.get(ENC) == 'true'
        tag = 'hive=%s encoded=%s' % (conf.get(HIVE), conf.get(ENC))
        h = (lambda n, *v: [C(n + '=')] + list(v)) if hive else (lambda n, *v: list(v))
        sl = [C('/')]
        deep = len(conf) == 2
        for o in (OPS if deep else ('Eq', 'Gt')):
            go('operator', '%s p %s' % (tag, o), one_, h('p', A), [('p', o, X)], conf)
            go('operator', '%s q of p/q %s' % (tag, o), two, h('p', A) + sl + h('q', B), [('q', o, X)], conf)
            go('operator', '%s p of p/q %s' % (tag, o), two, h('p', A) + sl + h('q', B), [('p', o, X)], conf)
            go('typed', '%s number %s' % (tag, o), num, h('p', A), [('p', o, X)], conf)
            go('typed', '%s number %s 7' % (tag, o), num, h('p', A), [('p', o, C('7'))], conf)
            for lit in ('10', '9', '09', 'x'):
                go('typed', '%s %s %s 9' % (tag, lit, o), num, h('p', C(lit)), [('p', o, C('9'))], conf)
            go('typed', '%s mixed %s' % (tag, o), mixed, h('p', A) + sl + h('q', B), [('q', o, X)], conf)
        # names that differ only in case, or by a part
        for f1, f2 in (('p', 'P'), ('p', 'pp'), ('p_q', 'q')):
            fs2 = [(f1, 'Utf8'), (f2, 'Utf8')]
            for o in ('Eq', 'Gt'):
                for n_ in (f1, f2):
                    go('operator', '%s %s of %s/%s %s' % (tag, n_, f1, f2, o), fs2, h(f1, A) + sl + h(f2, B), [(n_, o, X)], conf)
        go('conjunction', tag, two, h('p', A) + sl + h('q', B), [('p', 'Gte', X), ('q', 'Lt', Y)], conf)
        go('conjunction', tag + ' same field', one_, h('p', A), [('p', 'Gte', X), ('p', 'Lt', Y)], conf)
        go('conjunction', tag + ' none', two, h('p', A) + sl + h('q', B), [], conf)
        go('conjunction', tag + ' other order', two, h('p', A) + sl + h('q', B), [('q', 'Ne', Y), ('p', 'Lte', X)], conf)
        for o in ('Eq', 'Ne'):
            go('malformed', '%s too few %s' % (tag, o), two, h('p', A), [('p', o, X)], conf)
            go('malformed', '%s too many %s' % (tag, o), two, h('p', A) + sl + h('q', B) + sl + [C('r')], [('p', o, X)], conf)
            go('malformed', '%s empty %s' % (tag, o), one_, [C('')], [('p', o, X)], conf)
            go('malformed', '%s swapped %s' % (tag, o), two, h('q', A) + sl + h('p', B), [('p', o, X)], conf)
            go('malformed', '%s no name %s' % (tag, o), one_, [A], [('p', o, X)], conf)
            go('malformed', '%s other name %s' % (tag, o), one_, [C('pp='), A], [('p', o, X)], conf)
            go('malformed', '%s equals sign %s' % (tag, o), one_, h('p', A, C('='), B), [('p', o, X)], conf)
            for lit in ('a%20b', 'a%2Fb', 'a+b', '%41', '%FF', 'a b', '100%', 'a+b%20c', 'a%2Bb+', '%2525', 'a%c3%bc', '%E4%BD%A0', '%20', 'a%3Db'):
                try:
                    plain = unquote_to_bytes(lit).decode()
                    go('encoding', '%s %s %s decoded' % (tag, lit, o), one_, h('p', C(lit)), [('p', o, C(plain))], conf)
                except UnicodeDecodeError:
                    pass
                go('encoding', '%s %s %s' % (tag, lit, o), one_, h('p', C(lit)), [('p', o, C('a b'))], conf)
                go('encoding', '%s %s %s 2' % (tag, lit, o), one_, h('p', C(lit)), [('p', o, C(lit))], conf)
            go('other-field', '%s %s' % (tag, o), one_, h('p', A), [('z', o, X)], conf)
            go('other-field', '%s %s kept' % (tag, o), one_, h('p', A), [('z', o, X)], conf, direct=True)

    # ---- whole queries: the configured order of the fields is the order of the path
    t1 = ts('t1')
    for order in ('p,q', 'q,p'):
        for sorder in (('p', 'q'), ('q', 'p')):
            ns = order.split(',')
            gs = [Group('f', S.mk([C('a/b')])).add(t1), Group('h', C('b/a')).add(t1), Group('i', C('a/a')).add(t1)]
            for fn, o, val in (('p', '=', 'a'), ('q', '=', 'b'), ('p', '!=', 'a'), ('q', '<', 'b')):
                tab = rows_tab(w, gs, [(t1, 'Commit', [(g, 0) for g in gs], [])], conf={'hoodie.table.partition.fields': order},
                               sch=schema(*[(n, U8) for n in META_COLS + list(sorder) + ['v']]))
                i = ns.index(fn)
                keep = lambda g: {'=': g.part.v.split('/')[i] == val, '!=': g.part.v.split('/')[i] != val, '<': g.part.v.split('/')[i] < val}[o]
                c.outcomes('query', 'fields %s, schema %s, %s %s %s' % (order, ','.join(sorder), fn, o, val),
                           lambda: (tab.e, tab.call('get_file_slices', [filters((fn, o, val))])),
                           judge_slices(tab, lambda s: tab.slices_as_of(s, t1, keep), pairs(tab.times()), False))
    c.floor('operator', 100)
    c.floor('malformed', 100)
    c.floor('encoding', 200)
    c.floor('query', 16)
    c.also('c07', 'compare', 'cast', 'schemable', 'operators')
