"""Abstract interpretation of the filter language: ExprOperator (token table, Display, FromStr, negate), Filter (negate,
tuple conversions, from_str_tuples), FilterField's builder methods and SchemableFilter (field lookup, cast, comparison).
The six operators are enumerated; field values, filter values and tokens are unknown words, and every ordering of two
values is followed. What one operator does must be the same comparison everywhere."""
from .tables import *

OPS = {'Eq': ('=', 'eq', EQ), 'Ne': ('!=', 'ne', LT | GT), 'Lt': ('<', 'lt', LT), 'Lte': ('<=', 'lte', LT | EQ),
       'Gt': ('>', 'gt', GT), 'Gte': ('>=', 'gte', GT | EQ)}
TOKEN = {t: n for n, (t, _, _) in OPS.items()}
NEG = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Gte', 'Gte': 'Lt', 'Gt': 'Lte', 'Lte': 'Gt'}


def op(w, name):
    a = w.adt('ExprOperator')
    need(a is not None, 'no ExprOperator')
    i = [i for i, v in enumerate(a['v']) if v['n'] == name]
    need(len(i) == 1 and not a['v'][i[0]]['f'], 'no operator ' + name)
    return Adt(a['d'], i[0], name, ())


def mkfilter(sc, name, o, value):
    return sc.struct('expr::filter::Filter', {}, {'field_name': name, 'operator': op(sc.w, o), 'field_value': value})


def parts(v):
    return fld(v, 'field_name'), variant(fld(v, 'operator')), fld(v, 'field_value')


def check(c):
    w = c.w
    nm, val, tok = word('field', ALNUM), word('value', ALNUM), word('token', '<>=!~&|')
    a = w.adt('ExprOperator')
    if a is None:
        c.undec('operators', 'enum', 'no ExprOperator')
        return

    def variants():
        have = {v['n'] for v in a['v']}
        if have != set(OPS):
            raise Undecided('operators %s' % sorted(have))
    c.rule('operators', 'the six operators', variants)

    # ---- tokens
    frm = lambda: c.method('ExprOperator', 'from_str', 'FromStr')
    for t, n in TOKEN.items():
        def run():
            sc = Scene(w)
            return sc.e, sc.run(frm(), [C(t)])
        c.outcomes('token', 'parse ' + t, run, lambda s, v: None if is_ok(v) and variant(unwrap(v)) == n else ('token %s parses to %s' % (t, v), v))

        def run():
            sc = Scene(w)
            return sc.e, sc.run(tuple_of(w), [mkfilter(sc, nm, n, val)])
        c.outcomes('token', 'print ' + n, run, lambda s, v: None if isinstance(v, Tup) and v.items == (nm, C(t), val) else ('%s becomes %s' % (n, v), v))
    for bad in ['==', '<>', '=<', '=>', '=!', '', ' =', '= ', 'eq', 'like', 'in', '<=>', '!', '===']:
        def run():
            sc = Scene(w)
            return sc.e, sc.run(frm(), [C(bad)])
        c.outcomes('unknown-token', repr(bad), run, lambda s, v: None if is_err(v) else ('unknown token %r is accepted: %s' % (bad, v), v))

    # ---- building and taking apart
    for n, (t, m, mask) in OPS.items():
        def run():
            sc = Scene(w)
            st, f = sc.one('hudi_core::expr::filter::col', [nm])
            return sc.e, sc.run(c.method('FilterField', m), [f, val], st)
        c.outcomes('builder', m, run, lambda s, v: None if parts(v) == (nm, n, val) else ('%s builds %s' % (m, v), v))

        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('expr::filter::Filter', 'try_from', 'TryFrom'), [Tup((nm, C(t), val))])
        c.outcomes('tuple', t, run, lambda s, v: None if is_ok(v) and parts(unwrap(v)) == (nm, n, val) else ('tuple with %s becomes %s' % (t, v), v))

        def run():
            sc = Scene(w)
            return sc.e, sc.run('hudi_core::expr::filter::from_str_tuples', [L([Tup((nm, C(t), val)), Tup((val, C('='), nm))])])
        c.outcomes('tuple', 'list of %s' % t, run, lambda s, v: None if is_ok(v) and [parts(x) for x in items(unwrap(v)) or ()] == [(nm, n, val), (val, 'Eq', nm)]
                   else ('a list of filters becomes %s' % v, v))

        # ---- negation
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('ExprOperator', 'negate'), [op(w, n)])
        c.outcomes('negate', n, run, lambda s, v: None if v == NONE or is_some(v) and variant(unwrap(v)) == NEG[n] else ('not %s is %s' % (n, v), v))

        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('expr::filter::Filter', 'negate'), [mkfilter(sc, nm, n, val)])
        c.outcomes('negate', 'filter ' + n, run, lambda s, v: None if v == NONE or is_some(v) and parts(unwrap(v)) == (nm, NEG[n], val) else ('not (field %s value) is %s' % (t, v), v))

        # ---- comparison
        for ty in ('Utf8', 'Int64'):
            x = val if ty == 'Utf8' else T('cast', val, T(ty))
            got = word('got', ALNUM) if ty == 'Utf8' else T('cast', word('got', ALNUM), T(ty))

            def run():
                sc = Scene(w)
                f = schemable(sc, nm, T(ty), n, x)
                out = []
                for s, r in sc.run(c.method('SchemableFilter', 'apply_comparsion'), [f, got]):
                    if is_ok(r):
                        out += truth(sc.e, s, r.fs[0])
                    else:
                        out.append((s, r))
                return sc.e, out

            def j(s, v):
                if is_err(v):
                    return None if ty != 'Utf8' and any(isinstance(k, tuple) and k[0] == 'var' and isinstance(k[1], T) and k[1].op == 'comparable' and n == 1 for k, n in s.facts.trail) else ('comparing fails: %s' % v, v)
                m = s.facts.get_cmp(got, x)
                if v == TRUE:
                    return 'field value %s filter value is true although not %s' % (say(m), t) if m & ~mask & ANY else None
                if v == FALSE:
                    return 'field value %s filter value is false although %s' % (say(m), t) if m & mask else None
                raise Undecided('truth of %s' % v)
            c.outcomes('compare', '%s of %s' % (n, ty), run, j)

            # a field value that is null satisfies no comparison, and does not disturb the others
            def run_n():
                sc = Scene(w)
                f = schemable(sc, nm, T(ty), n, x)
                return sc.e, sc.run(c.method('SchemableFilter', 'apply_comparsion'), [f, T('col', L([got, T('null')]), T(ty))])

            def j_n(s, v):
                if is_err(v):
                    return 'comparing fails: %s' % v, v
                b = items(unwrap(v))
                need(len(b) == 2, 'mask %s' % v)
                if b[1] not in (T('null'), FALSE):
                    return '%s of a null field value is %s' % (n, b[1]), v
                m = s.facts.get_cmp(got, x)
                need(b[0] in (TRUE, FALSE), 'mask %s' % v)
                return 'field value %s filter value is %s' % (say(m), b[0]) if (m & ~mask & ANY if b[0] == TRUE else m & mask) else None
            c.outcomes('compare-null', '%s of %s' % (n, ty), run_n, j_n)

    # ---- schema
    a_, b_ = word('a', ALNUM), word('b', ALNUM)
    for o in OPS:
        def run():
            sc = Scene(w)
            st = St()
            sch = schema(('x', T('Int32')), ('y', U8))
            return sc.e, sc.run(c.method('SchemableFilter', 'try_from', 'TryFrom'), [Tup((mkfilter(sc, C('y'), o, val), sch))])
        c.outcomes('schemable', o, run, lambda s, v: None if is_ok(v) and fld(unwrap(v), 'field') == T('field', C('y'), U8) and variant(fld(unwrap(v), 'operator')) == o
                   and fld(unwrap(v), 'value') == val else ('filter on y becomes %s' % v, v))

    def run():
        sc = Scene(w)
        return sc.e, sc.run(c.method('SchemableFilter', 'try_from', 'TryFrom'), [Tup((mkfilter(sc, C('z'), 'Eq', val), schema(('x', T('Int32')), ('y', U8))))])
    c.outcomes('schemable', 'unknown field', run, lambda s, v: None if is_err(v) else ('a filter on an unknown field becomes %s' % v, v))
    for v0, want in (('12', C(12)), ('-3', C(-3)), ('x1', None), ('99999999999', None), ('', None), ('1.5', None)):
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('SchemableFilter', 'try_from', 'TryFrom'), [Tup((mkfilter(sc, C('x'), 'Lt', C(v0)), schema(('x', T('Int32')))))])
        c.outcomes('cast', v0, run, lambda s, v: None if (is_err(v) if want is None else is_ok(v) and fld(unwrap(v), 'value') == want) else ('value %r of an Int32 field becomes %s' % (v0, v), v))
    c.floor('token', 12)
    c.floor('compare', 12)
    c.floor('negate', 12)
    c.floor('builder', 6)


def tuple_of(w):
    fs = [f for f in w.fns.values() if f.path.endswith('::from') and 'Filter' in f.path and f.kind != 'closure']
    fs = [f for f in w.fns.values() if f.name == 'from' and 'filter' in f.path.lower()] if not fs else fs
    need(len(fs) == 1, 'conversion of a Filter to a tuple: %s' % [f.path for f in fs])
    return fs[0]


def schemable(sc, name, ty, o, value):
    return sc.struct('SchemableFilter', {}, {'field': T('field', name if isinstance(name, V) else C(name), ty), 'operator': op(sc.w, o), 'value': value})


def truth(e, s, v):
    """The single value of a boolean array of one row."""
    from ..models_arrow import MASK
    if isinstance(v, T) and v.op == 'boolarr':
        o, x, y = v.args
        return [(s2, C(bool(m & MASK[o]))) for s2, m in e.split_cmp(s, x, y, MASK[o])]
    if isinstance(v, L) and len(v.items) == 1:
        return [(s2, C(b)) for s2, b in e.split_bool(s, v.items[0])]
    raise Undecided('boolean array %s' % v)


def say(m):
    return {1: '<', 2: '=', 4: '>', 3: '<=', 6: '>=', 5: '!=', 7: '(any order)'}.get(m, '?')
