"""Abstract interpretation of exprs_to_filters and HudiDataSource::supports_filters_pushdown on filter expressions of every
kind: each comparison operator with the column on either side, negated up to three times, other operators and expression
kinds, and lists of them. A filter handed to partition pruning has to be a comparison that the expression states: same
column, same literal, and the operator the expression amounts to with the column on the left, complemented as often as it is
negated; nothing may come from a disjunction or from an expression kind that is not a comparison."""
from .tables import *

OPS = {'Eq': EQ, 'NotEq': LT | GT, 'Lt': LT, 'LtEq': LT | EQ, 'Gt': GT, 'GtEq': GT | EQ}
TOK = {'=': EQ, '!=': LT | GT, '<': LT, '<=': LT | EQ, '>': GT, '>=': GT | EQ}
FLIP = lambda m: (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)


class Mk:
    """Builds DataFusion expressions."""

    def __init__(self, w):
        self.w = w

    def adt(self, ty_, var_=None, **fs):
        a = [x for x in self.w.adts.values() if x['d'].endswith('::' + ty_) and x['d'].startswith('datafusion')]
        need(len(a) == 1, 'type ' + ty_)
        a = a[0]
        i = [i for i, v in enumerate(a['v']) if var_ is None or v['n'] == var_]
        need(len(i) == 1, '%s::%s' % (ty_, var_))
        v = a['v'][i[0]]
        ns = [f['n'] for f in v['f']]
        return Adt(a['d'], i[0], v['n'], [fs.get('f' + n if n.isdigit() else n, T('part', n)) for n in ns], ns)

    def col(self, n, rel=NONE):
        return self.adt('Expr', 'Column', f0=self.adt('Column', relation=rel, name=n))

    def lit(self, v):
        return self.adt('Expr', 'Literal', f0=self.adt('ScalarValue', 'Utf8', f0=some(v) if v is not None else NONE))

    def bin(self, op, a, b):
        return self.adt('Expr', 'BinaryExpr', f0=self.adt('BinaryExpr', left=a, op=self.adt('Operator', op), right=b))

    def not_(self, x):
        return self.adt('Expr', 'Not', f0=x)

    # types which the workspace may not mention: their fields in the order of declaration
    MORE = {'Between': ('expr', 'negated', 'low', 'high'), 'InList': ('expr', 'list', 'negated'), 'Like': ('negated', 'expr', 'pattern', 'escape_char', 'case_insensitive'),
            'Cast': ('expr', 'data_type'), 'TryCast': ('expr', 'data_type'), 'Alias': ('expr', 'relation', 'name')}

    def more(self, n, as_=None, **fs):
        ns = self.MORE[n]
        known = [a for a in self.w.adts.values() if a['d'] == 'datafusion_expr::expr::' + n]
        need(not known or [f['n'] for f in known[0]['v'][0]['f']] == list(ns), 'fields of ' + n)
        return self.adt('Expr', as_ or n, f0=Adt('datafusion_expr::expr::' + n, 0, n, tuple(fs[x] for x in ns), ns))

    def shapes(self, A, a, x, y):
        """Expressions of kinds other than comparisons, over a column and two literals."""
        out = {}
        for neg in (False, True):
            n = 'not ' if neg else ''
            out[n + 'between'] = self.more('Between', expr=a, negated=C(neg), low=x, high=y)
            out[n + 'literal between'] = self.more('Between', expr=x, negated=C(neg), low=a, high=y)
            for k in range(3):
                out['%sin %d' % (n, k)] = self.more('InList', expr=a, list=L([x, y][:k]), negated=C(neg))
            for ci in (False, True):
                out['%slike%s' % (n, ' any case' if ci else '')] = self.more('Like', negated=C(neg), expr=a, pattern=x, escape_char=NONE, case_insensitive=C(ci))
            out[n + 'similar to'] = self.more('Like', as_='SimilarTo', negated=C(neg), expr=a, pattern=x, escape_char=NONE, case_insensitive=FALSE)
        for o in OPS:
            for t in ('Int32', 'Utf8', 'Date32'):
                for kind in ('Cast', 'TryCast'):
                    out['%s %s(column) %s' % (kind, t, o)] = self.bin(o, self.more(kind, expr=a, data_type=T(t)), x)
                    out['%s %s(literal) %s' % (kind, t, o)] = self.bin(o, a, self.more(kind, expr=x, data_type=T(t)))
            out['alias %s' % o] = self.more('Alias', expr=self.bin(o, a, x), relation=NONE, name=word('al', ALNUM))
            out['alias of column %s' % o] = self.bin(o, self.more('Alias', expr=a, relation=NONE, name=word('al', ALNUM)), x)
        for wrap in ('IsTrue', 'IsFalse', 'IsUnknown', 'IsNotTrue', 'IsNotFalse', 'IsNotUnknown', 'Negative', 'IsNull', 'IsNotNull'):
            out['%s(column)' % wrap] = self.adt('Expr', wrap, f0=a)
            out['%s(literal)' % wrap] = self.adt('Expr', wrap, f0=x)
            out['%s(not column)' % wrap] = self.adt('Expr', wrap, f0=self.not_(a))
        for n, v in list(out.items()):
            out['not(%s)' % n] = self.not_(v)
        return out


def atoms(x, neg=False):
    """The comparisons (column, mask, literal) that an expression states, each on its own."""
    if not isinstance(x, Adt):
        return []
    if x.vn == 'Not':
        return atoms(x.fs[0], not neg)
    if x.vn in ('Alias', 'IsTrue') and not (x.vn == 'IsTrue' and neg) and isinstance(x.fs[0], Adt):
        # the alias of an expression states the same; what is true is stated
        return atoms(x.fs[0] if x.vn == 'IsTrue' else x.fs[0].fs[0], neg)
    if x.vn == 'Between' and isinstance(x.fs[0], Adt) and isinstance(fld(x.fs[0], 'negated'), C):
        b = x.fs[0]
        e_, lo, hi = fld(b, 'expr'), fld(b, 'low'), fld(b, 'high')
        if fld(b, 'negated').v != neg:
            return []
        out = []
        for l, m, r in ((e_, GT | EQ, lo), (e_, LT | EQ, hi)):
            if l.vn == 'Literal' and r.vn == 'Column':
                l, r, m = r, l, FLIP(m)
            if l.vn == 'Column' and r.vn == 'Literal':
                out.append((fld(l.fs[0], 'name'), m, text(r.fs[0])))
        return out
    if x.vn == 'InList' and isinstance(x.fs[0], Adt):
        b = x.fs[0]
        e_, ls = fld(b, 'expr'), fld(b, 'list').items
        if e_.vn != 'Column' or not all(l.vn == 'Literal' for l in ls):
            return []
        if fld(b, 'negated').v != neg:
            return [(fld(e_.fs[0], 'name'), LT | GT, text(l.fs[0])) for l in ls]
        return [(fld(e_.fs[0], 'name'), EQ, text(l.fs[0])) for l in ls] if len(ls) == 1 else []
    if x.vn == 'BinaryExpr':
        b = x.fs[0]
        l, o, r = fld(b, 'left'), variant(fld(b, 'op')), fld(b, 'right')
        if (o == 'And' and not neg) or (o == 'Or' and neg):
            return atoms(l, neg) + atoms(r, neg)
        if o in OPS:
            m = OPS[o]
            if l.vn == 'Literal' and r.vn == 'Column':
                l, r, m = r, l, FLIP(m)
            if l.vn == 'Column' and r.vn == 'Literal':
                return [(fld(l.fs[0], 'name'), ANY & ~m if neg else m, text(r.fs[0]))]
    return []


def text(v):
    if isinstance(v, Adt) and v.vn in ('Utf8', 'Utf8View', 'LargeUtf8') and is_some(v.fs[0]):
        return v.fs[0].fs[0]
    if isinstance(v, Adt) and not (v.fs and v.fs[0] == NONE):
        return T('display', v)
    return None


def check(c):
    w = c.w
    k = Mk(w)
    A, B, X, Y = word('colA', ALNUM), word('colB', ALNUM), word('litX', ALNUM), word('litY', ALNUM)
    f = [x for x in w.fns.values() if x.name == 'exprs_to_filters']
    try:
        exprs = {}
        ca, cb, lx, ly = k.col(A), k.col(B), k.lit(X), k.lit(Y)
        for o in OPS:
            for side in ('col-lit', 'lit-col'):
                e0 = k.bin(o, ca, lx) if side == 'col-lit' else k.bin(o, lx, ca)
                for n in range(4):
                    exprs['%s%s %s' % ('not ' * n, o, side)] = e0
                    e0 = k.not_(e0)
            exprs['%s col-col' % o] = k.bin(o, ca, cb)
            exprs['%s lit-lit' % o] = k.bin(o, lx, ly)
            exprs['not %s col-col' % o] = k.not_(k.bin(o, ca, cb))
            for vn in ('Boolean', 'Int32', 'Int64', 'UInt16', 'Date32', 'LargeUtf8', 'Utf8View'):
                exprs['%s of %s' % (o, vn)] = k.bin(o, ca, k.adt('Expr', 'Literal', f0=k.adt('ScalarValue', vn, f0=some(word('n', ALNUM)))))
            exprs['%s of null' % o] = k.bin(o, ca, k.lit(None))
            for wrap in ('IsTrue', 'IsFalse', 'IsUnknown', 'IsNotTrue', 'IsNotFalse', 'IsNotUnknown', 'Negative', 'IsNull', 'IsNotNull'):
                exprs['%s(%s)' % (wrap, o)] = k.adt('Expr', wrap, f0=k.bin(o, ca, lx))
            exprs['%s of negative' % o] = k.bin(o, k.adt('Expr', 'Negative', f0=ca), lx)
            exprs['%s of alias' % o] = k.adt('Expr', 'Alias', f0=T('alias'))
            for j in ('And', 'Or'):
                exprs['%s %s' % (o, j)] = k.bin(j, k.bin(o, ca, lx), k.bin('Eq', cb, ly))
                exprs['not(%s %s)' % (o, j)] = k.not_(k.bin(j, k.bin(o, ca, lx), k.bin('Lt', ly, cb)))
            exprs['%s of comparison' % o] = k.bin(o, k.bin('Lt', ca, lx), lx)
        adt = [x for x in w.adts.values() if x['d'].endswith('operator::Operator')][0]
        for v in adt['v']:
            if v['n'] not in OPS and v['n'] not in ('And', 'Or'):
                exprs['operator ' + v['n']] = k.bin(v['n'], ca, lx)
                exprs['operator %s swapped' % v['n']] = k.bin(v['n'], lx, ca)
                exprs['not operator ' + v['n']] = k.not_(k.bin(v['n'], ca, lx))
        for vn in ('Like', 'SimilarTo', 'Between', 'Case', 'Cast', 'TryCast', 'ScalarFunction', 'InList'):
            exprs['expression ' + vn] = k.adt('Expr', vn, f0=T('inner', vn))
            exprs['not expression ' + vn] = k.not_(k.adt('Expr', vn, f0=T('inner', vn)))
        exprs.update(k.shapes(A, ca, lx, ly))
        exprs['column'] = ca
        exprs['literal'] = lx
        exprs['not column'] = k.not_(ca)
    except Undecided as u:
        c.undec('pushdown', 'expressions', str(u))
        return

    def judge(given):
        want = [y for x in given for y in atoms(x)]

        def j(s, v):
            fs = items(v)
            need(fs is not None, 'filters %s' % v)
            for t in fs:
                n, o, val = t.items if isinstance(t, Tup) else (None, None, None)
                need(isinstance(o, C), 'filter %s' % t)
                if o.v not in TOK:
                    return 'filter with operator %s' % o, v
                if not any(n == a and TOK[o.v] == m and (l is None or l == val) for a, m, l in want):
                    return 'pushes down %s %s %s, which %s does not state' % (n, o.v, val, '; '.join(short(x) for x in given)), v
            return None
        return j
    for name, x in exprs.items():
        def run():
            need(len(f) == 1, 'exprs_to_filters')
            sc = Scene(w, recur=6)
            return sc.e, sc.run(f[0], [L([x])])
        c.outcomes('pushdown', name, run, judge([x]))
    import itertools
    pick = ['Lt col-lit', 'Gt lit-col', 'not LtEq lit-col', 'Eq Or', 'expression Like', 'not NotEq col-lit']
    for a, b in itertools.permutations(pick, 2):
        def run():
            need(len(f) == 1, 'exprs_to_filters')
            sc = Scene(w, recur=6)
            return sc.e, sc.run(f[0], [L([exprs[a], exprs[b]])])
        c.outcomes('pushdown', '%s; %s' % (a, b), run, judge([exprs[a], exprs[b]]))

    # ---- what the provider claims
    sf = w.method('HudiDataSource', 'supports_filters_pushdown', 'TableProvider')
    sch = w.method('HudiDataSource', 'schema', 'TableProvider')
    for name in exprs:
        for known in (True, False):
            def run():
                need(len(sf) == 1 and len(sch) == 1, 'supports_filters_pushdown')
                sc = Scene(w, recur=6, conf={'hoodie.table.partition.fields': A if known else 'other'}, cuts={sch[0].path: lambda en, st, a, c: [(st, schema((A if known else 'other', U8), ('x', U8)))]})
                # the column is the partition field, or another one is
                st, tab = sc.table([])
                ds = sc.struct('HudiDataSource', {'Table': tab})
                return sc.e, sc.run(sf[0], [ds, L([exprs[name], exprs['column']])], st)

            def j(s, v):
                if is_err(v):
                    return 'fails: %s' % v.fs[0], v
                xs = items(unwrap(v))
                need(xs is not None, 'answer %s' % v)
                if len(xs) != 2:
                    return '%d answers for 2 filters' % len(xs), v
                if any(variant(x) == 'Exact' for x in xs):
                    return 'claims to apply %s exactly' % short(exprs[name]), v
                return None
            c.outcomes('claims', '%s, column %s' % (name, 'known' if known else 'unknown'), run, j)
    c.floor('pushdown', 200)
    c.floor('claims', 300)
    c.also('c07', 'negate', 'compare', 'operators', 'tuple')
    c.also('c06', 'operator', 'typed')

def short(x):
    if not isinstance(x, Adt):
        return str(x)
    if x.vn == 'BinaryExpr' and len(x.fs) == 1:
        b = x.fs[0]
        return '(%s %s %s)' % (short(fld(b, 'left')), variant(fld(b, 'op')), short(fld(b, 'right')))
    if x.vn == 'Column':
        return str(fld(x.fs[0], 'name'))
    if x.vn == 'Literal':
        return str(text(x.fs[0]))
    return '%s(%s)' % (x.vn, ', '.join(short(y) for y in x.fs))
