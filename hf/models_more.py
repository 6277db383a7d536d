"""More of the standard library: what code written differently from today's would call."""
from . import strs as S
from .val import *
from .ai import LT, EQ, GT, flip
from .models import (model, MODELS, one, equal, compare, order, ord_val, items_of, drain, map_get, map_insert, themap, do_sort,
                     concat, cs, shaped, iter_next, default_of, ORDV, kind_of, inner_ref, build, range_bounds)


def mname(c):
    return c.k['f'].rsplit('::', 1)[-1]


def fn_ref(e, st, f):
    if isinstance(e.d(st, f), Clo) and not isinstance(f, Ref):
        return Ref(e.alloc(st, f))
    return f


# ---- vectors --------------------------------------------------------------------------------------
@model('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by')
def _dedup(e, st, a, c):
    m = mname(c)
    v = e.d(st, a[0])
    if not isinstance(a[0], Ref) or not isinstance(v, L):
        return None
    f = fn_ref(e, st, a[1]) if len(a) > 1 else None
    cur = [(st, [])]
    for x in v.items:
        nx = []
        for s, acc in cur:
            if not acc:
                nx.append((s, [x]))
                continue
            if m == 'dedup':
                rs = equal(e, s, x, acc[-1])
            elif m == 'dedup_by_key':
                rs = [y for s1, k1 in e.call_closure(s, f, [x]) for s2, k2 in e.call_closure(s1, f, [acc[-1]]) for y in equal(e, s2, k1, k2)]
            else:
                rs = [y for s1, r in e.call_closure(s, f, [x, acc[-1]]) for y in e.split_bool(s1, r)]
            for s2, b in rs:
                nx.append((s2, acc if b else acc + [x]))
        cur = nx
    for s, acc in cur:
        e.wref(s, a[0], L(acc))
    return [(s, UNIT) for s, _ in cur]


@model('Itertools::dedup', 'Itertools::unique', 'Itertools::dedup_by', 'Itertools::unique_by')
def _unique(e, st, a, c):
    m = mname(c)
    if m == 'dedup_by':
        return None
    f = fn_ref(e, st, a[1]) if len(a) > 1 else None
    out = []
    for s0, xs in drain(e, st, a[0]):
        cur = [(s0, [], [])]
        for x in xs:
            nx = []
            for s, acc, keys in cur:
                for s1, k in (e.call_closure(s, f, [x]) if f is not None else [(s, x)]):
                    pend = [s1]
                    for y in (keys[-1:] if m == 'dedup' else keys):
                        np = []
                        for s2 in pend:
                            for s3, b in equal(e, s2, k, y):
                                if b:
                                    nx.append((s3, acc, keys))
                                else:
                                    np.append(s3)
                        pend = np
                    nx += [(s2, acc + [x], keys + [k]) for s2 in pend]
            cur = nx
        out += [(s, It(acc)) for s, acc, _ in cur]
    return out


@model('slice::swap', 'slice::fill', 'slice::rotate_left', 'slice::rotate_right', 'Vec::swap', 'VecDeque::swap', 'Vec::resize', 'Vec::split_off')
def _vedit(e, st, a, c):
    m = mname(c)
    v = e.d(st, a[0])
    x = [e.d(st, y) for y in a[1:]]
    if not isinstance(a[0], Ref) or not isinstance(v, L):
        return None
    it = list(v.items)
    if m == 'fill':
        it, r = [a[1]] * len(it), UNIT
    elif not isinstance(x[0], C):
        return None
    elif m == 'swap':
        if not isinstance(x[1], C):
            return None
        i, j = x[0].v, x[1].v
        if max(i, j) >= len(it):
            e.panic(st, c.frame, c.line, 'index out of range')
            return []
        it[i], it[j] = it[j], it[i]
        r = UNIT
    elif m == 'resize':
        n = x[0].v
        if n > 16:
            return None
        it, r = (it + [a[2]] * n)[:max(n, 0)] if n > len(it) else it[:n], UNIT
    else:
        n = x[0].v
        if n > len(it):
            e.panic(st, c.frame, c.line, 'index out of range')
            return []
        if m == 'split_off':
            it, r = it[:n], L(it[n:])
        else:
            k = n if m == 'rotate_left' else len(it) - n
            it, r = it[k:] + it[:k], UNIT
    e.wref(st, a[0], L(it))
    return one(st, r)


@model('slice::split_at', 'slice::rchunks', 'slice::windows', 'slice::chunks', 'slice::chunks_exact', 'slice::array_chunks', 'slice::as_chunks_')
def _slices(e, st, a, c):
    m = mname(c)
    v, n = e.d(st, a[0]), e.d(st, a[1])
    if not isinstance(v, L) or not isinstance(n, C):
        if m in ('chunks', 'chunks_exact'):
            return one(st, It([T('chunk', e.deep(st, v), e.deep(st, n))]))
        return None
    xs, k = v.items, n.v
    if m == 'split_at':
        if k > len(xs):
            e.panic(st, c.frame, c.line, 'split out of range')
            return []
        return one(st, Tup((L(xs[:k]), L(xs[k:]))))
    if k <= 0:
        e.panic(st, c.frame, c.line, 'chunk size 0')
        return []
    if m == 'windows':
        return one(st, It([L(xs[i:i + k]) for i in range(0, len(xs) - k + 1)]))
    if m == 'chunks_exact':
        return one(st, It([L(xs[i:i + k]) for i in range(0, len(xs) - k + 1, k)]))
    if m == 'rchunks':
        return one(st, It([L(xs[max(0, i - k):i]) for i in range(len(xs), 0, -k)]))
    return one(st, It([L(xs[i:i + k]) for i in range(0, len(xs), k)]))


@model('slice::chunk_by')
def _chunkby(e, st, a, c):
    v = e.d(st, a[0])
    if not isinstance(v, L):
        return None
    f = fn_ref(e, st, a[1])
    cur = [(st, [])]
    for x in v.items:
        nx = []
        for s, acc in cur:
            if not acc:
                nx.append((s, [[x]]))
                continue
            for s1, r in e.call_closure(s, f, [acc[-1][-1], x]):
                for s2, b in e.split_bool(s1, r):
                    nx.append((s2, acc[:-1] + [acc[-1] + [x]] if b else acc + [[x]]))
        cur = nx
    return [(s, It([L(y) for y in acc])) for s, acc in cur]


@model('slice::starts_with', 'slice::ends_with')
def _vsw(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if not (isinstance(x, L) and isinstance(y, L)):
        return None
    n = len(y.items)
    if n > len(x.items):
        return one(st, FALSE)
    p = x.items[:n] if mname(c) == 'starts_with' else x.items[len(x.items) - n:]
    return [(s, C(b)) for s, b in equal(e, st, L(p), y)]


@model('slice::is_sorted', 'slice::is_sorted_by_key', 'Iterator::is_sorted', 'Iterator::is_sorted_by_key')
def _issorted(e, st, a, c):
    f = fn_ref(e, st, a[1]) if len(a) > 1 else None
    out = []
    for s0, xs in items_of(e, st, e.d(st, a[0])):
        cur = [s0]
        for x, y in zip(xs, xs[1:]):
            nx = []
            for s in cur:
                for s2, o in order(e, s, x, y, f, f is not None):
                    if o == GT:
                        out.append((s2, FALSE))
                    else:
                        nx.append(s2)
            cur = nx
        out += [(s, TRUE) for s in cur]
    return out


@model('slice::get_mut', 'slice::first_mut', 'slice::last_mut', 'Vec::get_mut', 'Vec::first_mut', 'Vec::last_mut', 'VecDeque::back_mut', 'VecDeque::front_mut')
def _getmut(e, st, a, c):
    m = mname(c)
    v = e.d(st, a[0])
    if not isinstance(a[0], Ref) or not isinstance(v, L):
        return None
    n = len(v.items)
    if m == 'get_mut':
        i = e.d(st, a[1])
        if not isinstance(i, C) or not isinstance(i.v, int):
            return None
        i = i.v
    else:
        i = 0 if m in ('first_mut', 'front_mut') else n - 1
    if not 0 <= i < n:
        return one(st, NONE)
    r = inner_ref(e, st, a[0])
    return one(st, some(Ref(r.cell, r.path + (('i', C(i)),))))


@model('slice::binary_search', 'slice::binary_search_by', 'slice::binary_search_by_key')
def _bsearch(e, st, a, c):
    """Of a sorted slice without equal elements; others are left open."""
    m = mname(c)
    v = e.d(st, a[0])
    if not isinstance(v, L) or len(v.items) > 5:
        return None
    f = fn_ref(e, st, a[-1]) if m != 'binary_search' else None
    cur, out = [st], []
    for i, x in enumerate(v.items):
        nx = []
        for s in cur:
            if m == 'binary_search':
                rs = compare(e, s, x, a[1])
            elif m == 'binary_search_by':
                rs = [y for s1, r in e.call_closure(s, f, [x]) for y in ord_val(e, s1, r)]
            else:
                rs = [y for s1, r in e.call_closure(s, f, [x]) for y in compare(e, s1, r, a[1])]
            for s2, o in rs:
                if o == LT:
                    nx.append(s2)
                else:
                    out.append((s2, ok(C(i)) if o == EQ else err(C(i))))
        cur = nx
    return out + [(s, err(C(len(v.items)))) for s in cur]


@model('slice::select_nth_unstable')
def _nothing(e, st, a, c):
    return None


@model('slice::repeat')
def _srepeat(e, st, a, c):
    v, n = e.d(st, a[0]), e.d(st, a[1])
    return one(st, L(v.items * n.v)) if isinstance(v, L) and isinstance(n, C) and n.v < 8 else None


# ---- iterators ------------------------------------------------------------------------------------
@model('Iterator::cmp', 'Iterator::eq', 'Iterator::ne', 'Iterator::lt', 'Iterator::le', 'Iterator::gt', 'Iterator::ge', 'Iterator::partial_cmp')
def _icmp(e, st, a, c):
    m = mname(c)
    out = []
    for s0, xs in drain(e, st, a[0]):
        for s1, ys in drain(e, s0, a[1]):
            if m in ('eq', 'ne'):
                out += [(s, C(b == (m == 'eq'))) for s, b in equal(e, s1, L(xs), L(ys))]
                continue
            for s, o in compare(e, s1, L(xs), L(ys)):
                if m == 'cmp':
                    out.append((s, ORDV[o]))
                elif m == 'partial_cmp':
                    out.append((s, some(ORDV[o])))
                else:
                    out.append((s, C(bool(o & {'lt': LT, 'le': LT | EQ, 'gt': GT, 'ge': GT | EQ}[m]))))
    return out


@model('Iterator::step_by')
def _stepby(e, st, a, c):
    n = e.d(st, a[1])
    if not isinstance(n, C) or n.v < 1:
        return None
    return [(s, It(xs[::n.v])) for s, xs in drain(e, st, a[0])]


@model('Iterator::scan')
def _scan(e, st, a, c):
    f = fn_ref(e, st, a[2])
    cell = Ref(e.alloc(st, a[1]))
    out = []
    for s0, xs in drain(e, st, a[0]):
        cur = [(s0, [], True)]
        for x in xs:
            nx = []
            for s, acc, go in cur:
                if not go:
                    nx.append((s, acc, go))
                    continue
                for s1, r in e.call_closure(s, f, [cell, x]):
                    for s2, p in e.opt(s1, r):
                        nx.append((s2, acc + [p], True) if p is not None else (s2, acc, False))
            cur = nx
        out += [(s, It(acc)) for s, acc, _ in cur]
    return out


@model('Itertools::collect_vec', 'Itertools::sorted_by_key', 'Itertools::sorted_by', 'Itertools::sorted_unstable', 'Itertools::sorted_unstable_by',
       'Itertools::sorted_unstable_by_key')
def _itsorted(e, st, a, c):
    m = mname(c)
    out = []
    for s, xs in drain(e, st, a[0]):
        if m == 'collect_vec':
            out.append((s, L(xs)))
        elif len(xs) > 5:
            return None
        else:
            out += [(s2, It(ys)) for s2, ys in do_sort(e, s, xs, a[1] if len(a) > 1 else None, m.endswith('key'))]
    return out


@model('Peekable::next_if')
def _nextif(e, st, a, c):
    it = e.d(st, a[0])
    if not isinstance(it, It):
        return None
    if not it.items:
        return one(st, NONE)
    out = []
    for s1, r in e.call_closure(st, a[1], [it.items[0]]):
        for s2, b in e.split_bool(s1, r):
            if b:
                e.wref(s2, a[0], It(it.items[1:]))
            out.append((s2, some(it.items[0]) if b else NONE))
    return out


@model('iter::from_fn', 'iter::successors', 'from_fn::from_fn', 'successors::successors')
def _fromfn(e, st, a, c):
    succ = mname(c) == 'successors'
    f = fn_ref(e, st, a[-1])
    out = []
    if succ:
        cur = []
        for s, p in e.opt(st, a[0]):
            (cur.append((s, [p])) if p is not None else out.append((s, It(()))))
    else:
        cur = [(st, [])]
    for _ in range(8):
        nx = []
        for s, acc in cur:
            for s1, r in e.call_closure(s, f, [acc[-1]] if succ else []):
                for s2, p in e.opt(s1, r):
                    if p is None:
                        out.append((s2, It(acc)))
                    else:
                        nx.append((s2, acc + [p]))
        cur = nx
        if not cur:
            return out
    return None


@model('repeat_n::repeat_n', 'iter::repeat_n')
def _repeatn(e, st, a, c):
    n = e.d(st, a[1])
    return one(st, It([a[0]] * n.v)) if isinstance(n, C) and n.v <= 8 else None


# ---- Option, Result, bool, cells ------------------------------------------------------------------
@model('bool::then', 'bool::then_some')
def _then(e, st, a, c):
    out = []
    for s, b in e.split_bool(st, a[0]):
        if not b:
            out.append((s, NONE))
        elif mname(c) == 'then_some':
            out.append((s, some(a[1])))
        else:
            out += [(s2, some(v)) for s2, v in e.call_closure(s, a[1], [])]
    return out


@model('Option::and', 'Option::unzip', 'Option::ok_or_default_', 'Option::is_none_or_', 'Option::get_or_insert_default', 'Option::take_if')
def _optmore(e, st, a, c):
    m = mname(c)
    if m == 'and':
        return [(s, NONE if p is None else a[1]) for s, p in e.opt(st, a[0])]
    if m == 'unzip':
        return [(s, Tup((NONE, NONE)) if p is None else Tup((some(e.step_in(p, ('f', 0))), some(e.step_in(p, ('f', 1)))))) for s, p in e.opt(st, a[0])]
    if m == 'take_if' and isinstance(a[0], Ref):
        out = []
        for s, p in e.opt(st, a[0]):
            if p is None:
                out.append((s, NONE))
                continue
            for s1, r in e.call_closure(s, a[1], [p]):
                for s2, b in e.split_bool(s1, r):
                    if b:
                        e.wref(s2, a[0], NONE)
                    out.append((s2, some(p) if b else NONE))
        return out
    return None


@model('Result::iter', 'Result::into_iter')
def _resiter(e, st, a, c):
    return [(s, It([p] if o else [])) for s, o, p in e.res(st, a[0])]


@model('Result::flatten', 'Result::copied', 'Result::cloned')
def _resflat(e, st, a, c):
    out = []
    for s, o, p in e.res(st, a[0]):
        if mname(c) == 'flatten':
            out.append((s, p if o else err(p)))
        else:
            out.append((s, ok(e.d(s, p)) if o else err(p)))
    return out


@model('Arc::make_mut', 'Rc::make_mut')
def _makemut(e, st, a, c):
    return one(st, a[0])


@model('Arc::get_mut_', 'Arc::try_unwrap', 'Arc::into_inner')
def _tryunwrap(e, st, a, c):
    return None


@model('Cell::new', 'RefCell::new', 'Mutex::new', 'RwLock::new')
def _cellnew(e, st, a, c):
    return one(st, Obj(e.alloc(st, a[0])))


def _cell(e, st, v):
    o = e.d(st, v)
    return Ref(o.cell) if isinstance(o, Obj) else None


@model('Cell::get', 'Cell::set', 'Cell::replace', 'Cell::take', 'RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::into_inner', 'RefCell::replace',
       'Mutex::lock', 'RwLock::read', 'RwLock::write', 'Mutex::into_inner', 'RwLock::into_inner', 'Cell::into_inner')
def _cellops(e, st, a, c):
    m = mname(c)
    r = _cell(e, st, a[0])
    if r is None:
        return None
    old = e.d(st, r)
    k = c.k['f']
    sync = 'Mutex' in k or 'RwLock' in k
    tok = sync and 'std' not in k.split('::')[0]
    if m in ('set', 'replace'):
        e.wref(st, r, a[1])
        return one(st, UNIT if m == 'set' else old)
    if m in ('get', 'into_inner', 'borrow', 'read'):
        return one(st, ok(old) if sync and not tok else T('ready', old) if tok and m == 'read' else old)
    if m in ('borrow_mut', 'lock', 'write'):
        return one(st, r if not sync else T('ready', r) if tok else ok(r))
    return None


# ---- maps and sets --------------------------------------------------------------------------------
@model('HashMap::get_key_value', 'BTreeMap::get_key_value')
def _getkv(e, st, a, c):
    m, _ = themap(e, st, a[0])
    if not isinstance(m, M):
        return None
    return [(s, NONE if v is None else some(Tup((m.items[i][0], v)))) for s, v, i in map_get(e, st, m, e.d(st, a[1]))]


@model('HashSet::is_superset', 'BTreeSet::is_superset', 'BTreeSet::is_subset', 'BTreeSet::is_disjoint', 'HashSet::symmetric_difference', 'BTreeSet::symmetric_difference',
       'BTreeSet::union', 'BTreeSet::intersection', 'HashSet::union', 'BitOr::bitor', 'BitAnd::bitand', 'Sub::sub', 'BitXor::bitxor')
def _sets(e, st, a, c):
    m = mname(c)
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if m in ('bitor', 'bitand', 'sub', 'bitxor'):
        if not (isinstance(x, M) and isinstance(y, M)):
            if isinstance(x, (C, T)) and isinstance(y, (C, T)) and m in ('sub', 'bitand', 'bitor', 'bitxor'):
                if isinstance(x, T) and x.op == 'time' or isinstance(y, T) and y.op == 'time':
                    return None
                return e.binop(st, {'sub': 'Sub', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[m], x, y)
            return None
    if not (isinstance(x, M) and isinstance(y, M)):
        return None

    def has(s, mm, k):
        return [(s2, v is not None) for s2, v, _ in map_get(e, s, mm, k)]

    def sel(s, frm, mm, want):
        cur = [(s, [])]
        for k, _ in frm.items:
            cur = [(s3, acc + [k] if b == want else acc) for s2, acc in cur for s3, b in has(s2, mm, k)]
        return cur
    if m == 'is_subset':
        return [(s, C(not r)) for s, r in sel(st, x, y, False)]
    if m == 'is_superset':
        return [(s, C(not r)) for s, r in sel(st, y, x, False)]
    if m == 'is_disjoint':
        return [(s, C(not r)) for s, r in sel(st, x, y, True)]
    xs = [k for k, _ in x.items]
    if m in ('union', 'bitor'):
        rs = [(s, xs + r) for s, r in sel(st, y, x, False)]
    elif m in ('intersection', 'bitand'):
        rs = sel(st, x, y, True)
    elif m == 'sub':
        rs = sel(st, x, y, False)
    else:
        rs = [(s2, r + q) for s, r in sel(st, x, y, False) for s2, q in sel(s, y, x, False)]
    if m in ('bitor', 'bitand', 'sub', 'bitxor') or x.kind == 'BTreeSet':
        out = []
        for s, ks in rs:
            cur = [(s, M((), x.kind))]
            for k in ks:
                cur = [(s3, m2) for s2, mm in cur for s3, m2, _ in map_insert(e, s2, mm, k, UNIT)]
            out += cur
        if m in ('bitor', 'bitand', 'sub', 'bitxor'):
            return out
        return [(s, It([k for k, _ in mm.items])) for s, mm in out]
    return [(s, It(ks)) for s, ks in rs]


@model('BTreeMap::split_off', 'BTreeSet::split_off')
def _bsplit(e, st, a, c):
    m, r = themap(e, st, a[0])
    if not isinstance(m, M) or r is None:
        return None
    cur = [(st, [], [])]
    for k, v in m.items:
        nx = []
        for s, lo, hi in cur:
            for s2, o in e.split_cmp(s, e.d(s, k), e.d(s, a[1]), LT):
                nx.append((s2, lo + [(k, v)], hi) if o == LT else (s2, lo, hi + [(k, v)]))
        cur = nx
    for s, lo, hi in cur:
        e.wref(s, r, M(lo, m.kind))
    return [(s, M(hi, m.kind)) for s, lo, hi in cur]


@model('BTreeMap::append', 'BTreeSet::append')
def _bappend(e, st, a, c):
    m, r = themap(e, st, a[0])
    o, r2 = themap(e, st, a[1])
    if not (isinstance(m, M) and isinstance(o, M)) or r is None or r2 is None:
        return None
    cur = [(st, m)]
    for k, v in o.items:
        cur = [(s2, m2) for s, mm in cur for s2, m2, _ in map_insert(e, s, mm, k, v)]
    for s, mm in cur:
        e.wref(s, r, mm)
        e.wref(s, r2, M((), o.kind))
    return [(s, UNIT) for s, _ in cur]


@model('Entry::key', 'VacantEntry::key', 'OccupiedEntry::key', 'VacantEntry::into_key')
def _entrykey(e, st, a, c):
    from .models import entry_of
    en = entry_of(e.d(st, a[0]))
    return one(st, en.fs[1]) if isinstance(en, Adt) and en.path == 'hf::Entry' else None


@model('Entry::insert_entry', 'Entry::insert', 'VacantEntry::insert', 'VacantEntry::insert_entry', 'OccupiedEntry::insert', 'OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut',
       'OccupiedEntry::into_ref', 'OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def _entryins(e, st, a, c):
    from .models import entry_of
    en = entry_of(e.d(st, a[0]))
    if not (isinstance(en, Adt) and en.path == 'hf::Entry'):
        return None
    r, k = en.fs[0], en.fs[1]
    name, m = mname(c), e.d(st, r)
    if 'OccupiedEntry' in c.k['f'] and name != 'insert_entry':
        out = []
        for s, v, i in map_get(e, st, m, k):
            if v is None:
                return None
            slot = Ref(r.cell, r.path + (('mv', i),))
            if name == 'insert':
                e.wref(s, slot, a[1])
                out.append((s, v))
            elif name in ('remove', 'remove_entry'):
                e.wref(s, r, M(m.items[:i] + m.items[i + 1:], m.kind))
                out.append((s, v if name == 'remove' else Tup((m.items[i][0], v))))
            else:
                out.append((s, slot))
        return out
    out = []
    for s, m2, _ in map_insert(e, st, m, k, a[1]):
        e.wref(s, r, m2)
        j = [x for x, (kk, _) in enumerate(m2.items) if kk == k][0]
        out.append((s, Ref(r.cell, r.path + (('mv', j),)) if not name.endswith('_entry') else en))
    return out


# ---- numbers --------------------------------------------------------------------------------------
def _num(f):
    def g(e, st, a, c):
        v = [e.d(st, x) for x in a]
        if all(isinstance(x, C) and isinstance(x.v, (int, float)) for x in v):
            r = f(*[x.v for x in v])
            if r is not None:
                return one(st, r if isinstance(r, V) else C(r))
        return one(st, T('num:' + mname(c), *[e.deep(st, x) for x in v]))
    return g


def bits(c):
    t = c.types[c.k['ga'][0]]['s'] if c.k.get('ga') else None
    return t


def _abs_diff(x, y):
    return abs(x - y)


for _n, _f in (('abs_diff', _abs_diff), ('pow', lambda x, y: x ** y if x ** y < 1 << 63 else None), ('clamp', lambda x, lo, hi: max(lo, min(x, hi))),
               ('rem_euclid', lambda x, y: x % y if y > 0 else None), ('saturating_mul', lambda x, y: x * y if x * y < 1 << 31 else None),
               ('wrapping_mul', lambda x, y: x * y if x * y < 1 << 31 else None),
               ('wrapping_sub', lambda x, y: x - y if x >= y else None), ('checked_mul', lambda x, y: some(C(x * y)) if x * y < 1 << 31 else None),
               ('checked_div', lambda x, y: some(C(x // y)) if y else NONE), ('checked_rem', lambda x, y: some(C(x % y)) if y else NONE),
               ('is_power_of_two', lambda x: x > 0 and x & (x - 1) == 0), ('next_power_of_two', lambda x: 1 << max(0, (x - 1).bit_length())),
               ('count_ones', lambda x: bin(x).count('1') if x >= 0 else None), ('signum', lambda x: (x > 0) - (x < 0)),
               ('abs', abs), ('next_multiple_of', lambda x, y: -(-x // y) * y if y else None), ('isqrt', lambda x: __import__('math').isqrt(x) if x >= 0 else None),
               ('unsigned_abs', abs), ('ilog2', lambda x: x.bit_length() - 1 if x > 0 else None), ('is_positive', lambda x: x > 0), ('is_negative', lambda x: x < 0)):
    if _n != 'clamp':
        MODELS['num::' + _n] = _num(_f)


@model('Ord::clamp', 'num::clamp', 'cmp::Ord::clamp')
def _clamp(e, st, a, c):
    x, lo, hi = [e.d(st, y) for y in a]
    out = []
    for s, o in compare(e, st, x, lo):
        if o == LT:
            out.append((s, lo))
            continue
        for s2, o2 in compare(e, s, x, hi):
            out.append((s2, hi if o2 == GT else x))
    return out


def _flt(f):
    return _num(f)


for _n, _f in (('round', lambda x: float(int(x + 0.5)) if x >= 0 else None), ('ceil', lambda x: float(-(-x // 1))), ('floor', lambda x: float(x // 1)),
               ('trunc', lambda x: float(int(x))), ('sqrt', lambda x: x ** 0.5 if x >= 0 else None), ('abs', abs), ('max', max), ('min', min)):
    for _p in ('f64', 'f32'):
        MODELS['%s::%s' % (_p, _n)] = _flt(_f)


@model('Mul::mul', 'Div::div', 'Rem::rem')
def _arith(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(x, (C, T)) and isinstance(y, (C, T)):
        return e.binop(st, {'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[mname(c)], x, y)
    return None


@model('SubAssign::sub_assign', 'MulAssign::mul_assign', 'BitOrAssign::bitor_assign', 'BitAndAssign::bitand_assign')
def _opassign(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(x, M) or isinstance(y, M) or not isinstance(a[0], Ref):
        return None
    op = {'sub_assign': 'Sub', 'mul_assign': 'Mul', 'bitor_assign': 'BitOr', 'bitand_assign': 'BitAnd'}[mname(c)]
    rs = e.binop(st, op, x, y)
    for s, v in rs:
        e.wref(s, a[0], v)
    return [(s, UNIT) for s, _ in rs]


@model('Not::not')
def _not(e, st, a, c):
    return [(s, C(not b)) for s, b in e.split_bool(st, a[0])] if c.dest()['s'] == 'bool' else None


INTS = ('usize', 'u64', 'i64', 'u32', 'i32', 'isize', 'u8', 'u16', 'i16', 'u128', 'i128')


@model('TryFrom::try_from', 'TryInto::try_into')
def _tryfrom(e, st, a, c):
    ty = c.dest()
    v = e.d(st, a[0])
    if ty.get('d') == RES and ty.get('a'):
        n = c.types[ty['a'][0]]['s']
        if n in INTS and isinstance(v, C) and isinstance(v.v, int):
            b = 64 if n.endswith('size') else int(n[1:])
            fits = 0 <= v.v < 1 << b if n[0] == 'u' else -(1 << b - 1) <= v.v < 1 << b - 1
            return one(st, ok(v) if fits else err(T('TryFromIntError')))
        m = __import__('re').fullmatch(r'\[u8; (\d+)\]', n)
        if m and isinstance(v, L):
            return one(st, ok(v) if len(v.items) == int(m.group(1)) else err(T('TryFromSliceError')))
        if n.endswith('DFSchema'):
            return one(st, ok(T('dfschema', e.deep(st, v))))
    return None


# ---- text -----------------------------------------------------------------------------------------
@model('String::truncate', 'String::pop', 'String::remove', 'String::insert', 'String::insert_str', 'String::split_off', 'String::retain')
def _sedit(e, st, a, c):
    m = mname(c)
    x = e.deep(st, a[0])
    if not isinstance(a[0], Ref) or S.atoms(x) is None:
        return None
    if m == 'pop':
        if x == C(''):
            return one(st, NONE)
        n = S.length(x)
        ch = S.chars(x)
        if n is None or not ch:
            return None
        y = S.sub(x, C(0), C(n - 1))
        if y is None or y == 'panic':
            return None
        e.wref(st, a[0], y)
        return one(st, some(ch[-1]))
    if m == 'retain':
        return None
    i = e.d(st, a[1])
    if not isinstance(i, C):
        return None
    n = S.length(x) if not isinstance(x, C) else len(x.v)
    if m == 'truncate':
        if n is not None and i.v >= n:
            return one(st, UNIT)
        y = S.sub(x, C(0), i)
        if y is None or y == 'panic':
            return None
        e.wref(st, a[0], y)
        return one(st, UNIT)
    p, q = S.sub(x, C(0), i), S.sub(x, i, None)
    if p is None or q is None or 'panic' in (p, q):
        return None
    if m in ('insert', 'insert_str'):
        e.wref(st, a[0], concat([p, e.deep(st, a[2]), q]))
        return one(st, UNIT)
    if m == 'split_off':
        e.wref(st, a[0], p)
        return one(st, q)
    return None


@model('str::split_at')
def _strsplitat(e, st, a, c):
    x, i = e.deep(st, a[0]), e.d(st, a[1])
    if S.atoms(x) is None or not isinstance(i, C):
        return None
    p, q = S.sub(x, C(0), i), S.sub(x, i, None)
    if p is None or q is None:
        return None
    if 'panic' in (p, q):
        e.panic(st, c.frame, c.line, 'split out of range')
        return []
    return one(st, Tup((p, q)))


@model('str::split_inclusive', 'str::matches', 'str::rmatches')
def _smatches(e, st, a, c):
    m = mname(c)
    x, y = e.deep(st, a[0]), e.deep(st, a[1])
    if S.atoms(x) is None or not cs(y):
        return None
    r = S.split(x, y.v)
    if r is None:
        return None
    if m != 'split_inclusive':
        return one(st, It([y] * (len(r) - 1)))
    out = [concat([p, y]) for p in r[:-1]] + ([r[-1]] if r[-1] != C('') else [])
    return one(st, It(out))


@model('char::to_ascii_lowercase', 'methods::to_ascii_lowercase', 'char::to_ascii_uppercase', 'methods::to_ascii_uppercase')
def _chcase(e, st, a, c):
    x = e.d(st, a[0])
    if isinstance(x, C) and isinstance(x.v, str):
        return one(st, C(x.v.lower() if 'lower' in mname(c) else x.v.upper()))
    return None


@model('Path::with_file_name', 'PathBuf::set_file_name')
def _pathwith(e, st, a, c):
    x, n = e.deep(st, a[0]), e.deep(st, a[1])
    ps = S.split(x, '/') if S.atoms(x) is not None else None
    if ps is None or S.atoms(n) is None:
        return None
    while len(ps) > 1 and ps[-1] == C(''):
        ps = ps[:-1]
    if ps[-1] in (C('.'), C('..')):
        return None
    out = []
    for p in ps[:-1]:
        out += [p, C('/')]
    v = concat(out + [n])
    if mname(c) == 'set_file_name':
        e.wref(st, a[0], v)
        return one(st, UNIT)
    return one(st, v)


@model('Path::starts_with', 'Path::ends_with', 'Path::strip_prefix', 'Path::parent')
def _pathops(e, st, a, c):
    m = mname(c)
    x = e.deep(st, a[0])
    if S.atoms(x) is None:
        return None
    ps = S.split(x, '/')
    if ps is None:
        return None
    if m == 'parent':
        while len(ps) > 2 and ps[-1] == C(''):
            ps = ps[:-1]
        if len(ps) < 2:
            return one(st, some(C('')) if x != C('') else NONE)
        out = [ps[0]]
        for p in ps[1:-1]:
            out += [C('/'), p]
        return one(st, some(concat(out)))
    y = e.deep(st, a[1])
    qs = S.split(y, '/') if S.atoms(y) is not None else None
    if qs is None:
        return None
    while qs and qs[-1] == C(''):
        qs = qs[:-1]
    if m == 'ends_with':
        hit = ps[len(ps) - len(qs):] if len(qs) <= len(ps) else None
    else:
        hit = ps[:len(qs)] if len(qs) <= len(ps) else None
    if hit is None:
        return one(st, FALSE if m != 'strip_prefix' else err(T('StripPrefixError')))
    out = []
    for s, b in equal(e, st, L(hit), L(qs)):
        if m != 'strip_prefix':
            out.append((s, C(b)))
        elif not b:
            out.append((s, err(T('StripPrefixError'))))
        else:
            r = ps[len(qs):]
            w = []
            for i, p in enumerate(r):
                w += ([C('/')] if i else []) + [p]
            out.append((s, ok(concat(w) if w else C(''))))
    return out


# ---- JSON -----------------------------------------------------------------------------------------
@model('Value::as_u64', 'Value::as_i64', 'Value::as_f64', 'Value::is_null', 'Value::is_string', 'Value::is_array', 'Value::is_object', 'Value::is_number', 'Value::is_boolean',
       'Value::is_u64', 'Value::is_i64', 'Value::as_null')
def _jq(e, st, a, c):
    from .models import JV
    m = mname(c)
    v = e.d(st, a[0])
    if not (isinstance(v, Adt) and v.path == JV):
        return None
    if m.startswith('as_'):
        if m == 'as_null':
            return one(st, some(UNIT) if v.vn == 'Null' else NONE)
        if v.vn != 'Number':
            return one(st, NONE)
        if m == 'as_f64':
            return None
        return one(st, some(v.fs[0]))
    k = {'is_null': 'Null', 'is_string': 'String', 'is_array': 'Array', 'is_object': 'Object', 'is_boolean': 'Bool'}.get(m, 'Number')
    return one(st, C(v.vn == k))


# ---- times ----------------------------------------------------------------------------------------
COARSE = {'timestamp': 'second', 'date_naive': 'day', 'timestamp_subsec_millis': None}


@model('DateTime::timestamp', 'DateTime::date_naive', 'NaiveDateTime::date')
def _coarse(e, st, a, c):
    x = e.deep(st, a[0])
    if isinstance(x, T) and x.op in ('time', 'sym'):
        return one(st, T('coarse', C({'timestamp': 'second'}.get(mname(c), 'day')), x))
    return None


@model('DateTime::timestamp_micros', 'DateTime::naive_utc', 'DateTime::fixed_offset', 'DateTime::timestamp_nanos_opt_')
def _fine(e, st, a, c):
    return one(st, e.deep(st, a[0]))


# ---- streams --------------------------------------------------------------------------------------
@model('StreamExt::filter', 'StreamExt::filter_map', 'TryStreamExt::try_filter', 'TryStreamExt::try_filter_map', 'TryStreamExt::and_then')
def _sfilter(e, st, a, c):
    m = mname(c)
    f = fn_ref(e, st, a[1])
    out = []
    for s0, xs in drain(e, st, a[0]):
        cur = [(s0, [])]
        for x in xs:
            nx = []
            for s, acc in cur:
                for s1, o, p in (e.res(s, x) if m.startswith('try') or m == 'and_then' else [(s, True, x)]):
                    if not o:
                        nx.append((s1, acc + [err(p)]))
                        continue
                    for s2, r in e.call_closure(s1, f, [p]):
                        for s3, r2 in e.await_(s2, r):
                            if m == 'and_then':
                                nx.append((s3, acc + [r2]))
                            elif m in ('filter', 'try_filter'):
                                nx += [(s4, acc + [x] if b else acc) for s4, b in e.split_bool(s3, r2)]
                            elif m == 'filter_map':
                                nx += [(s4, acc + [q] if q is not None else acc) for s4, q in e.opt(s3, r2)]
                            else:
                                for s4, o4, q in e.res(s3, r2):
                                    if not o4:
                                        nx.append((s4, acc + [err(q)]))
                                    else:
                                        nx += [(s5, acc + [ok(w)] if w is not None else acc) for s5, w in e.opt(s4, q)]
            cur = nx
        out += [(s, It(acc)) for s, acc in cur]
    return out


@model('FuturesUnordered::new', 'FuturesOrdered::new', 'JoinSet::new')
def _funew(e, st, a, c):
    return one(st, T('futures'))


@model('join::join', 'future::join', 'try_join::try_join', 'future::try_join')
def _join2(e, st, a, c):
    out = []
    t = mname(c).startswith('try')
    for s1, x in e.await_(st, a[0]):
        for s2, y in e.await_(s1, a[1]):
            if not t:
                out.append((s2, T('ready', Tup((x, y)))))
                continue
            for s3, o, p in e.res(s2, x):
                if not o:
                    out.append((s3, T('ready', err(p))))
                    continue
                for s4, o4, q in e.res(s3, y):
                    out.append((s4, T('ready', ok(Tup((p, q))) if o4 else err(q))))
    return out


# ---- arrow ----------------------------------------------------------------------------------------
def is_t(v, op):
    return isinstance(v, T) and v.op == op


def _seq(e, st, v):
    v = e.deep(st, v)
    if is_t(v, 'col') or is_t(v, 'strarr'):
        v = v.args[0]
    return v if isinstance(v, L) else None


@model('Array::null_count', 'Array::logical_null_count', 'Array::is_null', 'Array::is_valid', 'Array::is_empty', 'Array::nulls', 'Array::is_nullable', 'Array::slice',
       'BooleanArray::true_count', 'BooleanArray::false_count', 'BooleanArray::has_true', 'BooleanArray::iter', 'GenericByteArray::iter', 'PrimitiveArray::iter',
       'PrimitiveArray::is_null', 'BooleanArray::len', 'PrimitiveArray::len', 'BooleanArray::is_empty')
def _arrq(e, st, a, c):
    m = mname(c)
    v = _seq(e, st, a[0])
    if v is None:
        if m == 'null_count' and is_t(e.deep(st, a[0]), 'boolarr'):
            return one(st, C(0))
        return None
    n = len(v.items)
    nul = [x == T('null') for x in v.items]
    if m in ('null_count', 'logical_null_count'):
        return one(st, C(sum(nul)))
    if m in ('is_null', 'is_valid'):
        if not any(nul):
            return one(st, C(m == 'is_valid'))
        i = e.d(st, a[1])
        return one(st, C(nul[i.v] == (m == 'is_null'))) if isinstance(i, C) and i.v < n else None
    if m == 'is_empty':
        return one(st, C(n == 0))
    if m == 'len':
        return one(st, C(n))
    if m == 'nulls':
        return None if any(nul) else one(st, NONE)
    if m == 'is_nullable':
        return one(st, C(any(nul)))
    if m == 'iter':
        return one(st, It([NONE if y else some(x) for x, y in zip(v.items, nul)]))
    if m == 'slice':
        i, k = e.d(st, a[1]), e.d(st, a[2])
        if not (isinstance(i, C) and isinstance(k, C)):
            return None
        w = e.deep(st, a[0])
        l = L(v.items[i.v:i.v + k.v])
        return one(st, T(w.op, l, *w.args[1:]) if isinstance(w, T) else l)
    from .models_arrow import bools
    out = []
    for s, bs in bools(e, st, v.items):
        t = sum(b is True for b in bs)
        out.append((s, C({'true_count': t, 'false_count': sum(b is False for b in bs), 'has_true': t > 0}[m])))
    return out


@model('take::take', 'filter::filter')
def _taker(e, st, a, c):
    from .models_arrow import bools
    w, ix = e.deep(st, a[0]), _seq(e, st, a[1])
    v = _seq(e, st, a[0])
    if v is None or ix is None:
        return None

    def mk(xs):
        return T(w.op, L(xs), *w.args[1:]) if isinstance(w, T) else L(xs)
    if mname(c) == 'take':
        if not all(isinstance(i, C) for i in ix.items):
            return None
        if any(i.v >= len(v.items) for i in ix.items):
            return None
        return one(st, ok(mk([v.items[i.v] for i in ix.items])))
    return [(s, ok(mk([x for x, b in zip(v.items, bs) if b]))) for s, bs in bools(e, st, ix.items)]


@model('RecordBatch::try_new', 'RecordBatch::project')
def _rbnew(e, st, a, c):
    m = mname(c)
    if m == 'project':
        v = e.deep(st, a[0])
        ix = e.d(st, a[1])
        if not (is_t(v, 'batch') and isinstance(v.args[1], L) and isinstance(ix, L) and all(isinstance(i, C) for i in ix.items)):
            return None
        f = v.args[0].args[0].items
        if any(i.v >= len(f) for i in ix.items):
            return one(st, err(T('arrowerr', 'project')))
        sch = T(v.args[0].op, L([f[i.v] for i in ix.items]), *v.args[0].args[1:])
        return one(st, ok(T('batch', sch, L([L([r.items[i.v] for i in ix.items]) for r in v.args[1].items]))))
    sch, cols = e.deep(st, a[0]), e.d(st, a[1])
    if not isinstance(cols, L) or not cols.items or not (isinstance(sch, T) and sch.args and isinstance(sch.args[0], L)):
        return None
    cs_ = [_seq(e, st, x) for x in cols.items]
    if any(x is None for x in cs_) or len(cs_) != len(sch.args[0].items):
        return None
    if len({len(x.items) for x in cs_}) != 1:
        return one(st, err(T('arrowerr', 'length')))
    return one(st, ok(T('batch', sch, L([L(r) for r in zip(*[x.items for x in cs_])]))))


_once0 = MODELS['OnceLock::get_or_init']


@model('OnceLock::get_or_init', 'OnceCell::get_or_init', 'OnceLock::get', 'OnceCell::get', 'OnceLock::set', 'OnceCell::set', 'OnceLock::new', 'OnceCell::new')
def _oncel(e, st, a, c):
    m = mname(c)
    if m == 'new':
        return one(st, Obj(e.alloc(st, NONE)))
    r = _cell(e, st, a[0])
    if r is None:
        return _once0(e, st, a, c) if m == 'get_or_init' else None
    v = e.d(st, r)
    if not isinstance(v, Adt):
        return None
    if m == 'get':
        return one(st, v)
    if m == 'set':
        if v.vi:
            return one(st, err(a[1]))
        e.wref(st, r, some(a[1]))
        return one(st, ok(UNIT))
    if v.vi:
        return one(st, v.fs[0])
    out = []
    for s, x in e.call_closure(st, a[1], []):
        e.wref(s, r, some(x))
        out.append((s, x))
    return out
