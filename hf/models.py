"""What library functions mean to the value-flow engine.

A model takes (engine, state, arguments, call) and returns [(state, result)], or None to treat the call as opaque.
`first` marks models that also replace workspace code of that name (clones of data).
"""
from . import strs as S
from .val import *
from .ai import LT, EQ, GT, Undecided, Call, flip

MODELS = {}
ORD = 'core::cmp::Ordering'
LESS, EQUAL, GREATER = Adt(ORD, 0, 'Less', ()), Adt(ORD, 1, 'Equal', ()), Adt(ORD, 2, 'Greater', ())
ORDV = {LT: LESS, EQ: EQUAL, GT: GREATER}
POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'


def model(*names, first=False):
    def deco(f):
        for n in names:
            MODELS[n] = f
        if first:
            f.first = True
        return f
    return deco


def one(st, v):
    return [(st, v)]


def each(rs, f):
    out = []
    for s, v in rs:
        out += f(s, v)
    return out


# ---- things that pass their argument through ----------------------------------------------------
@model('Clone::clone', 'ToOwned::to_owned', 'Cow::into_owned', 'Option::cloned', 'Option::copied',
       'slice::to_vec', 'Vec::into_boxed_slice', 'String::into_boxed_str', 'slice::into_vec', 'Arc::unwrap_or_clone',
       'Cow::to_mut', first=True)
def _clone(e, st, a, c):
    return one(st, e.d(st, a[0]))


@model('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'String::as_str', 'Arc::new', 'Arc::as_ref',
       'Box::new', 'Rc::new', 'Option::as_ref', 'Option::as_deref', 'Result::as_ref', 'Vec::as_slice', 'hint::must_use',
       'IntoFuture::into_future', 'convert::identity', 'Arc::from', 'String::into_string', 'Result::as_deref',
       'Box::pin', 'Pin::new', 'Pin::new_unchecked', 'mem::ManuallyDrop::new', 'Box::leak', 'str::as_ref', 'Path::new',
       'PathBuf::as_path', 'Path::to_path_buf', 'hint::black_box', 'FutureExt::boxed', 'StreamExt::boxed', 'Bytes::as_ref',
       'String::as_ref', 'Path::as_os_str', 'StdFrom::from', 'Iterator::by_ref', 'Read::by_ref', 'BorrowMut::borrow_mut',
       'Wrapping::new', 'Arc::clone', 'Iterator::fuse', 'StreamExt::fuse', 'Iterator::into_iter', 'Url::as_str',
       'Pin::get_mut', 'Pin::as_mut', 'DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'Iterator::peekable',
       'Cow::from', 'FutureExt::fuse', 'Pin::get_unchecked_mut', 'Iterator::inspect_')
def _id(e, st, a, c):
    return one(st, a[0])


@model('AsRef::as_ref', 'Option::as_ref', 'Option::as_deref', 'Deref::deref', 'String::as_str', 'Result::as_ref')
def _deref(e, st, a, c):
    v = a[0]
    # a shared view of a mutable place: what it holds now
    return one(st, e.d(st, v))


@model('Iterator::cloned', 'Iterator::copied')
def _itid(e, st, a, c):
    return [(s, It([e.d(s, x) for x in xs])) for s, xs in items_of(e, st, a[0])]


@model('Option::as_mut', 'Option::as_deref_mut')
def _as_mut(e, st, a, c):
    r = a[0]
    out = []
    for s, p in e.opt(st, r):
        if p is None:
            out.append((s, NONE))
        elif isinstance(r, Ref):
            out.append((s, some(Ref(r.cell, r.path + (('v', 1, 'Some'), ('f', 0, '0'))))))
        else:
            out.append((s, some(p)))
    return out


@model('String::from', 'From::from', 'Into::into', 'TryFrom::try_from_', 'Bytes::from', 'PathBuf::from', 'Vec::from',
       'String::into_bytes', 'str::as_bytes', 'String::as_bytes', 'str::to_string', 'From<T>::from', 'OsStr::new',
       'Cow::Borrowed', 'Cow::Owned', 'String::from_str', 'Bytes::copy_from_slice', 'Bytes::to_vec', 'str::to_owned',
       'HashMap::from', 'HashSet::from', 'BTreeMap::from', 'BTreeSet::from', 'VecDeque::from', 'Arc::from', 'Box::from')
def _into(e, st, a, c):
    k = c.k if c else None
    v = e.d(st, a[0])
    if k and k.get('ga') and ('Into' in k['f'] or 'From::from' in k['f']):
        # conversion into a workspace type
        types = c.types
        ga = k['ga']
        names = [types[g] for g in ga]
        dst = names[1] if 'Into' in k['f'] else names[0]
        src = names[0] if 'Into' in k['f'] else (names[1] if len(names) > 1 else None)
        fn = find_from(e, dst, src)
        if fn is not None:
            return e.inline(st, fn, [a[0]])
        dd = dst.get('d', '')
        if dd.endswith('HashMap') or dd.endswith('BTreeMap') or dd.endswith('HashSet') or dd.endswith('BTreeSet'):
            return collect_into(e, st, a[0], dst, types)
        if dd.endswith('Error') or dd.endswith('PyErr') or dd.endswith('DataFusionError'):
            return e.opaque(st, 'into:' + dd, a, c)
        if dd == OPT and not (isinstance(v, Adt) and v.path == OPT) and (src or {}).get('d') != OPT:
            return one(st, some(v))
    return one(st, v)


def find_from(e, dst, src):
    dd = dst.get('d', dst['s'])
    if not hasattr(e, '_froms'):
        fr = {}
        for f in e.w.fns.values():
            if f.name == 'from' and f.trait and f.trait.endswith('convert::From') and f.self_ty is not None:
                t = f.types[f.self_ty]
                fr.setdefault(t.get('d', t['s']), []).append(f)
        e._froms = fr
    c = e._froms.get(dd)
    if not c:
        return None
    if src is None:
        return c[0] if len(c) == 1 else None
    for f in c:
        if f.targs and len(f.targs) > 1 and norm_ty(f.types[f.targs[1]]['s']) == norm_ty(src['s']):
            return f
    return None


def norm_ty(s):
    import re
    return re.sub(r"'\w+ ?", '', s)


# ---- Result / Option ------------------------------------------------------------------------------
def v_ok(v):
    return ok(v)


@model('Try::branch')
def _branch(e, st, a, c):
    v = e.d(st, a[0])
    ty = c.types[c.k['ga'][0]] if c and c.k.get('ga') else {}
    isopt = (isinstance(v, Adt) and v.path == OPT) or ty.get('d') == OPT
    ispoll = ty.get('d') == POLL
    if ispoll:
        return None
    if isopt:
        return [(s, Adt(CF, 0, 'Continue', (p,), ('0',)) if p is not None else Adt(CF, 1, 'Break', (NONE,), ('0',)))
                for s, p in e.opt(st, v)]
    if ty.get('d') == CF:
        return one(st, v)
    return [(s, Adt(CF, 0, 'Continue', (p,), ('0',)) if o else Adt(CF, 1, 'Break', (err(p),), ('0',)))
            for s, o, p in e.res(st, v)]


@model('FromResidual::from_residual')
def _resid(e, st, a, c):
    v = e.d(st, a[0])
    if is_err(v) and c and c.k.get('rga') is not None or is_err(v):
        # the error is converted with From
        rg = c.k.get('rga') if c else None
        if rg and len(rg) >= 3:
            types = c.types
            fn = find_from(e, types[rg[2]], types[rg[1]]) if types[rg[1]]['s'] != types[rg[2]]['s'] else None
            if fn is None and types[rg[1]]['s'] != types[rg[2]]['s']:
                fn = find_from(e, types[rg[1]], types[rg[2]])
            if fn is not None:
                return [(s, err(x)) for s, x in e.inline(st, fn, [v.fs[0]])]
    return one(st, v)


@model('Option::map', 'Option::and_then', 'Option::is_some_and', 'Option::filter', 'Option::inspect', 'Option::is_none_or')
def _optmap(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, p in e.opt(st, a[0]):
        if p is None:
            out.append((s, FALSE if m == 'is_some_and' else TRUE if m == 'is_none_or' else NONE))
        else:
            for s2, r in e.call_closure(s, a[1], [p]):
                if m == 'map':
                    out.append((s2, some(r)))
                elif m in ('and_then', 'is_some_and', 'is_none_or'):
                    out.append((s2, r))
                elif m == 'filter':
                    out += [(s3, some(p) if b else NONE) for s3, b in e.split_bool(s2, r)]
                else:
                    out.append((s2, some(p)))
    return out


@model('Option::map_or', 'Option::map_or_else')
def _mapor(e, st, a, c):
    out = []
    for s, p in e.opt(st, a[0]):
        if p is None:
            out += one(s, a[1]) if c.k['f'].endswith('map_or') else e.call_closure(s, a[1], [])
        else:
            out += e.call_closure(s, a[2], [p])
    return out


@model('Option::ok_or', 'Option::ok_or_else')
def _okor(e, st, a, c):
    out = []
    for s, p in e.opt(st, a[0]):
        if p is not None:
            out.append((s, ok(p)))
        elif c.k['f'].endswith('else'):
            out += [(s2, err(x)) for s2, x in e.call_closure(s, a[1], [])]
        else:
            out.append((s, err(a[1])))
    return out


@model('Option::unwrap_or', 'Option::unwrap_or_else', 'Option::unwrap_or_default', 'Option::or', 'Option::or_else',
       'Option::get_or_insert_with_', 'Option::xor')
def _unwrapor(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, p in e.opt(st, a[0]):
        if p is not None:
            out.append((s, p if m.startswith('unwrap') else some(p)))
        elif m in ('unwrap_or', 'or'):
            out.append((s, a[1]))
        elif m in ('unwrap_or_else', 'or_else'):
            out += e.call_closure(s, a[1], [])
        else:
            out += default_of(e, s, c.dest(), c.types)
    return out


@model('Result::unwrap_or', 'Result::unwrap_or_else', 'Result::unwrap_or_default', 'Result::or_else', 'Result::or')
def _runwrapor(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, o, p in e.res(st, a[0]):
        if o:
            out.append((s, p if m.startswith('unwrap') else ok(p)))
        else:
            s.event('error-dropped', p, c.frame.fn if c.frame else None, c.line)
            if m in ('unwrap_or', 'or'):
                out.append((s, a[1]))
            elif m in ('unwrap_or_else', 'or_else'):
                out += e.call_closure(s, a[1], [p])
            else:
                out += default_of(e, s, c.dest(), c.types)
    return out


@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _unwrap(e, st, a, c):
    out = []
    for s, p in e.opt(st, a[0]):
        if p is None:
            e.panic(s, c.frame, c.line, 'unwrap of None')
        else:
            out.append((s, p))
    return out


@model('Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err')
def _runwrap(e, st, a, c):
    neg = c.k['f'].endswith('err')
    out = []
    for s, o, p in e.res(st, a[0]):
        if o == neg:
            e.panic(s, c.frame, c.line, 'unwrap of Err')
        else:
            out.append((s, p))
    return out


@model('Option::is_some', 'Option::is_none')
def _issome(e, st, a, c):
    w = c.k['f'].endswith('is_some')
    return [(s, C((p is not None) == w)) for s, p in e.opt(st, a[0])]


@model('Result::is_ok', 'Result::is_err')
def _isok(e, st, a, c):
    w = c.k['f'].endswith('is_ok')
    return [(s, C(o == w)) for s, o, p in e.res(st, a[0])]


@model('Result::map', 'Result::and_then', 'Result::map_err', 'Result::ok', 'Result::err', 'Result::is_ok_and', 'Result::is_err_and',
       'Result::inspect_err', 'Result::inspect', 'Result::and')
def _rmap(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, o, p in e.res(st, a[0]):
        if m == 'ok':
            if not o:
                s.event('error-dropped', p, c.frame.fn if c.frame else None, c.line)
            out.append((s, some(p) if o else NONE))
        elif m == 'err':
            out.append((s, NONE if o else some(p)))
        elif m == 'and':
            out.append((s, a[1] if o else err(p)))
        elif m == 'map':
            out += [(s2, ok(x)) for s2, x in e.call_closure(s, a[1], [p])] if o else [(s, err(p))]
        elif m == 'and_then':
            out += e.call_closure(s, a[1], [p]) if o else [(s, err(p))]
        elif m == 'is_ok_and':
            out += e.call_closure(s, a[1], [p]) if o else [(s, FALSE)]
        elif m == 'is_err_and':
            out += e.call_closure(s, a[1], [p]) if not o else [(s, FALSE)]
        elif m == 'map_err':
            out += [(s2, err(x)) for s2, x in e.call_closure(s, a[1], [p])] if not o else [(s, ok(p))]
        else:
            out.append((s, ok(p) if o else err(p)))
    return out


@model('Result::map_or', 'Result::map_or_else')
def _rmapor(e, st, a, c):
    out = []
    for s, o, p in e.res(st, a[0]):
        if o:
            out += e.call_closure(s, a[2], [p])
        else:
            s.event('error-dropped', p, c.frame.fn if c.frame else None, c.line)
            out += one(s, a[1]) if c.k['f'].endswith('map_or') else e.call_closure(s, a[1], [p])
    return out


@model('Option::transpose')
def _transpose(e, st, a, c):
    out = []
    for s, p in e.opt(st, a[0]):
        if p is None:
            out.append((s, ok(NONE)))
        else:
            out += [(s2, ok(some(x)) if o else err(x)) for s2, o, x in e.res(s, p)]
    return out


@model('Result::transpose')
def _rtranspose(e, st, a, c):
    out = []
    for s, o, p in e.res(st, a[0]):
        if not o:
            out.append((s, some(err(p))))
        else:
            out += [(s2, NONE if x is None else some(ok(x))) for s2, x in e.opt(s, p)]
    return out


@model('Option::flatten')
def _flatten_o(e, st, a, c):
    return [(s, NONE if p is None else p) for s, p in e.opt(st, a[0])]


@model('Option::zip')
def _zip_o(e, st, a, c):
    out = []
    for s, p in e.opt(st, a[0]):
        if p is None:
            out.append((s, NONE))
        else:
            out += [(s2, NONE if q is None else some(Tup((p, q)))) for s2, q in e.opt(s, a[1])]
    return out


@model('Option::take', 'mem::take', 'Option::replace', 'mem::replace', 'Option::insert', 'mem::swap')
def _take(e, st, a, c):
    n = c.k['f']
    r = a[0]
    if not isinstance(r, Ref):
        return None
    if n.endswith('swap'):
        x, y = e.d(st, a[0]), e.d(st, a[1])
        e.wref(st, a[0], y)
        e.wref(st, a[1], x)
        return one(st, UNIT)
    cur = e.d(st, r)
    if n.endswith('Option::take') or 'Option' in n and n.endswith('take'):
        e.wref(st, r, NONE)
    elif n.endswith('replace'):
        e.wref(st, r, some(a[1]) if 'option' in n else a[1])
    elif n.endswith('insert'):
        e.wref(st, r, some(a[1]))
        return one(st, Ref(r.cell, r.path + (('v', 1, 'Some'), ('f', 0, '0'))))
    else:
        out = []
        for s, v in default_of(e, st, c.dest(), c.types):
            e.wref(s, r, v)
            out.append((s, cur))
        return out
    return one(st, cur)


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def _goi(e, st, a, c):
    out = []
    r = a[0]
    for s, p in e.opt(st, r):
        ref = Ref(r.cell, r.path + (('v', 1, 'Some'), ('f', 0, '0'))) if isinstance(r, Ref) else None
        if p is not None:
            out.append((s, ref or p))
        else:
            for s2, v in (e.call_closure(s, a[1], []) if c.k['f'].endswith('with') else [(s, a[1])]):
                if ref is not None:
                    e.wref(s2, r, some(v))
                out.append((s2, ref or v))
    return out


# ---- futures and streams --------------------------------------------------------------------------
@model('Future::poll')
def _poll(e, st, a, c):
    return [(s, Adt(POLL, 0, 'Ready', (v,), ('0',))) for s, v in e.await_(st, a[0])]


@model('future::get_context')
def _ctx(e, st, a, c):
    return one(st, T('ctx'))


@model('Runtime::block_on', 'Handle::block_on', 'executor::block_on')
def _blockon(e, st, a, c):
    return e.await_(st, a[-1])


@model('Python::allow_threads', 'Python::detach')
def _allow(e, st, a, c):
    return e.call_closure(st, a[1], [])


@model('functions::spawn', 'thread::spawn')
def _spawn(e, st, a, c):
    return [(s, T('joinh', v)) for s, v in e.call_closure(st, a[0], [])]


@model('JoinHandle::join')
def _join(e, st, a, c):
    v = e.d(st, a[0])
    if isinstance(v, T) and v.op == 'joinh':
        return one(st, ok(v.args[0]))
    return None


@model('future::ready', 'ready::ready', 'ready::ok', 'future::ok')
def _ready(e, st, a, c):
    return one(st, T('ready', ok(a[0]) if c.k['f'].endswith('ok') else a[0]))


@model('try_join_all::try_join_all', 'future::try_join_all', 'join_all::join_all', 'future::join_all')
def _joinall(e, st, a, c):
    tr = 'try_' in c.k['f']
    out = []
    for s, xs in items_of(e, st, a[0]):
        for s2, vs in seq(e, s, xs, lambda s, x: e.await_(s, x)):
            if not tr:
                out.append((s2, T('ready', L(vs))))
            else:
                out += [(s3, T('ready', v)) for s3, v in all_ok(e, s2, vs, L)]
    return out


def seq(e, st, xs, f):
    """f applied to each of xs in turn; [(state, [values])]."""
    cur = [(st, [])]
    for x in xs:
        nx = []
        for s, vs in cur:
            for s2, v in f(s, x):
                nx.append((s2, vs + [v]))
        cur = nx
    return cur


def all_ok(e, st, vs, mk):
    """[(state, Ok(mk(payloads)) or the first Err)]."""
    out = []
    cur = [(st, [])]
    for v in vs:
        nx = []
        for s, ps in cur:
            for s2, o, p in e.res(s, v):
                if o:
                    nx.append((s2, ps + [p]))
                else:
                    out.append((s2, err(p)))
        cur = nx
    return [(s, ok(mk(ps))) for s, ps in cur] + out


@model('iter::iter', 'stream::iter')
def _striter(e, st, a, c):
    return [(s, It(xs)) for s, xs in items_of(e, st, a[0])]


@model('StreamExt::buffer_unordered', 'StreamExt::buffered', 'TryStreamExt::try_buffered_')
def _buffered(e, st, a, c):
    out = []
    st.event('buffer', e.deep(st, a[1]), c.frame.fn if c.frame else None, c.line)
    for s, xs in items_of(e, st, a[0]):
        out += [(s2, It(vs)) for s2, vs in seq(e, s, xs, lambda s, x: e.await_(s, x))]
    return out


@model('StreamExt::then', 'TryStreamExt::and_then_')
def _then(e, st, a, c):
    out = []
    for s, xs in items_of(e, st, a[0]):
        def f(s, x):
            return each(e.call_closure(s, a[1], [x]), e.await_)
        out += [(s2, It(vs)) for s2, vs in seq(e, s, xs, f)]
    return out


@model('TryStreamExt::try_collect')
def _trycollect(e, st, a, c):
    out = []
    for s, xs in items_of(e, st, a[0]):
        out += [(s2, T('ready', v)) for s2, v in all_ok(e, s, xs, L)]
    return out


@model('TryStreamExt::try_for_each', 'TryStreamExt::try_for_each_concurrent')
def _tryforeach(e, st, a, c):
    cur, out = [(st, None)], []
    res = []
    for s, xs in items_of(e, st, a[0]):
        cur = [s]
        for x in xs:
            nx = []
            for s1 in cur:
                for s2, o, p in e.res(s1, x):
                    if not o:
                        res.append((s2, T('ready', err(p))))
                        continue
                    for s3, f in e.call_closure(s2, a[-1], [p]):
                        for s4, r in e.await_(s3, f):
                            for s5, o2, q in e.res(s4, r):
                                if o2:
                                    nx.append(s5)
                                else:
                                    res.append((s5, T('ready', err(q))))
            cur = nx
        res += [(s1, T('ready', ok(UNIT))) for s1 in cur]
    return res


@model('StreamExt::for_each', 'StreamExt::for_each_concurrent')
def _sforeach(e, st, a, c):
    out = []
    for s, xs in items_of(e, st, a[0]):
        out += [(s2, T('ready', UNIT)) for s2, _ in
                seq(e, s, xs, lambda s, x: each(e.call_closure(s, a[-1], [x]), e.await_))]
    return out


@model('StreamExt::collect')
def _scollect(e, st, a, c):
    return [(s, T('ready', L(xs))) for s, xs in items_of(e, st, a[0])]


@model('StreamExt::next', 'TryStreamExt::try_next')
def _snext(e, st, a, c):
    out = []
    for s, v in iter_next(e, st, a[0]):
        if c.k['f'].endswith('try_next'):
            for s2, p in e.opt(s, v):
                if p is None:
                    out.append((s2, T('ready', ok(NONE))))
                else:
                    out += [(s3, T('ready', ok(some(q)) if o else err(q))) for s3, o, q in e.res(s2, p)]
        else:
            out.append((s, T('ready', v)))
    return out


@model('TryFutureExt::map_err', 'TryFutureExt::map_ok', 'FutureExt::map', 'TryFutureExt::and_then')
def _futmap(e, st, a, c):
    n = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, v in e.await_(st, a[0]):
        if n == 'map':
            out += [(s2, T('ready', x)) for s2, x in e.call_closure(s, a[1], [v])]
            continue
        for s2, o, p in e.res(s, v):
            if n == 'and_then' and o:
                out += [(s4, T('ready', y)) for s3, x in e.call_closure(s2, a[1], [p]) for s4, y in e.await_(s3, x)]
            elif (n == 'map_ok') == o and n != 'and_then':
                out += [(s3, T('ready', (ok if o else err)(x))) for s3, x in e.call_closure(s2, a[1], [p])]
            else:
                out.append((s2, T('ready', (ok if o else err)(p))))
    return out


# ---- closures -------------------------------------------------------------------------------------
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _callf(e, st, a, c):
    args = e.d(st, a[1])
    return e.call_closure(st, a[0], list(args.items) if isinstance(args, Tup) else [args])


# ---- iteration ------------------------------------------------------------------------------------
RANGES = ('core::ops::range::Range', 'core::ops::range::RangeInclusive')


def items_of(e, st, v, refs=False):
    """[(state, [elements])] of anything that can be iterated."""
    r = v
    v = e.d(st, v)
    if isinstance(v, (L, It)):
        if refs and isinstance(r, Ref):
            r = inner_ref(e, st, r)
            return [(st, [Ref(r.cell, r.path + (('i', C(i)),)) for i in range(len(v.items))])]
        return [(st, list(v.items))]
    if isinstance(v, Obj):
        v = st.heap.get(v.cell)
    if isinstance(v, M):
        if v.kind.endswith('Set'):
            return [(st, [k for k, _ in v.items])]
        if refs and isinstance(r, Ref):
            r = inner_ref(e, st, r)
            return [(st, [Tup((k, Ref(r.cell, r.path + (('mv', i),)))) for i, (k, _) in enumerate(v.items)])]
        return [(st, [Tup((k, x)) for k, x in v.items])]
    if isinstance(v, Adt) and v.path == OPT:
        return [(st, [v.fs[0]] if v.vi else [])]
    if isinstance(v, Adt) and v.path in RANGES:
        lo, hi = v.fs[0], v.fs[1]
        if isinstance(lo, C) and isinstance(hi, C) and hi.v - lo.v <= 64:
            return [(st, [C(i) for i in range(lo.v, hi.v + (1 if 'Inclusive' in v.path else 0))])]
        return [(st, [T('elem', v, 0)])]
    if isinstance(v, Adt) and v.path == RES:
        return [(st, [v.fs[0]] if v.vi == 0 else [])]
    if isinstance(v, C) and isinstance(v.v, bytes):
        return [(st, [C(x) for x in v.v])]
    if isinstance(v, Adt):
        # a workspace iterator type
        fn = e.implidx().get(('core::iter::traits::collect::IntoIterator', 'into_iter', v.path))
        if fn:
            out = []
            for s, w in e.inline(st, fn[0], [v]):
                out += items_of(e, s, w)
            return out
        fn = e.implidx().get(('core::iter::traits::iterator::Iterator', 'next', v.path))
        if fn:
            return pull(e, st, fn[0], Ref(e.alloc(st, v)), None)
    v = e.deep(st, v)
    em = T('empty', v)
    if st.facts.bools.get(em) is True:
        return [(st, [])]
    n = 1
    if e.reps is not None:
        n = e.reps(v)
    return [(st, [T('elem', v, i) for i in range(n)])]


def pull(e, st, fn, ref, n):
    """The elements a workspace iterator gives, at most n."""
    cur, out = [(st, [])], []
    for _ in range(12 if n is None else min(n, 12)):
        nx = []
        for s, xs in cur:
            for s2, o in e.inline(s, fn, [ref]):
                for s3, p in e.opt(s2, o):
                    if p is None or len(xs) > 1 and all(isinstance(x, Adt) and x.vn == 'Err' for x in (p, xs[-1], xs[-2])):
                        out.append((s3, xs))  # what follows three errors is not looked at
                    else:
                        nx.append((s3, xs + [p]))
        cur = nx
    if cur and (n is None or n > 12):
        e.truncated.append((fn.path, 'iteration'))
        return out + [(s, xs + [T('uninit')]) for s, xs in cur]
    return out + cur


def inner_ref(e, st, r):
    n = 0
    while n < 20:
        cur = e.rd(st, r.cell, r.path)
        if not isinstance(cur, Ref):
            return r
        r = cur
        n += 1
    return r


@model('slice::iter', 'Vec::iter', 'HashMap::iter', 'BTreeMap::iter', 'HashSet::iter', 'BTreeSet::iter', 'Vec::into_iter',
       'DashMap::iter', 'HashMap::into_iter', 'VecDeque::iter', 'Map::iter', 'Option::iter', 'Option::into_iter', 'Fields::iter')
def _iter(e, st, a, c):
    return [(s, It(xs)) for s, xs in items_of(e, st, e.d(st, a[0]))]


@model('slice::iter_mut', 'HashMap::iter_mut', 'BTreeMap::iter_mut', 'Vec::iter_mut', 'VecDeque::iter_mut')
def _itermut(e, st, a, c):
    return [(s, It(xs)) for s, xs in items_of(e, st, a[0], refs=True)]


@model('DashMap::iter_mut')
def _dashitermut(e, st, a, c):
    o = e.d(st, a[0])
    st.event('lock', 'iter_mut')
    if isinstance(o, Obj):
        return [(s, It([Tup((x.items[0], x.items[1])) for x in xs])) for s, xs in items_of(e, st, Ref(o.cell), refs=True)]
    return None


@model('RefMutMulti::key', 'RefMulti::key')
def _rmk(e, st, a, c):
    v = e.d(st, a[0])
    return one(st, e.step_in(v, ('f', 0)))


@model('RefMutMulti::value_mut', 'RefMulti::value', 'RefMutMulti::value')
def _rmv(e, st, a, c):
    v = e.d(st, a[0])
    return one(st, e.step_in(v, ('f', 1)))


@model('IntoIterator::into_iter')
def _intoiter(e, st, a, c):
    v = a[0]
    w = e.d(st, v)
    if isinstance(v, Ref):
        ty = c.types[c.k['ga'][0]] if c.k.get('ga') else {}
        if isinstance(w, It) or (isinstance(w, T) and w.op in ('oiter',)):
            return one(st, v)
        if isinstance(w, (L, M)) and ty.get('k') == 'ref' and ty.get('m'):
            return [(s, It(xs)) for s, xs in items_of(e, st, v, refs=True)]
    if isinstance(w, It):
        return one(st, w)
    if isinstance(w, T) and w.op == 'oiter':
        return one(st, w)
    if isinstance(w, Adt) and e.implidx().get(('core::iter::traits::iterator::Iterator', 'next', w.path)):
        return one(st, v)
    return [(s, It(xs)) for s, xs in items_of(e, st, w)]


def iter_next(e, st, r, back=False):
    it = e.d(st, r)
    if isinstance(it, Adt) and it.path in RANGES and isinstance(r, Ref):
        rs = items_of(e, st, it)
        if len(rs) == 1:
            st, xs = rs[0]
            it = It(xs)
    if isinstance(it, (It, L)):
        if not it.items:
            return one(st, NONE)
        x = it.items[-1] if back else it.items[0]
        if isinstance(r, Ref):
            e.wref(st, r, It(it.items[:-1] if back else it.items[1:]))
        return one(st, some(x))
    if isinstance(it, T) and it.op == 'oiter':
        src, pos = it.args[0], it.args[1]
        x = T('nth', src, pos)
        more = T('more', src, pos)
        out = []
        for s, b in e.split_bool(st, more):
            if b:
                if isinstance(r, Ref):
                    e.wref(s, r, T('oiter', src, pos + 1))
                out.append((s, some(x)))
            else:
                if isinstance(r, Ref):
                    e.wref(s, r, It(()))
                out.append((s, NONE))
        return out
    if isinstance(r, Ref) and isinstance(it, T):
        e.wref(st, r, T('oiter', it, 0))
        return iter_next(e, st, r, back)
    return None


@model('Iterator::next')
def _next(e, st, a, c):
    return iter_next(e, st, a[0])


@model('DoubleEndedIterator::next_back')
def _nextback(e, st, a, c):
    return iter_next(e, st, a[0], True)


def drain(e, st, v):
    """Elements left in an iterator, which is used up."""
    out = []
    for s, xs in items_of(e, st, v):
        if isinstance(v, Ref):
            e.wref(s, v, It(()))
        out.append((s, xs))
    return out


@model('Iterator::map', 'StreamExt::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::flat_map', 'Iterator::inspect',
       'Iterator::take_while', 'Iterator::skip_while', 'Iterator::map_while', 'StreamExt::filter_map_', 'TryStreamExt::map_ok',
       'TryStreamExt::map_err', 'StreamExt::flat_map')
def _imap(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    f = a[1]
    if isinstance(e.d(st, f), Clo) and not isinstance(f, Ref):
        f = Ref(e.alloc(st, f))
    out = []
    for s0, xs in drain(e, st, a[0]):
        cur = [(s0, [], True)]
        for x in xs:
            nx = []
            for s, acc, go in cur:
                if not go and m != 'skip_while':
                    nx.append((s, acc, go))
                    continue
                if m == 'skip_while' and not go:
                    nx.append((s, acc + [x], go))
                    continue
                if m in ('map_ok', 'map_err'):
                    for s2, o, p in e.res(s, x):
                        if o == (m == 'map_ok'):
                            for s3, r in e.call_closure(s2, f, [p]):
                                nx.append((s3, acc + [ok(r) if o else err(r)], go))
                        else:
                            nx.append((s2, acc + [ok(p) if o else err(p)], go))
                    continue
                for s2, r in e.call_closure(s, f, [x]):
                    if m == 'map':
                        nx.append((s2, acc + [r], go))
                    elif m == 'inspect':
                        nx.append((s2, acc + [x], go))
                    elif m == 'flat_map':
                        for s3, ys in items_of(e, s2, r):
                            nx.append((s3, acc + ys, go))
                    elif m in ('filter', 'take_while', 'skip_while'):
                        for s3, b in e.split_bool(s2, r):
                            if m == 'skip_while':
                                nx.append((s3, acc if b else acc + [x], b))
                            else:
                                nx.append((s3, acc + [x] if b else acc, go and (b or m == 'filter')))
                    else:
                        for s3, p in e.opt(s2, r):
                            nx.append((s3, acc if p is None else acc + [p], go and (p is not None or m == 'filter_map')))
            cur = nx
        out += [(s, It(acc)) for s, acc, _ in cur]
    return out


@model('Iterator::flatten')
def _iflat(e, st, a, c):
    out = []
    for s, xs in drain(e, st, a[0]):
        cur = [(s, [])]
        for x in xs:
            nx = []
            for s1, acc in cur:
                v = e.d(s1, x)
                ty = c.dest()['s']
                if isinstance(v, Adt) and v.path in (OPT, RES) or (isinstance(v, T) and ('core::option::Option' in ty or 'core::result::Result' in ty)):
                    isres = isinstance(v, Adt) and v.path == RES or 'core::result::Result' in ty
                    if isres:
                        for s2, o, p in e.res(s1, v):
                            if not o:
                                s2.event('error-dropped', p, c.frame.fn if c.frame else None, c.line)
                            nx.append((s2, acc + [p] if o else acc))
                    else:
                        for s2, p in e.opt(s1, v):
                            nx.append((s2, acc if p is None else acc + [p]))
                else:
                    for s2, ys in items_of(e, s1, v):
                        nx.append((s2, acc + ys))
            cur = nx
        out += [(s1, It(acc)) for s1, acc in cur]
    return out


@model('Iterator::enumerate', 'Iterator::rev', 'Iterator::skip', 'Iterator::take', 'Iterator::zip', 'Iterator::chain',
       'StreamExt::enumerate', 'StreamExt::take', 'StreamExt::skip', 'StreamExt::chain')
def _istruct(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    out = []
    v0 = e.d(st, a[0])
    if m == 'take' and isinstance(a[0], Ref) and isinstance(v0, Adt):
        fn = e.implidx().get(('core::iter::traits::iterator::Iterator', 'next', v0.path))
        n = e.d(st, a[1])
        if fn and isinstance(n, C):
            return [(s, It(xs)) for s, xs in pull(e, st, fn[0], inner_ref(e, st, a[0]), n.v)]
    for s, xs in drain(e, st, a[0]):
        if m == 'enumerate':
            out.append((s, It([Tup((C(i), x)) for i, x in enumerate(xs)])))
        elif m == 'rev':
            out.append((s, It(xs[::-1])))
        elif m in ('skip', 'take'):
            n = e.d(s, a[1])
            if isinstance(n, C):
                if m == 'take' and isinstance(a[0], Ref):
                    e.wref(s, a[0], It(xs[n.v:]))
                out.append((s, It(xs[n.v:] if m == 'skip' else xs[:n.v])))
            else:
                out.append((s, It([T(m, x, e.deep(s, n)) for x in xs])))
        elif m == 'zip':
            w = e.d(s, a[1])
            for s2, ys in drain(e, s, a[1]):
                if isinstance(w, Adt) and w.path.endswith('RangeFrom'):
                    ys = [C(w.fs[0].v + i) for i in range(len(xs))]
                elif isinstance(v0, Adt) and v0.path.endswith('RangeFrom'):
                    xs = [C(v0.fs[0].v + i) for i in range(len(ys))]
                out.append((s2, It([Tup(p) for p in zip(xs, ys)])))
        elif m == 'chain':
            out += [(s2, It(xs + ys)) for s2, ys in drain(e, s, a[1])]
        else:
            out.append((s, It(xs)))
    return out


@model('Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::position', 'Iterator::find_map', 'Iterator::rposition', 'DoubleEndedIterator::rfind')
def _isearch(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    f = a[1]
    if isinstance(e.d(st, f), Clo) and not isinstance(f, Ref):
        f = Ref(e.alloc(st, f))
    out = []
    for s0, xs in drain(e, st, a[0]):
        if m[0] == 'r':
            xs = xs[::-1]
        cur = [s0]
        for i, x in enumerate(xs):
            nx = []
            for s in cur:
                for s2, r in e.call_closure(s, f, [x]):
                    if m == 'find_map':
                        for s3, p in e.opt(s2, r):
                            if p is None:
                                nx.append(s3)
                            else:
                                out.append((s3, some(p)))
                        continue
                    for s3, b in e.split_bool(s2, r):
                        if b == (m != 'all'):
                            out.append((s3, {'any': TRUE, 'all': FALSE, 'find': some(x), 'rfind': some(x), 'position': some(C(i)), 'rposition': some(C(i))}[m]))
                        else:
                            nx.append(s3)
            cur = nx
        end = {'any': FALSE, 'all': TRUE}.get(m, NONE)
        out += [(s, end) for s in cur]
    return out


@model('Iterator::for_each', 'Iterator::try_for_each')
def _iforeach(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    f = a[1]
    if isinstance(e.d(st, f), Clo) and not isinstance(f, Ref):
        f = Ref(e.alloc(st, f))
    out = []
    for s0, xs in drain(e, st, a[0]):
        cur = [s0]
        for x in xs:
            nx = []
            for s in cur:
                for s2, r in e.call_closure(s, f, [x]):
                    if m == 'for_each':
                        nx.append(s2)
                    else:
                        for s3, o, p in e.res(s2, r):
                            if o:
                                nx.append(s3)
                            else:
                                out.append((s3, err(p)))
            cur = nx
        out += [(s, UNIT if m == 'for_each' else ok(UNIT)) for s in cur]
    return out


@model('Iterator::fold', 'Iterator::try_fold', 'Iterator::reduce', 'Iterator::rfold', 'DoubleEndedIterator::rfold', 'TryStreamExt::try_fold', 'StreamExt::fold')
def _ifold(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    red = m == 'reduce'
    f = a[1] if red else a[2]
    if isinstance(e.d(st, f), Clo) and not isinstance(f, Ref):
        f = Ref(e.alloc(st, f))
    out = []
    stream = 'Stream' in c.k['f']
    for s0, xs in drain(e, st, a[0]):
        if red and not xs:
            out.append((s0, NONE))
            continue
        if m == 'rfold':
            xs = xs[::-1]
        acc0 = xs[0] if red else a[1]
        cur = [(s0, acc0)]
        for x in (xs[1:] if red else xs):
            nx = []
            for s, acc in cur:
                src = [(s, x)]
                if stream and m == 'try_fold':
                    src = []
                    for s1, o, p in e.res(s, x):
                        if o:
                            src.append((s1, p))
                        else:
                            out.append((s1, T('ready', err(p))))
                for s1, x1 in src:
                    for s2, r in e.call_closure(s1, f, [acc, x1]):
                        for s3, r2 in (e.await_(s2, r) if stream else [(s2, r)]):
                            if m == 'try_fold':
                                w = e.d(s3, r2)
                                if isinstance(w, Adt) and w.path == OPT:
                                    (nx if w.vi else out).append((s3, w.fs[0] if w.vi else NONE))
                                    continue
                                for s4, o, p in e.res(s3, r2):
                                    if o:
                                        nx.append((s4, p))
                                    else:
                                        out.append((s4, T('ready', err(p)) if stream else err(p)))
                            else:
                                nx.append((s3, r2))
            cur = nx
        for s, acc in cur:
            v = some(acc) if red else ok(acc) if m == 'try_fold' else acc
            out.append((s, T('ready', v) if stream else v))
    return out


@model('Iterator::count', 'Iterator::last', 'Iterator::nth', 'ExactSizeIterator::len', 'Iterator::sum', 'Iterator::product', 'Iterator::size_hint')
def _icount(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, xs in items_of(e, st, a[0]):
        if m == 'last':
            out.append((s, some(xs[-1]) if xs else NONE))
        elif m == 'nth':
            n = e.d(s, a[1])
            if isinstance(n, C):
                if isinstance(a[0], Ref):
                    e.wref(s, a[0], It(xs[n.v + 1:]))
                out.append((s, some(xs[n.v]) if n.v < len(xs) else NONE))
            else:
                out.append((s, T('nth', e.deep(s, a[0]), e.deep(s, n))))
        elif m in ('count', 'len'):
            out.append((s, C(len(xs)) if not any(isinstance(x, T) and x.op == 'elem' for x in xs) else T('count', It(xs))))
        elif m == 'sum' and xs and all(isinstance(x, C) for x in xs):
            out.append((s, C(sum(x.v for x in xs))))
        elif m == 'sum' and not xs:
            out.append((s, C(0)))
        else:
            out.append((s, T(m, *[e.deep(s, x) for x in xs])))
    return out


@model('Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::max_by', 'Iterator::min_by')
def _imax(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    mx = m.startswith('max')
    out = []
    for s0, xs in drain(e, st, a[0]):
        if not xs:
            out.append((s0, NONE))
            continue
        cur = [(s0, xs[0])]
        for x in xs[1:]:
            nx = []
            for s, b in cur:
                for s2, o in order(e, s, b, x, a[1] if len(a) > 1 else None, m.endswith('_key')):
                    nx.append((s2, (x if o <= EQ else b) if mx else (b if o <= EQ else x)))
            cur = nx
        out += [(s, some(b)) for s, b in cur]
    return out


def order(e, st, x, y, f=None, key=False):
    """[(state, LT|EQ|GT)] of x and y, by closure f (a comparator, or a key function)."""
    if f is None:
        return compare(e, st, x, y)
    if key:
        out = []
        for s, kx in e.call_closure(st, f, [x]):
            for s2, ky in e.call_closure(s, f, [y]):
                out += compare(e, s2, kx, ky)
        return out
    out = []
    for s, o in e.call_closure(st, f, [x, y]):
        out += ord_val(e, s, o)
    return out


def ord_val(e, st, o):
    o = e.d(st, o)
    if isinstance(o, Adt) and o.path == ORD:
        return [(st, {0: LT, 1: EQ, 2: GT}[o.vi])]
    return [(s, {255: LT, -1: LT, 0: EQ, 1: GT}[i]) for s, i in e.split_var(st, o, [255, 0, 1], 3)]


def do_sort(e, st, xs, f, key):
    cur = [(st, [])]
    for x in xs:
        nx = []
        for s, acc in cur:
            # insert x after every element not greater than it
            pend = [(s, len(acc))]
            while pend:
                s1, i = pend.pop()
                if i == 0:
                    nx.append((s1, [x] + acc))
                    continue
                for s2, o in order(e, s1, acc[i - 1], x, f, key):
                    if o == GT:
                        pend.append((s2, i - 1))
                    else:
                        nx.append((s2, acc[:i] + [x] + acc[i:]))
        cur = nx
    return cur


@model('slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key',
       'slice::sort_by_cached_key')
def _sort(e, st, a, c):
    v = e.d(st, a[0])
    if not isinstance(v, L) or not isinstance(a[0], Ref) or len(v.items) > 4:
        return None
    out = []
    for s, xs in do_sort(e, st, list(v.items), a[1] if len(a) > 1 else None, c.k['f'].endswith('key')):
        e.wref(s, a[0], L(xs))
        s.event('sorted', L(xs))
        out.append((s, UNIT))
    return out


@model('slice::reverse')
def _reverse(e, st, a, c):
    v = e.d(st, a[0])
    if isinstance(v, L) and isinstance(a[0], Ref):
        e.wref(st, a[0], L(v.items[::-1]))
        return one(st, UNIT)
    return None


@model('Iterator::sorted', 'Itertools::sorted')
def _sorted(e, st, a, c):
    return [(s2, It(ys)) for s, xs in drain(e, st, a[0]) for s2, ys in do_sort(e, s, xs, None, False)]


@model('Iterator::partition')
def _partition(e, st, a, c):
    out = []
    for s0, xs in drain(e, st, a[0]):
        cur = [(s0, [], [])]
        for x in xs:
            nx = []
            for s, t, f in cur:
                for s2, r in e.call_closure(s, a[1], [x]):
                    for s3, b in e.split_bool(s2, r):
                        nx.append((s3, t + [x], f) if b else (s3, t, f + [x]))
            cur = nx
        out += [(s, Tup((L(t), L(f)))) for s, t, f in cur]
    return out


@model('Iterator::unzip')
def _unzip(e, st, a, c):
    out = []
    for s, xs in drain(e, st, a[0]):
        out.append((s, Tup((L([e.step_in(e.d(s, x), ('f', 0)) for x in xs]), L([e.step_in(e.d(s, x), ('f', 1)) for x in xs])))))
    return out


def tyname(t):
    return t.get('d', t['s'])


def collect_into(e, st, src, ty, types):
    out = []
    for s, xs in drain(e, st, src):
        out += build(e, s, xs, ty, types)
    return out


def build(e, st, xs, ty, types):
    n = tyname(ty)
    last = n.split('::')[-1]
    if n == RES:
        inner = types[ty['a'][0]] if ty.get('a') else {'s': '?', 'k': '?'}
        out = []
        cur = [(st, [])]
        for x in xs:
            nx = []
            for s, ps in cur:
                for s2, o, p in e.res(s, x):
                    if o:
                        nx.append((s2, ps + [p]))
                    else:
                        out.append((s2, err(p)))
            cur = nx
        for s, ps in cur:
            out += [(s2, ok(v)) for s2, v in build(e, s, ps, inner, types)]
        return out
    if n == OPT:
        inner = types[ty['a'][0]] if ty.get('a') else {'s': '?', 'k': '?'}
        out = []
        cur = [(st, [])]
        for x in xs:
            nx = []
            for s, ps in cur:
                for s2, p in e.opt(s, x):
                    if p is not None:
                        nx.append((s2, ps + [p]))
                    else:
                        out.append((s2, NONE))
            cur = nx
        for s, ps in cur:
            out += [(s2, some(v)) for s2, v in build(e, s, ps, inner, types)]
        return out
    if last in ('HashMap', 'BTreeMap', 'Map', 'IndexMap', 'DashMap'):
        cur = [(st, M((), last))]
        for x in xs:
            nx = []
            for s, m in cur:
                x1 = e.d(s, x)
                for s2, m2, _ in map_insert(e, s, m, e.step_in(x1, ('f', 0)), e.step_in(x1, ('f', 1))):
                    nx.append((s2, m2))
            cur = nx
        if last == 'DashMap':
            return [(s, Obj(e.alloc(s, m))) for s, m in cur]
        return cur
    if last in ('HashSet', 'BTreeSet'):
        cur = [(st, M((), last))]
        for x in xs:
            nx = []
            for s, m in cur:
                for s2, m2, _ in map_insert(e, s, m, x, UNIT):
                    nx.append((s2, m2))
            cur = nx
        return cur
    if last == 'String':
        return [(st, concat([e.deep(st, x) for x in xs]))]
    if n == '()' or n.endswith('tuple'):
        return [(st, UNIT)]
    return [(st, L(xs))]


@model('Iterator::collect', 'FromIterator::from_iter')
def _collect(e, st, a, c):
    ty = c.dest()
    if ty.get('k') == 'param' and len(c.k.get('ga', [])) > 1:
        ty = c.types[c.k['ga'][1]]
    return collect_into(e, st, a[0], ty, c.types)


@model('iter::empty', 'empty::empty')
def _iempty(e, st, a, c):
    return one(st, It(()))


@model('iter::once', 'once::once')
def _ionce(e, st, a, c):
    return one(st, It((a[0],)))


@model('RangeInclusive::new')
def _ri(e, st, a, c):
    return one(st, Adt('core::ops::range::RangeInclusive', 0, 'RangeInclusive', (a[0], a[1]), ('start', 'end')))


@model('RangeInclusive::contains', 'Range::contains', 'RangeBounds::contains')
def _rcontains(e, st, a, c):
    r, x = e.d(st, a[0]), e.d(st, a[1])
    if not isinstance(r, Adt):
        return None
    n = r.path.split('::')[-1]
    lo = r.fs[0] if n in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = {'Range': 1, 'RangeInclusive': 1, 'RangeTo': 0, 'RangeToInclusive': 0}.get(n)
    hi = r.fs[hi] if hi is not None else None
    cur = [(st, True)]
    for bound, mask in ((lo, GT | EQ), (hi, LT | (EQ if 'Inclusive' in n else 0))):
        if bound is None:
            continue
        nx = []
        for s, b in cur:
            if not b:
                nx.append((s, b))
            else:
                nx += [(s2, bool(m & mask)) for s2, m in e.split_cmp(s, x, bound, mask)]
        cur = nx
    return [(s, C(b)) for s, b in cur]


# ---- vectors --------------------------------------------------------------------------------------
@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity')
def _vnew(e, st, a, c):
    return one(st, L(()))


@model('box_assume_init::x', 'boxed::box_assume_init_into_vec_unsafe', 'Box::new_uninit')
def _vecmac(e, st, a, c):
    if c.k['f'].endswith('new_uninit'):
        return one(st, Ref(e.alloc(st, T('uninit'))))
    v = e.d(st, a[0])
    n = 0
    while isinstance(v, T) and v.op == 'upd' and n < 5:
        v = e.d(st, v.args[2])
        n += 1
    while isinstance(v, (Tup, Adt)) and n < 8:
        v = e.d(st, (v.items if isinstance(v, Tup) else v.fs)[-1])
        n += 1
    return one(st, v)


@model('slice::concat_')
def _n(e, st, a, c):
    return None


@model('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front')
def _push(e, st, a, c):
    v = e.d(st, a[0])
    if isinstance(v, T):
        v = L([T('spread', v)])
    if not isinstance(a[0], Ref) or not isinstance(v, L):
        return None
    e.wref(st, a[0], L(((a[1],) + v.items) if c.k['f'].endswith('front') else v.items + (a[1],)))
    return one(st, UNIT)


@model('Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'HashMap::extend', 'HashSet::extend', 'Vec::extend')
def _extend(e, st, a, c):
    if not isinstance(a[0], Ref):
        return None
    out = []
    for s, xs in drain(e, st, a[1]):
        if c.k['f'].endswith('append') and isinstance(a[1], Ref):
            e.wref(s, a[1], L(()))
        v = e.d(s, a[0])
        if isinstance(v, T) and not isinstance(e.d(st, a[1]), (M,)):
            v = L([T('spread', v)])
        if isinstance(v, T):
            v = M([(T('spread', v), UNIT)], 'HashMap')
        if isinstance(v, L):
            e.wref(s, a[0], L(v.items + tuple(xs)))
            out.append((s, UNIT))
        elif isinstance(v, M):
            cur = [(s, v)]
            for x in xs:
                nx = []
                for s1, m in cur:
                    x1 = e.d(s1, x)
                    if m.kind.endswith('Set'):
                        ky, vl = x1, UNIT
                    else:
                        ky, vl = e.step_in(x1, ('f', 0)), e.step_in(x1, ('f', 1))
                    nx += [(s2, m2) for s2, m2, _ in map_insert(e, s1, m, ky, vl)]
                cur = nx
            for s1, m in cur:
                e.wref(s1, a[0], m)
                out.append((s1, UNIT))
        elif isinstance(v, C) and isinstance(v.v, str) or True:
            e.wref(s, a[0], concat([v] + [e.deep(s, x) for x in xs]))
            out.append((s, UNIT))
    return out


@model('Vec::insert', 'Vec::remove', 'Vec::swap_remove', 'VecDeque::remove_')
def _vinsert(e, st, a, c):
    v, i = e.d(st, a[0]), e.d(st, a[1])
    if not (isinstance(a[0], Ref) and isinstance(v, L) and isinstance(i, C)):
        return None
    it = list(v.items)
    if c.k['f'].endswith('insert'):
        it.insert(i.v, a[2])
        r = UNIT
    else:
        if i.v >= len(it):
            e.panic(st, c.frame, c.line, 'index out of range')
            return []
        r = it.pop(i.v)
    e.wref(st, a[0], L(it))
    return one(st, r)


@model('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back')
def _vpop(e, st, a, c):
    v = e.d(st, a[0])
    if not (isinstance(a[0], Ref) and isinstance(v, L)):
        return None
    if not v.items:
        return one(st, NONE)
    fr = c.k['f'].endswith('front')
    e.wref(st, a[0], L(v.items[1:] if fr else v.items[:-1]))
    return one(st, some(v.items[0] if fr else v.items[-1]))


@model('Vec::clear', 'HashMap::clear', 'HashSet::clear', 'String::clear', 'BTreeMap::clear')
def _clear(e, st, a, c):
    if not isinstance(a[0], Ref):
        return None
    v = e.d(st, a[0])
    e.wref(st, a[0], M((), v.kind) if isinstance(v, M) else C('') if 'String' in c.k['f'] else L(()))
    return one(st, UNIT)


@model('Vec::drain', 'HashMap::drain', 'VecDeque::drain', 'HashSet::drain')
def _drain(e, st, a, c):
    if not isinstance(a[0], Ref):
        return None
    out = []
    for s, xs in items_of(e, st, a[0]):
        v = e.d(s, a[0])
        e.wref(s, a[0], M((), v.kind) if isinstance(v, M) else L(()))
        out.append((s, It(xs)))
    return out


@model('Vec::truncate', 'Vec::shrink_to_fit', 'Vec::reserve', 'HashMap::reserve', 'HashMap::shrink_to_fit')
def _shrink(e, st, a, c):
    if c.k['f'].endswith('truncate'):
        v, n = e.d(st, a[0]), e.d(st, a[1])
        if isinstance(v, L) and isinstance(n, C):
            e.wref(st, a[0], L(v.items[:n.v]))
            return one(st, UNIT)
        return None
    return one(st, UNIT)


@model('Vec::retain', 'HashMap::retain', 'HashSet::retain', 'Vec::retain_mut', 'BTreeMap::retain', 'DashMap::retain', 'BTreeSet::retain', 'VecDeque::retain')
def _retain(e, st, a, c):
    r = a[0]
    v = e.d(st, r)
    if isinstance(v, Obj):
        r = Ref(v.cell)
        v = st.heap[v.cell]
    if not isinstance(r, Ref):
        return None
    if isinstance(v, T):
        v = L([T('elem', v, 0)])
    cur = [(st, [])]
    ents = list(v.items)
    ismap = isinstance(v, M)
    for x in ents:
        nx = []
        for s, acc in cur:
            args = [x] if not ismap else [x[0]] if v.kind.endswith('Set') else [x[0], Ref(e.alloc(s, x[1]))]
            for s2, r2 in e.call_closure(s, a[1], args):
                for s3, b in e.split_bool(s2, r2):
                    y = x
                    if ismap and len(args) > 1:
                        y = (x[0], e.d(s3, args[1]))
                    nx.append((s3, acc + [y] if b else acc))
        cur = nx
    for s, acc in cur:
        e.wref(s, r, M(acc, v.kind) if ismap else L(acc))
    return [(s, UNIT) for s, _ in cur]


def length(e, st, v):
    v = e.d(st, v)
    if isinstance(v, Obj):
        v = st.heap.get(v.cell)
    if isinstance(v, (L, M, It)):
        its = [x[0] if isinstance(v, M) else x for x in v.items]
        if not any(isinstance(x, T) and x.op in ('elem', 'spread') for x in its):
            return C(len(v.items))
        return T('len', e.deep(st, v))
    if isinstance(v, C) and isinstance(v.v, (str, bytes)):
        return C(len(v.v.encode() if isinstance(v.v, str) else v.v))
    if shaped(v):
        n = S.length(v)
        if n is not None:
            return C(n)
    return T('len', e.deep(st, v))


@model('Vec::len', 'slice::len', 'str::len', 'String::len', 'HashMap::len', 'HashSet::len', 'BTreeMap::len', 'Bytes::len', 'BTreeSet::len',
       'DashMap::len', 'VecDeque::len', 'Map::len')
def _len(e, st, a, c):
    return one(st, length(e, st, a[0]))


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'BTreeMap::is_empty',
       'BTreeSet::is_empty', 'DashMap::is_empty', 'Bytes::is_empty', 'VecDeque::is_empty', 'Map::is_empty', 'ExactSizeIterator::is_empty')
def _isempty(e, st, a, c):
    v = e.d(st, a[0])
    if isinstance(v, Obj):
        v = st.heap.get(v.cell)
    if isinstance(v, (L, M, It)):
        return one(st, C(not v.items))
    if isinstance(v, C) and isinstance(v.v, (str, bytes)):
        return one(st, C(len(v.v) == 0))
    if shaped(v):
        return one(st, FALSE)
    return [(s, C(b)) for s, b in e.split_bool(st, T('empty', e.deep(st, v)))]


@model('slice::first', 'slice::last', 'slice::get', 'Vec::get', 'slice::split_first', 'slice::split_last', 'Vec::first', 'Vec::last', 'VecDeque::front', 'VecDeque::back')
def _vget(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    v = e.d(st, a[0])
    if isinstance(v, L):
        n = len(v.items)
        if m in ('first', 'front'):
            return one(st, some(v.items[0]) if n else NONE)
        if m in ('last', 'back'):
            return one(st, some(v.items[-1]) if n else NONE)
        if m == 'split_first':
            return one(st, some(Tup((v.items[0], L(v.items[1:])))) if n else NONE)
        if m == 'split_last':
            return one(st, some(Tup((v.items[-1], L(v.items[:-1])))) if n else NONE)
        i = e.d(st, a[1])
        if isinstance(i, C) and isinstance(i.v, int):
            return one(st, some(v.items[i.v]) if i.v < n else NONE)
    return one(st, T('slice::' + m, *[e.deep(st, x) for x in a]))


@model('slice::contains', 'Vec::contains')
def _vcontains(e, st, a, c):
    out = []
    v = e.d(st, a[0])
    if isinstance(v, T):
        return [(s, C(b)) for s, b in e.split_bool(st, T('contains', e.deep(st, v), e.deep(st, a[1])))]
    for s0, xs in items_of(e, st, v):
        cur = [s0]
        for x in xs:
            nx = []
            for s in cur:
                for s2, b in equal(e, s, x, a[1]):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nx.append(s2)
            cur = nx
        out += [(s, FALSE) for s in cur]
    return out


@model('vec::from_elem')
def _fromelem(e, st, a, c):
    n = e.d(st, a[1])
    if isinstance(n, C) and n.v <= 8:
        return one(st, L([a[0]] * n.v))
    return one(st, T('vec', e.deep(st, a[0]), e.deep(st, n)))


@model('slice::partition_point')
def _ppoint(e, st, a, c):
    v = e.d(st, a[0])
    if not isinstance(v, L) or len(v.items) > 8:
        return None
    cur, out = [st], []
    for i, x in enumerate(v.items):
        nx = []
        for s in cur:
            for s2, r in e.call_closure(s, a[1], [x]):
                for s3, b in e.split_bool(s2, r):
                    if b:
                        nx.append(s3)
                    else:
                        out.append((s3, C(i)))
        cur = nx
    return out + [(s, C(len(v.items))) for s in cur]


@model('Index::index', 'IndexMut::index_mut')
def _index(e, st, a, c):
    v, i = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(v, Adt) and v.path == JV:
        if v.vn == 'Object':
            return [(s, jval(None) if p is None else p) for s, p, ix in map_get(e, st, v.fs[0], i)]
        return one(st, jval(None))
    if isinstance(v, M):
        return [(s, p) for s, p, ix in map_get(e, st, v, i) if p is not None]
    if isinstance(v, L) and isinstance(i, C) and isinstance(i.v, int):
        if i.v < len(v.items):
            if isinstance(a[0], Ref) and c.k['f'].endswith('index_mut'):
                r = inner_ref(e, st, a[0])
                return one(st, Ref(r.cell, r.path + (('i', i),)))
            return one(st, v.items[i.v])
        e.panic(st, c.frame, c.line, 'index out of range')
        return []
    if isinstance(i, Adt) and i.path.startswith('core::ops::range::'):
        n = i.path.split('::')[-1]
        if n == 'RangeFull':
            return one(st, a[0] if c.k['f'].endswith('index_mut') else v)
        lo = i.fs[0] if n in ('Range', 'RangeInclusive', 'RangeFrom') else C(0)
        hi = i.fs[1] if n in ('Range', 'RangeInclusive') else i.fs[0] if n in ('RangeTo', 'RangeToInclusive') else None
        if isinstance(v, L) and isinstance(lo, C) and (hi is None or isinstance(hi, C)):
            h = len(v.items) if hi is None else hi.v + (1 if 'Inclusive' in n else 0)
            if lo.v > h or h > len(v.items):
                e.panic(st, c.frame, c.line, 'slice out of range')
                return []
            return one(st, L(v.items[lo.v:h]))
        if shaped(v) or cs(v) is not None:
            r = S.sub(v, lo, C(hi.v + 1) if isinstance(hi, C) and 'Inclusive' in n else hi)
            if r == 'panic':
                e.panic(st, c.frame, c.line, 'slice out of range')
                return []
            if r is not None:
                return one(st, r)
        if isinstance(v, L) and isinstance(hi, T) and hi.op == 'len' and lo == C(0):
            return one(st, v)
        return one(st, T('slice', e.deep(st, v), e.deep(st, lo), e.deep(st, hi) if hi is not None else None, 'Inclusive' in n))
    if isinstance(v, L) and len(v.items) == 1 and isinstance(i, T):
        return one(st, v.items[0])
    return one(st, T('idx', e.deep(st, v), e.deep(st, i)))


# ---- maps and sets --------------------------------------------------------------------------------
def map_get(e, st, m, k):
    """[(state, value or None, index)] for the entry of k."""
    out = []
    cur = [st]
    for i, (kk, vv) in enumerate(m.items):
        nx = []
        for s in cur:
            for s2, b in same_key(e, s, m, kk, k):
                if b:
                    out.append((s2, vv, i))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, None, None) for s in cur]


def same_key(e, st, m, x, y):
    """Whether a map holds x and y to be one key: by Ord in a BTree, by Eq in the others."""
    if m.kind.startswith('BTree') and isinstance(x, Adt) and x.path.startswith('hudi'):
        return [(s, o == EQ) for s, o in compare(e, st, x, y)]
    return equal(e, st, x, y)


def map_insert(e, st, m, k, v):
    """[(state, new map, old value or None)]."""
    out = []
    for s, old, i in map_get(e, st, m, k):
        its = list(m.items)
        if old is not None:
            its[i] = (its[i][0], v)
            out.append((s, M(its, m.kind), old))
        elif m.kind.startswith('BTree') or m.kind == 'Map_':
            pend = [(s, len(its))]
            while pend:
                s1, j = pend.pop()
                if j == 0:
                    out.append((s1, M([(k, v)] + its, m.kind), None))
                    continue
                for s2, o in compare(e, s1, its[j - 1][0], k):
                    if o == GT:
                        pend.append((s2, j - 1))
                    else:
                        out.append((s2, M(its[:j] + [(k, v)] + its[j:], m.kind), None))
        else:
            out.append((s, M(its + [(k, v)], m.kind), None))
    return out


def kind_of(c):
    for k in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'DashMap', 'IndexMap', 'Map'):
        if '::' + k + '::' in c.k['f']:
            return k
    return 'HashMap'


@model('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new', 'HashSet::new', 'HashSet::with_capacity', 'BTreeSet::new', 'Map::new', 'Map::with_capacity')
def _mnew(e, st, a, c):
    return one(st, M((), kind_of(c)))


@model('DashMap::new', 'DashMap::with_capacity')
def _dnew(e, st, a, c):
    return one(st, Obj(e.alloc(st, M((), 'DashMap'))))


def themap(e, st, v):
    """(map value, reference to write it back, or None)."""
    x = e.d(st, v)
    if isinstance(x, Obj):
        return st.heap.get(x.cell), Ref(x.cell)
    return x, (v if isinstance(v, Ref) else None)


@model('HashSet::replace', 'BTreeSet::replace', 'HashMap::insert', 'BTreeMap::insert', 'HashSet::insert', 'BTreeSet::insert', 'DashMap::insert', 'Map::insert')
def _minsert(e, st, a, c):
    m, r = themap(e, st, a[0])
    if isinstance(m, T) and r is not None:
        m = M([(T('spread', m), UNIT)], kind_of(c))
    if not isinstance(m, M) or r is None:
        return None
    st_ = kind_of(c).endswith('Set')
    out = []
    if c.k['f'].endswith('Set::replace'):
        for s, v, i in map_get(e, st, m, e.d(st, a[1])):
            old = NONE
            if v is not None:
                old = some(m.items[i][0])
                e.wref(s, r, M(m.items[:i] + m.items[i + 1:], m.kind))
            for s2, m2, _ in map_insert(e, s, e.d(s, r), e.d(s, a[1]), UNIT):
                e.wref(s2, r, m2)
                out.append((s2, old))
        return out
    for s, m2, old in map_insert(e, st, m, e.d(st, a[1]), UNIT if st_ else a[2]):
        if old is not None and st_:
            out.append((s, FALSE))
            continue
        e.wref(s, r, m2)
        out.append((s, TRUE if st_ else (some(old) if old is not None else NONE)))
    return out


@model('HashMap::get', 'BTreeMap::get', 'DashMap::get', 'Map::get', 'HashMap::get_key_value_', 'HashSet::get', 'BTreeSet::get', 'DashMap::get_mut', 'HashMap::get_mut', 'BTreeMap::get_mut', 'Map::get_mut')
def _mget(e, st, a, c):
    m, r = themap(e, st, a[0])
    mut = c.k['f'].endswith('get_mut')
    if not isinstance(m, M):
        return one(st, T('get', e.deep(st, m), e.deep(st, a[1]))) if not mut else None
    out = []
    for s, v, i in map_get(e, st, m, e.d(st, a[1])):
        if v is None:
            if any(isinstance(k, T) and k.op == 'spread' for k, _ in m.items):
                base = [k for k, _ in m.items if isinstance(k, T) and k.op == 'spread'][0].args[0]
                out.append((s, T('get', base, e.deep(s, a[1]))))
            else:
                out.append((s, NONE))
        elif mut and r is not None:
            r2 = inner_ref(e, s, r)
            out.append((s, some(Ref(r2.cell, r2.path + (('mv', i),)))))
        else:
            out.append((s, some(m.items[i][0] if m.kind.endswith('Set') else v)))
    return out


@model('Ref::value', 'Ref::key_', 'RefMut::value_mut', 'RefMut::value')
def _refval(e, st, a, c):
    return one(st, a[0])


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains', 'DashMap::contains_key', 'Map::contains_key')
def _mcontains(e, st, a, c):
    m, r = themap(e, st, a[0])
    if not isinstance(m, M):
        if kind_of(c).endswith('Set'):
            return [(s, C(b)) for s, b in e.split_bool(st, T('contains', e.deep(st, m), e.deep(st, a[1])))]
        return [(s, C(p is not None)) for s, p in e.opt(st, T('get', e.deep(st, m), e.deep(st, a[1])))]
    return [(s, C(v is not None)) for s, v, i in map_get(e, st, m, e.d(st, a[1]))]


@model('HashMap::remove', 'BTreeMap::remove', 'HashSet::remove', 'DashMap::remove', 'HashSet::take', 'BTreeSet::take', 'BTreeSet::remove', 'Map::remove', 'HashMap::remove_entry')
def _mremove(e, st, a, c):
    m, r = themap(e, st, a[0])
    if not isinstance(m, M) or r is None:
        return None
    last = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, v, i in map_get(e, st, m, e.d(st, a[1])):
        if v is None:
            out.append((s, FALSE if m.kind.endswith('Set') and last == 'remove' else NONE))
        else:
            k = m.items[i][0]
            e.wref(s, r, M(m.items[:i] + m.items[i + 1:], m.kind))
            if last == 'take':
                out.append((s, some(k)))
            elif m.kind.endswith('Set'):
                out.append((s, TRUE))
            elif m.kind == 'DashMap' or last == 'remove_entry':
                out.append((s, some(Tup((k, v)))))
            else:
                out.append((s, some(v)))
    return out


@model('HashMap::keys', 'BTreeMap::keys', 'HashMap::values', 'BTreeMap::values', 'Map::keys', 'Map::values', 'HashMap::into_values', 'HashMap::into_keys',
       'BTreeMap::into_values', 'BTreeMap::into_keys', 'Map::into_values')
def _mkeys(e, st, a, c):
    i = 0 if c.k['f'].endswith('keys') else 1
    return [(s, It([e.step_in(x, ('f', i)) for x in xs])) for s, xs in items_of(e, st, e.d(st, a[0]))]


@model('HashMap::values_mut', 'BTreeMap::values_mut')
def _mvaluesmut(e, st, a, c):
    return [(s, It([x.items[1] if isinstance(x, Tup) else e.step_in(x, ('f', 1)) for x in xs])) for s, xs in items_of(e, st, a[0], refs=True)]


@model('BTreeMap::range', 'BTreeMap::range_mut', 'BTreeSet::range')
def _mrange(e, st, a, c):
    m, r = themap(e, st, a[0])
    rg = e.d(st, a[1])
    if not isinstance(m, M):
        return one(st, It([T('rangeelem', e.deep(st, m), e.deep(st, rg))]))
    if isinstance(rg, Tup):
        b = [e.d(st, x) for x in rg.items]
        bn = []
        for x in b:
            bn.append((None, 0) if x.vn == 'Unbounded' else (x.fs[0], EQ if x.vn == 'Included' else 0))
        lo, hi = bn
    elif isinstance(rg, Adt):
        n = rg.path.split('::')[-1]
        lo = (rg.fs[0], EQ) if n in ('Range', 'RangeInclusive', 'RangeFrom') else (None, 0)
        h = {'Range': 1, 'RangeInclusive': 1, 'RangeTo': 0, 'RangeToInclusive': 0}.get(n)
        hi = (rg.fs[h], EQ if 'Inclusive' in n else 0) if h is not None else (None, 0)
    else:
        return None
    mut = c.k['f'].endswith('mut')
    cur = [(st, [])]
    r2 = inner_ref(e, st, r) if r is not None else None
    for i, (k, v) in enumerate(m.items):
        nx = []
        for s, acc in cur:
            parts = [(s, True)]
            for (bd, eqm), mask in ((lo, GT), (hi, LT)):
                if bd is None:
                    continue
                mk = mask | eqm
                parts = [(s3, b1 and b2) for s2, b1 in parts for s3, b2 in
                         ([(s2, False)] if not b1 else [(s4, bool(x & mk)) for s4, x in e.split_cmp(s2, k, bd, mk)])]
            for s2, b in parts:
                x = k if m.kind.endswith('Set') else Tup((k, Ref(r2.cell, r2.path + (('mv', i),)) if mut and r2 is not None else v))
                nx.append((s2, acc + [x] if b else acc))
        cur = nx
    return [(s, It(acc)) for s, acc in cur]


@model('BTreeMap::last_key_value', 'BTreeMap::first_key_value', 'BTreeSet::last', 'BTreeSet::first', 'BTreeMap::pop_last', 'BTreeMap::pop_first')
def _blast(e, st, a, c):
    m, r = themap(e, st, a[0])
    if not isinstance(m, M):
        return None
    if not m.items:
        return one(st, NONE)
    i = -1 if 'last' in c.k['f'].rsplit('::', 1)[-1] else 0
    k, v = m.items[i]
    if 'pop' in c.k['f'] and r is not None:
        e.wref(st, r, M(m.items[:-1] if i else m.items[1:], m.kind))
    return one(st, some(k if m.kind.endswith('Set') else Tup((k, v))))


@model('HashSet::difference', 'HashSet::intersection', 'HashSet::union', 'BTreeSet::difference', 'HashSet::is_subset', 'HashSet::is_disjoint')
def _sdiff(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    x, y = e.d(st, a[0]), e.d(st, a[1])
    out = []
    for s0, xs in items_of(e, st, x):
        if m == 'union':
            for s1, ys in items_of(e, s0, y):
                out.append((s1, It(xs + ys)))
            continue
        cur = [(s0, [])]
        for k in xs:
            nx = []
            for s, acc in cur:
                if isinstance(y, M):
                    rs = [(s2, v is not None) for s2, v, i in map_get(e, s, y, k)]
                else:
                    rs = e.split_bool(s, T('contains', e.deep(s, y), e.deep(s, k)))
                for s2, b in rs:
                    nx.append((s2, acc + [k] if b == (m == 'intersection') else acc))
            cur = nx
        if m == 'is_subset':
            out += [(s, C(not acc)) for s, acc in cur]
        elif m == 'is_disjoint':
            out += [(s, C(len(acc) == len(xs))) for s, acc in cur]
        else:
            out += [(s, It(acc)) for s, acc in cur]
    return out


ENTRY = 'hf::Entry'


@model('HashMap::entry', 'BTreeMap::entry', 'DashMap::entry', 'Map::entry')
def _entry(e, st, a, c):
    m, r = themap(e, st, a[0])
    if not isinstance(m, M) or r is None:
        return None
    k = e.d(st, a[1])
    out = []
    for s, v, i in map_get(e, st, m, k):
        name = 'Vacant' if v is None else 'Occupied'
        order = ('Vacant', 'Occupied') if m.kind in ('BTreeMap', 'Map') else ('Occupied', 'Vacant')
        x = Adt(ENTRY, 0, 'Entry', (inner_ref(e, s, r), k, T('none')), ('map', 'key', 'mod'))
        out.append((s, Adt(ENTRY + 'Of', order.index(name), name, (x,), ('0',))))
    return out


def entry_of(v):
    if isinstance(v, Adt) and v.path == ENTRY + 'Of':
        v = v.fs[0]
    return v


@model('Entry::or_insert_with', 'Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with_key')
def _orinsert(e, st, a, c):
    en = entry_of(e.d(st, a[0]))
    if not (isinstance(en, Adt) and en.path == ENTRY):
        return None
    r, k = en.fs[0], en.fs[1]
    m = e.d(st, r)
    out = []
    for s, v, i in map_get(e, st, m, k):
        if v is not None:
            if not isinstance(en.fs[2], T):
                for s2, _ in e.call_closure(s, en.fs[2], [Ref(r.cell, r.path + (('mv', i),))]):
                    out.append((s2, Ref(r.cell, r.path + (('mv', i),))))
            else:
                out.append((s, Ref(r.cell, r.path + (('mv', i),))))
            continue
        n = c.k['f'].rsplit('::', 1)[-1]
        if n == 'or_insert':
            vals = [(s, a[1])]
        elif n == 'or_insert_with':
            vals = e.call_closure(s, a[1], [])
        elif n == 'or_insert_with_key':
            vals = e.call_closure(s, a[1], [k])
        else:
            ty = c.dest()
            vals = default_of(e, s, c.types[ty['t']] if ty.get('k') == 'ref' else ty, c.types)
        for s2, nv in vals:
            for s3, m2, _ in map_insert(e, s2, e.d(s2, r), k, nv):
                e.wref(s3, r, m2)
                j = [x for x, (kk, _) in enumerate(m2.items) if kk == k][0]
                out.append((s3, Ref(r.cell, r.path + (('mv', j),))))
    return out


@model('Entry::and_modify')
def _andmod(e, st, a, c):
    en = entry_of(e.d(st, a[0]))
    if not (isinstance(en, Adt) and en.path == ENTRY):
        return None
    return one(st, Adt(ENTRY, 0, 'Entry', (en.fs[0], en.fs[1], a[1]), en.names))


# ---- once cells, locks, atomics -------------------------------------------------------------------
@model('OnceLock::get_or_init', 'OnceCell::get_or_init', 'LazyLock::force', 'Lazy::get')
def _once(e, st, a, c):
    if len(a) < 2:
        return None
    return e.call_closure(st, a[1], [])


# ---- defaults -------------------------------------------------------------------------------------
def default_of(e, st, ty, types):
    n = tyname(ty)
    last = n.split('::')[-1]
    if last in ('Vec', 'VecDeque'):
        return one(st, L(()))
    if last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return one(st, M((), last))
    if last == 'DashMap':
        return one(st, Obj(e.alloc(st, M((), 'DashMap'))))
    if last in ('String', 'str') or ty['s'] in ('&str',):
        return one(st, C(''))
    if n == OPT:
        return one(st, NONE)
    if ty['s'] == 'bool':
        return one(st, FALSE)
    if ty['s'] in ('usize', 'u64', 'u32', 'i64', 'i32', 'u8', 'u16', 'i16', 'isize', 'u128', 'i128'):
        return one(st, C(0))
    if last in ('Arc', 'Box', 'Rc') and ty.get('a'):
        return default_of(e, st, types[ty['a'][0]], types)
    if ty['k'] == 'tuple':
        cur = [(st, [])]
        for x in ty.get('a', []):
            cur = [(s2, vs + [v]) for s, vs in cur for s2, v in default_of(e, s, types[x], types)]
        return [(s, Tup(vs)) for s, vs in cur]
    fn = e.implidx().get(('core::default::Default', 'default', n))
    if fn:
        return e.inline(st, fn[0], [])
    return one(st, T('default', ty['s']))


@model('Default::default')
def _default(e, st, a, c):
    return default_of(e, st, c.dest(), c.types)


# ---- comparison -----------------------------------------------------------------------------------
def equal(e, st, a, b):
    """[(state, bool)]."""
    a, b = e.d(st, a), e.d(st, b)
    if a == b and not isinstance(a, (Obj,)):
        return [(st, True)]
    if isinstance(a, C) and isinstance(b, C):
        x, y = a.v, b.v
        if isinstance(x, bytes) and isinstance(y, str):
            y = y.encode()
        if isinstance(y, bytes) and isinstance(x, str):
            x = x.encode()
        return [(st, x == y)]
    if isinstance(a, C) and isinstance(a.v, bytes) and isinstance(b, L):
        a = L([C(x) for x in a.v])
    if isinstance(b, C) and isinstance(b.v, bytes) and isinstance(a, L):
        b = L([C(x) for x in b.v])
    if a == b:
        return [(st, True)]
    if shaped(a) or shaped(b):
        if S.atoms(a) is not None and S.atoms(b) is not None:
            r = S.could_equal(a, b)
            if r is not None:
                return [(st, r)]
            ps = S.aligned(a, b) if S.atoms(a) and S.atoms(b) else []
            if any(not st.facts.get_cmp(x, y) & EQ for x, y in ps):
                return [(st, False)]
    if isinstance(b, Adt) and not isinstance(a, Adt):
        a, b = b, a
    if isinstance(a, Adt):
        if isinstance(b, Adt):
            fn = e.implidx().get(('core::cmp::PartialEq', 'eq', a.path))
            if fn and not fn[0].exp:
                return [(s2, x) for s, r in e.inline(st, fn[0], [a, b]) for s2, x in e.split_bool(s, r)]
            if a.path != b.path or a.vi != b.vi:
                return [(st, False)]
            return conj(e, st, a.fs, b.fs)
        dv = e.disc_val(a.path, a.vi)
        bd = e.deep(st, b)
        adt = e.w.adts.get(a.path)
        if adt and adt['kind'] == 'struct':
            return conj(e, st, a.fs, [e.step_in(bd, ('f', i, n)) for i, n in enumerate(a.names)])
        nv = 2 if a.path in (OPT, RES) else len(adt['v']) if adt else None
        out = []
        for s, i in e.split_var(st, bd, [dv], nv):
            if i is None:
                out.append((s, False))
            else:
                out += conj(e, s, a.fs, [T('f', T('v', bd, a.vn), n) for n in (a.names or [str(j) for j in range(len(a.fs))])])
        return out
    if isinstance(a, (Tup, L)) and isinstance(b, (Tup, L)):
        if len(a.items) != len(b.items):
            return [(st, False)]
        return conj(e, st, a.items, b.items)
    if isinstance(a, (Tup,)) and isinstance(b, T):
        return conj(e, st, a.items, [e.step_in(b, ('f', i)) for i in range(len(a.items))])
    if isinstance(b, (Tup,)) and isinstance(a, T):
        return conj(e, st, b.items, [e.step_in(a, ('f', i)) for i in range(len(b.items))])
    if isinstance(a, L) and isinstance(b, T) or isinstance(b, L) and isinstance(a, T):
        return e.split_bool(st, T('eq', e.deep(st, a), e.deep(st, b)))
    return [(s, m == EQ) for s, m in e.split_cmp(st, a, b, EQ)]


def conj(e, st, xs, ys):
    cur, out = [st], []
    for x, y in zip(xs, ys):
        nx = []
        for s in cur:
            for s2, b in equal(e, s, x, y):
                if b:
                    nx.append(s2)
                else:
                    out.append((s2, False))
        cur = nx
    return [(s, True) for s in cur] + out


def compare(e, st, a, b):
    """[(state, LT|EQ|GT)]."""
    a, b = e.d(st, a), e.d(st, b)
    if a == b:
        return [(st, EQ)]
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path == 'core::cmp::Reverse':
        return [(s, flip(o)) for s, o in compare(e, st, a.fs[0], b.fs[0])]
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
        fn = e.implidx().get(('core::cmp::Ord', 'cmp', a.path)) or e.implidx().get(('core::cmp::PartialOrd', 'partial_cmp', a.path))
        if fn and not fn[0].exp:
            out = []
            for s, r in e.inline(st, fn[0], [a, b]):
                r = e.d(s, r)
                if isinstance(r, Adt) and r.path == OPT:
                    r = r.fs[0]
                out += ord_val(e, s, r)
            return out
        if a.vi != b.vi:
            return [(st, LT if a.vi < b.vi else GT)]
        return lex(e, st, a.fs, b.fs)
    if isinstance(a, (Tup, L)) and isinstance(b, (Tup, L)):
        return [(s, o if o != EQ else (EQ if len(a.items) == len(b.items) else LT if len(a.items) < len(b.items) else GT))
                for s, o in lex(e, st, a.items, b.items)]
    if isinstance(a, Adt) and a.path == OPT or isinstance(b, Adt) and b.path == OPT:
        out = []
        for s, p in e.opt(st, a):
            for s2, q in e.opt(s, b):
                if p is None or q is None:
                    out.append((s2, EQ if p is q else LT if p is None else GT))
                else:
                    out += compare(e, s2, p, q)
        return out
    return e.split_cmp(st, a, b)


def lex(e, st, xs, ys):
    cur, out = [st], []
    for x, y in zip(xs, ys):
        nx = []
        for s in cur:
            for s2, o in compare(e, s, x, y):
                if o == EQ:
                    nx.append(s2)
                else:
                    out.append((s2, o))
        cur = nx
    return [(s, EQ) for s in cur] + out


@model('PartialEq::eq', 'PartialEq::ne', 'str::eq_ignore_ascii_case_')
def _eq(e, st, a, c):
    w = c.k['f'].endswith('::eq')
    return [(s, C(b == w)) for s, b in equal(e, st, a[0], a[1])]


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _lt(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    mask = {'lt': LT, 'le': LT | EQ, 'gt': GT, 'ge': GT | EQ}[m]
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(x, Adt) and x.path == 'log::Level':
        return one(st, FALSE)
    if isinstance(x, (T, C)) and isinstance(y, (T, C)):
        return [(s, C(bool(o & mask))) for s, o in e.split_cmp(st, x, y, mask)]
    return [(s, C(bool(o & mask))) for s, o in compare(e, st, x, y)]


@model('Ord::cmp', 'PartialOrd::partial_cmp', 'Iterator::cmp_')
def _cmp(e, st, a, c):
    p = c.k['f'].endswith('partial_cmp')
    return [(s, some(ORDV[o]) if p else ORDV[o]) for s, o in compare(e, st, a[0], a[1])]


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def _max(e, st, a, c):
    mx = c.k['f'].endswith('max')
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(x, C) and isinstance(y, C):
        return one(st, C(max(x.v, y.v) if mx else min(x.v, y.v)))
    return [(s, (y if o != GT else x) if mx else (x if o != GT else y)) for s, o in compare(e, st, x, y)]


@model('Ordering::then', 'Ordering::then_with', 'Ordering::reverse', 'Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def _then_o(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    out = []
    for s, o in ord_val(e, st, a[0]):
        if m.startswith('is_'):
            out.append((s, C(bool(o & {'is_lt': LT, 'is_le': LT | EQ, 'is_gt': GT, 'is_ge': GT | EQ, 'is_eq': EQ, 'is_ne': LT | GT}[m]))))
        elif m == 'reverse':
            out.append((s, ORDV[{LT: GT, EQ: EQ, GT: LT}[o]]))
        elif o != EQ:
            out.append((s, ORDV[o]))
        elif m == 'then':
            out.append((s, a[1]))
        else:
            out += e.call_closure(s, a[1], [])
    return out


@model('intrinsics::discriminant_value', 'mem::discriminant')
def _dv(e, st, a, c):
    return one(st, e.disc(e.d(st, a[0])))


# ---- strings --------------------------------------------------------------------------------------
def shaped(v):
    return S.shaped(v)


def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == 'concat':
            ps = p.args
        else:
            ps = (p,)
        for x in ps:
            if isinstance(x, C) and not isinstance(x.v, (str, bytes)):
                x = C(str(x.v).lower() if isinstance(x.v, bool) else str(x.v))
            if isinstance(x, C) and x.v == '':
                continue
            if out and isinstance(x, C) and isinstance(out[-1], C):
                out[-1] = C(out[-1].v + x.v)
            else:
                out.append(x)
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    return T('concat', *out)


def parse_template(b):
    """[literal str | index of argument] of a format template."""
    out, i, arg = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + ln].decode('utf8', 'replace'))
            i += 2 + ln
        else:
            spec = ''
            if n & 1:
                spec += 'F%s' % b[i:i + 4].hex()
                i += 4
            if n & 2:
                spec += 'W%d' % (b[i] | b[i + 1] << 8)
                i += 2
            if n & 4:
                spec += 'P%d' % (b[i] | b[i + 1] << 8)
                i += 2
            if n & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append((arg, spec))
            arg += 1
    return out


@model('Arguments::new', 'Arguments::new_const', 'Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_v1')
def _args(e, st, a, c):
    t = e.d(st, a[0])
    if isinstance(t, C) and isinstance(t.v, str):
        return one(st, T('fmtargs', t))
    if isinstance(t, C) and isinstance(t.v, bytes) and len(a) > 1:
        parts = parse_template(t.v)
        args = e.d(st, a[1])
        its = args.items if isinstance(args, L) else ()
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(C(p))
            else:
                x = its[p[0]] if p[0] < len(its) else T('arg', args, p[0])
                if p[1] and isinstance(x, T) and x.op in ('disp', 'dbg'):
                    x = T('spec', x, p[1])
                out.append(x)
        return one(st, T('fmtargs', *out))
    return one(st, T('fmtargs', *[e.deep(st, x) for x in a]))


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def _arg(e, st, a, c):
    n = c.k['f'].rsplit('_', 1)[-1]
    v = e.d(st, a[0])
    return one(st, T('disp' if n == 'display' else 'dbg', v))


def display(e, st, v):
    """[(state, string value)] of printing v with Display."""
    v = e.d(st, v)
    if isinstance(v, Adt):
        fn = e.implidx().get(('core::fmt::Display', 'fmt', v.path))
        if fn:
            cell = e.alloc(st, C(''))
            return [(s, e.d(s, Ref(cell))) for s, r in e.inline(st, fn[0], [v, Ref(cell)])]
        if v.path.endswith('::ScalarValue') and v.vn in ('Utf8', 'Utf8View', 'LargeUtf8') and isinstance(v.fs[0], Adt):
            return one(st, e.deep(st, v.fs[0].fs[0]) if is_some(v.fs[0]) else C('NULL'))
        return one(st, T('display', e.deep(st, v)))
    if isinstance(v, C):
        return one(st, concat([v]))
    return one(st, e.deep(st, v))


def format_args(e, st, v):
    v = e.d(st, v)
    if not (isinstance(v, T) and v.op == 'fmtargs'):
        return one(st, T('format', e.deep(st, v)))
    cur = [(st, [])]
    for p in v.args:
        nx = []
        for s, acc in cur:
            if isinstance(p, T) and p.op == 'disp':
                nx += [(s2, acc + [x]) for s2, x in display(e, s, p.args[0])]
            elif isinstance(p, T) and p.op in ('dbg', 'spec'):
                nx.append((s, acc + [e.deep(s, p)]))
            else:
                nx.append((s, acc + [p]))
        cur = nx
    return [(s, concat(acc)) for s, acc in cur]


@model('fmt::format', 'format::format')
def _format(e, st, a, c):
    return format_args(e, st, a[0])


@model('Formatter::write_fmt', 'Write::write_fmt', 'Formatter::write_str', 'Formatter::pad', 'Write::write_str', 'String::push_str', 'String::push', 'Write::write_char', 'Formatter::write_char', 'String::insert_str_')
def _write(e, st, a, c):
    r = a[0]
    if not isinstance(r, Ref):
        return None
    src = format_args(e, st, a[1]) if c.k['f'].endswith('write_fmt') else one(st, e.deep(st, a[1]))
    out = []
    for s, x in src:
        e.wref(s, r, concat([e.d(s, r), x]))
        out.append((s, UNIT if '::push' in c.k['f'] else ok(UNIT)))
    return out


@model('ToString::to_string', 'SpecToString::spec_to_string')
def _tostring(e, st, a, c):
    return display(e, st, a[0])


@model('Display::fmt')
def _dfmt(e, st, a, c):
    if not isinstance(a[1], Ref):
        return None
    out = []
    for s, x in display(e, st, a[0]):
        e.wref(s, a[1], concat([e.d(s, a[1]), x]))
        out.append((s, ok(UNIT)))
    return out


@model('String::new', 'String::with_capacity')
def _snew(e, st, a, c):
    return one(st, C(''))


@model('Add::add')
def _sadd(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    ty = c.dest()['s']
    if 'String' in ty:
        return one(st, concat([x, y]))
    if isinstance(x, C) and isinstance(y, C) and isinstance(x.v, int):
        return one(st, C(x.v + y.v))
    return one(st, T('Add', e.deep(st, x), e.deep(st, y)))


@model('AddAssign::add_assign')
def _addassign(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(x, C) and isinstance(y, C) and isinstance(x.v, int):
        e.wref(st, a[0], C(x.v + y.v))
    elif isinstance(x, C) and isinstance(x.v, str) or isinstance(x, T) and x.op == 'concat':
        e.wref(st, a[0], concat([x, e.deep(st, y)]))
    else:
        e.wref(st, a[0], T('Add', e.deep(st, x), e.deep(st, y)))
    return one(st, UNIT)


def cs(v):
    return v.v if isinstance(v, C) and isinstance(v.v, str) else None


def charset(e, st, x, p):
    """The pattern p (a predicate or a list of characters) as the set of characters it matches among those x can have; None when
    it is a text or not known."""
    if S.atoms(x) is None:
        return None
    v = e.deep(st, p)
    if isinstance(v, (L, Tup)) and all(cs(i) is not None and len(i.v) == 1 for i in v.items):
        return S.Chars(i.v for i in v.items)
    if not isinstance(v, (Clo, FnV)):
        return None
    chars = set()
    for a in S.atoms(x):
        chars |= set(a.args[1] if S.is_word(a) else a.v)
    out = set()
    for ch in chars:
        rs = e.call_closure(st.fork(), v, [C(ch)])
        if len(rs) != 1 or not isinstance(rs[0][1], C):
            return None
        if rs[0][1].v:
            out.add(ch)
    return S.Chars(out)


def trimmed(x, pat, m):
    """x without the matches of pat at its ends; None when unknown."""
    for f in ([S.strip_prefix] if m != 'trim_end_matches' else []) + ([S.strip_suffix] if m != 'trim_start_matches' else []):
        while True:
            y = f(x, pat)
            if y is None:
                return None
            if y == NONE:
                break
            x = y.fs[0]
    return x


@model('str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::trim', 'str::trim_start', 'str::trim_end',
       'String::to_lowercase_', 'str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches')
def _scase(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    s = cs(e.d(st, a[0]))
    args = [e.deep(st, x) for x in a]
    if s is not None and len(a) == 1:
        r = {'to_lowercase': s.lower, 'to_ascii_lowercase': s.lower, 'to_uppercase': s.upper, 'to_ascii_uppercase': s.upper,
             'trim': s.strip, 'trim_start': s.lstrip, 'trim_end': s.rstrip}[m]()
        return one(st, C(r))
    if len(a) == 2:
        pat = cs(args[1]) or charset(e, st, args[0], args[1])
        r = trimmed(args[0], pat, m) if pat is not None and S.atoms(args[0]) is not None else None
        if r is not None:
            return one(st, r)
    if shaped(args[0]):
        r = None
        if m.startswith('to_lower') or m.startswith('to_ascii_lower'):
            r = S.lower(args[0])
        elif m.startswith('to_'):
            r = S.upper(args[0])
        elif len(a) == 1:
            r = S.trim(args[0], {'trim': '', 'trim_start': 'start', 'trim_end': 'end'}[m])
        if r is not None:
            return one(st, r)
    return one(st, T(m.replace('_ascii', ''), *args))


@model('str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case', 'String::contains_', 'str::is_char_boundary')
def _sw(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    x, y = e.deep(st, a[0]), e.deep(st, a[1])
    if cs(x) is not None and cs(y) is not None:
        r = {'starts_with': lambda: x.v.startswith(y.v), 'ends_with': lambda: x.v.endswith(y.v), 'contains': lambda: y.v in x.v,
             'eq_ignore_ascii_case': lambda: x.v.lower() == y.v.lower()}[m]()
        return one(st, C(r))
    if shaped(x) and cs(y) is not None and m in ('starts_with', 'ends_with', 'contains'):
        r = getattr(S, m)(x, y.v)
        if r is not None:
            return one(st, C(r))
    pat = charset(e, st, x, a[1])
    if pat is not None and m in ('starts_with', 'ends_with', 'contains'):
        r = getattr(S, m)(x, pat)
        if r is not None:
            return one(st, C(r))
    if S.atoms(x) is not None and m in ('starts_with', 'ends_with') and not isinstance(x, C) or shaped(y):
        ax, ay = S.atoms(x), S.atoms(y)
        if ax is not None and ay is not None and m in ('starts_with', 'ends_with'):
            n = len(ay)
            if (ax[:n] if m == 'starts_with' else ax[-n:]) == ay:
                return one(st, TRUE)
    if isinstance(a[1], (Clo, FnV)) or isinstance(e.d(st, a[1]), (Clo, FnV)):
        if m != 'contains' or S.atoms(x) is None:
            return None
        return any_char(e, st, x, a[1])
    if m == 'eq_ignore_ascii_case':
        lx = C(x.v.lower()) if cs(x) is not None else T('to_lowercase', x)
        ly = C(y.v.lower()) if cs(y) is not None else T('to_lowercase', y)
        return [(s, C(b)) for s, b in equal(e, st, lx, ly)]
    return [(s, C(b)) for s, b in e.split_bool(st, T(m, x, y))]


@model('str::split_once', 'str::rsplit_once', 'str::strip_prefix', 'str::strip_suffix', 'str::find', 'str::rfind', 'str::get')
def _split_once(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    x, y = e.deep(st, a[0]), e.deep(st, a[1])
    sx, sy = cs(x), cs(y)
    pat = charset(e, st, x, a[1]) if m != 'get' else None
    if pat is not None:
        r = S.split_once(x, pat, m == 'rsplit_once') if 'once' in m else getattr(S, m)(x, pat) if 'strip' in m else S.find(x, pat, m == 'rfind')
        return one(st, r) if r is not None else None
    if isinstance(y, (Clo, FnV)):
        return None
    if sx is not None and sy is not None:
        if m in ('split_once', 'rsplit_once'):
            if sy not in sx:
                return one(st, NONE)
            p = sx.split(sy, 1) if m == 'split_once' else sx.rsplit(sy, 1)
            return one(st, some(Tup((C(p[0]), C(p[1])))))
        if m == 'strip_prefix':
            return one(st, some(C(sx[len(sy):])) if sx.startswith(sy) else NONE)
        if m == 'strip_suffix':
            return one(st, some(C(sx[:-len(sy)])) if sx.endswith(sy) else NONE)
        if m in ('find', 'rfind'):
            i = getattr(sx, m)(sy)
            return one(st, some(C(len(sx[:i].encode()))) if i >= 0 else NONE)
    if shaped(x) and sy:
        r = None
        if m in ('split_once', 'rsplit_once'):
            r = S.split_once(x, sy, m == 'rsplit_once')
        elif m in ('strip_prefix', 'strip_suffix'):
            r = getattr(S, m)(x, sy)
        elif m in ('find', 'rfind'):
            r = S.find(x, sy, m == 'rfind')
        if r is not None:
            return one(st, r)
    if m == 'get' and isinstance(y, Adt) and y.path.startswith('core::ops::range::'):
        lo, hi = range_bounds(y)
        if S.atoms(x) is not None:
            r = S.sub(x, lo, hi)
            if r == 'panic':
                return one(st, NONE)
            if r is not None:
                return one(st, some(r))
        t = T('get', x, lo, hi)
        return [(s2, some(T('slice', x, lo, hi, False)) if i else NONE) for s2, i in e.split_var(st, t, [1, 0], 2)]
    return one(st, T(m, x, y))


def range_bounds(i):
    n = i.path.split('::')[-1]
    if n == 'RangeFull':
        return C(0), None
    lo = i.fs[0] if n in ('Range', 'RangeInclusive', 'RangeFrom') else C(0)
    hi = i.fs[1] if n in ('Range', 'RangeInclusive') else i.fs[0] if n in ('RangeTo', 'RangeToInclusive') else None
    if hi is not None and 'Inclusive' in n:
        hi = C(hi.v + 1) if isinstance(hi, C) else T('Add', hi, C(1))
    return lo, hi


def any_char(e, st, x, f):
    cur, out = [st], []
    for ch in S.chars(x):
        nx = []
        for s in cur:
            for s2, r in e.call_closure(s, f, [ch]):
                for s3, b in e.split_bool(s2, r):
                    if b:
                        out.append((s3, TRUE))
                    else:
                        nx.append(s3)
        cur = nx
    return out + [(s, FALSE) for s in cur]


@model('char::is_ascii_digit', 'char::is_numeric', 'char::is_alphanumeric', 'char::is_ascii_alphanumeric', 'char::is_alphabetic', 'methods::is_ascii_digit',
       'methods::is_numeric', 'methods::is_alphanumeric', 'methods::is_ascii_alphanumeric', 'methods::is_alphabetic', 'char::is_ascii', 'methods::is_ascii',
       'char::is_digit', 'methods::is_digit', 'char::is_ascii_hexdigit', 'methods::is_ascii_hexdigit', 'char::is_whitespace', 'methods::is_whitespace',
       'num::is_ascii_digit', 'u8::is_ascii_digit', 'num::is_ascii_alphanumeric', 'char::is_ascii_alphabetic', 'methods::is_ascii_alphabetic',
       'str::is_ascii', 'num::is_ascii', 'u8::is_ascii')
def _charclass(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    x = e.deep(st, a[0])
    al = {'is_ascii_digit': S.DIGITS, 'is_numeric': S.DIGITS, 'is_alphanumeric': S.ALNUM, 'is_ascii_alphanumeric': S.ALNUM, 'is_alphabetic': S.ALNUM[10:],
          'is_ascii_alphabetic': S.ALNUM[10:], 'is_ascii': ''.join(map(chr, range(128))), 'is_digit': S.DIGITS, 'is_ascii_hexdigit': S.DIGITS + 'abcdefABCDEF',
          'is_whitespace': ' \t\n\r'}[m]
    if m == 'is_digit' and e.d(st, a[1]) != C(10):
        return None
    if S.atoms(x) is not None:
        r = S.all_in(x, al)
        if r is not None:
            return one(st, C(r))
    return [(s, C(b)) for s, b in e.split_bool(st, T(m, x))]


@model('str::split', 'str::splitn', 'str::rsplit', 'str::rsplitn', 'str::split_terminator', 'str::lines', 'str::chars', 'str::split_whitespace', 'str::bytes', 'str::char_indices')
def _ssplit(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    v = [e.deep(st, x) for x in a]
    s = cs(v[0])
    if m in ('split', 'splitn') and isinstance(v[-1], Clo) and S.atoms(v[0]) is not None and (m == 'split' or isinstance(v[1], C)):
        # a character predicate: decided for every character the text can contain
        chars = set()
        for x in S.atoms(v[0]):
            chars |= set(x.args[1] if S.is_word(x) else x.v)
        sep, fine = set(), True
        for ch in sorted(chars):
            rs = e.call_closure(st.fork(), v[-1], [C(ch)])
            if len(rs) != 1 or not isinstance(rs[0][1], C):
                fine = False
                break
            if rs[0][1].v:
                sep.add(ch)
        r = S.split_set(v[0], sep, v[1].v if m == 'splitn' else None) if fine else None
        if r is not None:
            return one(st, It(r))
    if s is not None:
        if m == 'split' and cs(v[1]):
            return one(st, It([C(x) for x in s.split(v[1].v)]))
        if m == 'chars':
            return one(st, It([C(x) for x in s]))
        if m == 'char_indices':
            return one(st, It([Tup((C(len(s[:i].encode())), C(x))) for i, x in enumerate(s)]))
        if m == 'splitn' and isinstance(v[1], C) and cs(v[2]):
            return one(st, It([C(x) for x in s.split(v[2].v, v[1].v - 1)]))
        if m in ('lines',):
            return one(st, It([C(x) for x in s.splitlines()]))
    if S.atoms(v[0]) is not None:
        r = None
        if m in ('split', 'rsplit') and cs(v[1]):
            r = S.split(v[0], v[1].v)
            if r is not None and m == 'rsplit':
                r = r[::-1]
        elif m in ('splitn', 'rsplitn') and isinstance(v[1], C) and cs(v[2]):
            r = S.split(v[0], v[2].v, v[1].v, m == 'rsplitn')
        elif m == 'chars' or m == 'bytes':
            r = S.chars(v[0])
        elif m == 'lines':
            r = S.split(v[0], '\n')
        if r is not None:
            return one(st, It(r))
    return one(st, T('oiter', T(m, *v), 0))


@model('str::parse', 'FromStr::from_str')
def _parse(e, st, a, c):
    ty = c.dest()
    ts = ty['s']
    v = e.deep(st, a[0])
    # a workspace implementation?
    if ty.get('d') == RES and ty.get('a'):
        inner = c.types[ty['a'][0]]
        fn = e.implidx().get(('core::str::traits::FromStr', 'from_str', tyname(inner)))
        if fn:
            return e.inline(st, fn[0], [a[0]])
        s = cs(v)
        n = tyname(inner)
        if s is not None:
            if n.endswith('String'):
                return one(st, ok(v))
            if n in ('usize', 'u64', 'i64', 'u32', 'i32', 'isize', 'u8', 'u16', 'i16'):
                import re
                bits = 64 if n.endswith('size') else int(n[1:])
                if re.fullmatch(r'[+]?[0-9]+' if n[0] == 'u' else r'[+-]?[0-9]+', s):
                    x = int(s)
                    if (0 <= x < 1 << bits) if n[0] == 'u' else (-(1 << bits - 1) <= x < 1 << bits - 1):
                        return one(st, ok(C(x)))
                return one(st, err(T('parse-error', v)))
            if n == 'bool':
                return one(st, ok(C(s == 'true')) if s in ('true', 'false') else err(T('parse-error', v)))
        if n.endswith('String') or n.endswith('PathBuf'):
            return one(st, ok(v))
        return one(st, T('parse', n, v))
    return one(st, T('parse', ts, v))


@model('slice::join', 'slice::concat')
def _sjoin(e, st, a, c):
    v = e.d(st, a[0])
    if isinstance(v, L) and (len(a) == 1 or isinstance(e.d(st, a[1]), (C, T))) and 'String' in c.dest()['s']:
        parts = []
        for i, x in enumerate(v.items):
            if i and len(a) > 1:
                parts.append(e.deep(st, a[1]))
            parts.append(e.deep(st, x))
        return one(st, concat(parts))
    return None


@model('str::replace', 'str::repeat', 'str::replacen')
def _srepl(e, st, a, c):
    v = [e.deep(st, x) for x in a]
    if all(cs(x) is not None for x in v[:3]) and c.k['f'].endswith('replace'):
        return one(st, C(v[0].v.replace(v[1].v, v[2].v)))
    return one(st, T(c.k['f'].rsplit('::', 1)[-1], *v))


@model('String::from_utf8', 'str::from_utf8', 'converts::from_utf8')
def _utf8(e, st, a, c):
    v = e.deep(st, a[0])
    return one(st, T('utf8', v))


@model('String::from_utf8_lossy')
def _utf8l(e, st, a, c):
    return one(st, T('utf8lossy', e.deep(st, a[0])))


# ---- numbers --------------------------------------------------------------------------------------
@model('usize::div_ceil', 'num::div_ceil')
def _divceil(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(x, C) and isinstance(y, C) and y.v:
        return one(st, C(-(-x.v // y.v)))
    return one(st, T('div_ceil', e.deep(st, x), e.deep(st, y)))


@model('num::saturating_sub', 'num::saturating_add', 'num::wrapping_add', 'num::checked_add', 'num::checked_sub')
def _satsub(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    x, y = e.d(st, a[0]), e.d(st, a[1])
    if isinstance(x, C) and isinstance(y, C):
        r = x.v + y.v if 'add' in m else x.v - y.v
        if m == 'saturating_sub':
            r = max(0, r)
        if 'checked' in m:
            return one(st, some(C(r)) if r >= 0 else NONE)
        return one(st, C(r))
    return one(st, T(m, e.deep(st, x), e.deep(st, y)))


# ---- logging --------------------------------------------------------------------------------------
@model('__private_api::log', '__private_api::loc', '__private_api::enabled')
def _log(e, st, a, c):
    return one(st, UNIT)


@model('log::max_level')
def _lvl(e, st, a, c):
    return one(st, T('loglevel'))


# ---- panics ---------------------------------------------------------------------------------------
@model('panicking::panic_fmt', 'panicking::panic', 'panicking::unreachable_display', 'panicking::panic_display', 'panicking::panic_explicit', 'panicking::assert_failed', 'process::abort', 'process::exit')
def _panic(e, st, a, c):
    e.panic(st, c.frame, c.line, 'panic')
    return []


# ---- paths ----------------------------------------------------------------------------------------
def pjoin(p, x):
    if p == C(''):
        return x
    ax = S.atoms(x)
    if ax is not None and isinstance(ax[0], C) and ax[0].v.startswith('/'):
        return x
    if S.atoms(p) is not None:
        if S.ends_with(p, '/'):
            return concat([p, x])
        return concat([p, C('/'), x])
    return T('pjoin', p, x)


@model('Path::join')
def _pjoin(e, st, a, c):
    return one(st, pjoin(e.deep(st, a[0]), e.deep(st, a[1])))


@model('PathBuf::push')
def _ppush(e, st, a, c):
    if not isinstance(a[0], Ref):
        return None
    e.wref(st, a[0], pjoin(e.d(st, a[0]), e.deep(st, a[1])))
    return one(st, UNIT)


@model('PathBuf::new')
def _pnew(e, st, a, c):
    return one(st, C(''))


@model('Path::to_str', 'OsStr::to_str')
def _ptostr(e, st, a, c):
    x = e.deep(st, a[0])
    if S.atoms(x) is not None or (isinstance(x, T) and x.op == 'pjoin'):
        return one(st, some(x))
    return [(s, some(x) if i else NONE) for s, i in e.split_var(st, T('to_str', x), [1, 0], 2)]


@model('Path::file_name', 'Path::extension', 'Path::file_stem')
def _pname(e, st, a, c):
    m = c.k['f'].rsplit('::', 1)[-1]
    x = e.deep(st, a[0])
    if S.atoms(x) is None:
        return one(st, T(m, x))
    if x == C(''):
        return one(st, NONE)
    ps = S.split(x, '/')
    if ps is None or ps[-1] == C(''):
        return one(st, T(m, x))
    n = ps[-1]
    if m == 'file_name':
        return one(st, some(n))
    sp = S.split_once(n, '.', True)
    if sp is None:
        return one(st, T(m, x))
    if sp == NONE or sp.fs[0].items[0] == C(''):
        return one(st, NONE if m == 'extension' else some(n))
    return one(st, some(sp.fs[0].items[1 if m == 'extension' else 0]))


# ---- times ----------------------------------------------------------------------------------------
@model('DateTime::timestamp_millis', 'DateTime::to_utc', 'DateTime::with_timezone')
def _millis(e, st, a, c):
    """Instants have millisecond precision, so this neither merges nor reorders them."""
    return one(st, e.deep(st, a[0]))


# ---- JSON -----------------------------------------------------------------------------------------
JV = 'serde_json::value::Value'


def jval(x):
    """A JSON value from Python data; abstract values stand for strings."""
    if x is None:
        return Adt(JV, 0, 'Null', ())
    if isinstance(x, bool):
        return Adt(JV, 1, 'Bool', (C(x),), ('0',))
    if isinstance(x, int):
        return Adt(JV, 2, 'Number', (C(x),), ('0',))
    if isinstance(x, str):
        x = C(x)
    if isinstance(x, list):
        return Adt(JV, 4, 'Array', (L([jval(y) for y in x]),), ('0',))
    if isinstance(x, dict):
        return Adt(JV, 5, 'Object', (M([(C(k) if isinstance(k, str) else k, jval(y)) for k, y in x.items()], 'map'),), ('0',))
    if isinstance(x, Adt) and x.path == JV:
        return x
    return Adt(JV, 3, 'String', (x,), ('0',))


def _jas(var):
    def f(e, st, a, c):
        v = e.d(st, a[0])
        if isinstance(v, Adt) and v.path == JV:
            return one(st, some(v.fs[0]) if v.vn == var else NONE)
        return None
    return f


for _n, _v in (('as_object', 'Object'), ('as_array', 'Array'), ('as_str', 'String'), ('as_bool', 'Bool')):
    MODELS['Value::' + _n] = _jas(_v)


@model('Value::get')
def _jget(e, st, a, c):
    v, k = e.d(st, a[0]), e.d(st, a[1])
    if not (isinstance(v, Adt) and v.path == JV):
        return None
    if v.vn == 'Object' and not (isinstance(k, C) and isinstance(k.v, int)):
        return [(s, NONE if p is None else some(p)) for s, p, _ in map_get(e, st, v.fs[0], k)]
    if v.vn == 'Array' and isinstance(k, C) and isinstance(k.v, int) and isinstance(v.fs[0], L):
        return one(st, some(v.fs[0].items[k.v]) if k.v < len(v.fs[0].items) else NONE)
    return one(st, NONE)


@model('de::from_slice', 'de::from_str', 'de::from_reader', 'serde_json::from_slice', 'serde_json::from_str')
def _jparse(e, st, a, c):
    v = e.d(st, a[0])
    if isinstance(v, T) and v.op == 'json':
        j = v.args[0]
        t = c.types[c.k['ga'][-1]] if c and c.k.get('ga') else None
        d = (t or {}).get('d', '')
        if d.endswith('map::Map'):
            return one(st, ok(j.fs[0]) if j.vn == 'Object' else err(T('badjson', j)))
        if d.endswith('value::Value'):
            return one(st, ok(j))
    if isinstance(v, T) and v.op == 'notjson':
        return one(st, err(T('badjson', v)))
    return None


@model('ser::to_string', 'ser::to_vec', 'ser::to_string_pretty', 'ser::to_vec_pretty', 'serde_json::to_string', 'serde_json::to_vec', 'serde_json::to_string_pretty', 'serde_json::to_vec_pretty')
def _jprint(e, st, a, c):
    return one(st, ok(T('jsontext', e.deep(st, a[0]))))


# ---- environment, lines of a file -----------------------------------------------------------------
@model('env::vars')
def _envvars(e, st, a, c):
    env = getattr(e, 'env', None)
    if env is None:
        return None
    return one(st, It([Tup((C(k), C(v) if isinstance(v, str) else v)) for k, v in env.items()]))


@model('env::var', 'env::var_os')
def _envvar(e, st, a, c):
    env = getattr(e, 'env', None)
    k = e.deep(st, a[0])
    if env is None or not isinstance(k, C):
        return None
    v = env.get(k.v)
    o = c.k['f'].endswith('var_os')
    if v is None:
        return one(st, NONE if o else err(T('NotPresent')))
    v = C(v) if isinstance(v, str) else v
    return one(st, some(v) if o else ok(v))


@model('BufReader::new', 'Cursor::new', 'Cursor::into_inner', 'BufReader::with_capacity')
def _rdid(e, st, a, c):
    v = e.deep(st, a[-1])
    return one(st, a[-1]) if S.atoms(v) is not None else None


@model('BufRead::lines', 'BufRead::split')
def _lines(e, st, a, c):
    v = e.deep(st, a[0])
    if S.atoms(v) is None:
        return None
    r = S.split(v, '\n')
    if r is None:
        return None
    if r and r[-1] == C(''):
        r = r[:-1]
    out = []
    for x in r:
        y = S.strip_suffix(x, '\r')
        if y is None:
            return None
        out.append(ok(x if y == NONE else y.fs[0]))
    return one(st, It(out))


from . import models_more  # noqa: E402,F401
from . import models_arrow  # noqa: E402,F401
from . import models_store  # noqa: E402,F401
from . import models_df  # noqa: E402,F401
from . import models_time  # noqa: E402,F401
