"""Abstract interpretation of every method of the Python classes (python/src/internal.rs) with the operations of the core
cut to unknown results: on every path the operation of the same name has been called with the caller's arguments in their
places and its result, whole, is what Python gets; when it fails Python gets an exception. File slices go to Python and
back through the real parsing of their names. The defaults of the arguments are those the generated wrappers put in, and
the builder written in Python is followed with unknown options in an interpreter of its own."""
import ast
import os

from .tables import *
from .c09 import slice_of
from .. import facts, pyai
from ..models import model, one


def setf(v, n, x):
    return Adt(v.path, v.vi, v.vn, [x if k == n else y for k, y in zip(v.names, v.fs)], v.names)


@model('ToPyArrow::to_pyarrow')
def _topy(e, st, a, c):
    st2 = st.fork()
    st2.event('failed', C('to_pyarrow'))
    return [(st, ok(T('py', e.deep(st, a[0])))), (st2, err(T('pyerr', C('arrow'))))]


@model('HudiCoreError::new_err', 'PyErr::new', 'PyException::new_err', 'PyValueError::new_err', 'PyRuntimeError::new_err')
def _newerr(e, st, a, c):
    return one(st, T('pyerr', e.deep(st, a[0])))


def refs_in(w, cls):
    return {f.path.rsplit('::', 1)[-1]: f for f in w.fns.values() if f.path.startswith('hudi::internal::%s::' % cls) and f.path.count('::') == 3 and '__py' not in f.path and not f.exp}


def check(c):
    w = c.w
    n_ = T('sym', 'n')
    t1, t2, tA, tB = ts('t1'), ts('t2'), ts('A'), ts('B')
    F = [Tup((word('f%d' % i, S.ALNUM), C(o), word('v%d' % i, S.ALNUM))) for i, o in enumerate(('=', '<'))]
    # a range over one column, a filter stated twice, and one without a value
    F += [Tup((F[1].items[0], C('<'), word('v4', S.ALNUM))), Tup((F[1].items[0], C('>='), word('v2', S.ALNUM))), F[0], Tup((word('f3', S.ALNUM), C('!='), C('')))]
    OPTS = M([(C('k'), word('ov', S.ALNUM))], 'HashMap')
    PYT = T('python')
    inner = {k: T('the ' + k) for k in ('table', 'timeline', 'reader')}

    def scene(results):
        """results: core function path -> (is async, fallible, value)."""
        sc = Scene(w)

        def mk(path, asyn, fallible, val):
            def cut(en, st, a, _):
                st.event('core', C(path), L([en.deep(st, x) for x in a]))
                out = []
                v = val(sc, st) if callable(val) else val
                if fallible:
                    s2 = st.fork()
                    s2.event('failed', C(path))
                    out.append((s2, err(T('coreerr', C(path)))))
                    v = ok(v)
                out.append((st, v))
                return [(s, T('ready', v) if asyn else v) for s, v in out]
            return cut
        for path, r in results.items():
            sc.e.cuts[path] = mk(path, *r)
        return sc

    def coref(ty, name):
        f = c.method(ty, name)
        asyn = 'coroutine' in ret(f) or 'async' in ret(f) or 'Future' in ret(f)
        return f, asyn

    def ret(f):
        return f.types[f.body['l'][0][0]]['s']

    def slices(sc):
        g = Group('g1', C('p=a')).add(t1, logs=2)
        h = Group('g2', C('')).add(t2, logs=0)
        st = St()
        st, a = slice_of(sc, g.base(0), [x for x in g.logs(0)], C('p=a'), st)
        st, b = slice_of(sc, h.base(0), [], C(''), st)
        a = with_meta(sc, a)
        return [a, b]

    def with_meta(sc, fs):
        """The slice with metadata of its files: the log files have any sizes, the first one 0."""
        bf = fld(fs, 'base_file')
        ls = []
        for i, l in enumerate(items(fld(fs, 'log_files'))):
            n = lambda x: C(0) if i == 0 else T('sym', 'log%s%d' % (x, i))
            lm = sc.struct('FileMetadata', {}, {'name': T('sym', 'logname%d' % i), 'size': n('size'), 'byte_size': n('bytes'), 'num_records': n('records'), 'fully_populated': C(i == 1)})
            ls.append(setf(l, 'file_metadata', some(lm)))
        fs = setf(fs, 'log_files', M([(l, UNIT) for l in ls], 'BTreeSet'))
        fm = sc.struct('FileMetadata', {}, {'name': T('sym', 'fmname'), 'size': T('sym', 'fmsize'), 'byte_size': T('sym', 'fmbytes'), 'num_records': T('sym', 'fmrecords'), 'fully_populated': TRUE})
        return setf(fs, 'base_file', setf(bf, 'file_metadata', some(fm)))

    def py_slice(s, v, fs):
        """None, or in what a HudiFileSlice differs from the slice."""
        bf = fld(fs, 'base_file')
        m = fld(bf, 'file_metadata')
        sc = Scene(w)
        name = sc.one('BaseFile::file_name', [bf])[1]
        logs = [sc.one('LogFile::file_name', [x])[1] for x in items(fld(fs, 'log_files'))]
        z = lambda k: fld(m.fs[0], k) if m.vi == 1 else C(0)
        exp = {'file_id': fld(bf, 'file_id'), 'partition_path': fld(fs, 'partition_path'), 'creation_instant_time': fld(bf, 'commit_timestamp'), 'base_file_name': name,
               'base_file_size': z('size'), 'base_file_byte_size': z('byte_size'), 'num_records': z('num_records')}
        for k, x in exp.items():
            if fld(v, k) != x:
                return '%s of a file slice is %s instead of %s' % (k, fld(v, k), x)
        got = items(fld(v, 'log_file_names'))
        if got != logs:
            return 'log_file_names of a file slice are %s instead of %s' % (got, logs)
        return None

    def called(s, path, exp):
        cs = [ev for ev in s.events() if ev[0] == 'core']
        own = [ev for ev in cs if ev[1] == C(path)]
        if not own:
            return '%s is not called%s' % (path, ', but ' + ', '.join(ev[1].v for ev in cs) if cs else '')
        a = list(own[-1][2].items)
        if a != exp:
            return '%s gets %s instead of %s' % (path, a, exp)
        return None

    def failed(s):
        return any(ev[0] == 'failed' for ev in s.events())

    same = lambda s, v, x: None if v == x else 'the result is %s instead of %s' % (v, x)
    arrow = lambda s, v, x: None if v == T('py', x) else 'the result is %s instead of %s' % (v, x)

    def many(one_):
        def f(s, v, x):
            got, exp = items(v), items(x)
            if got is None or len(got) != len(exp):
                return 'the result has %s elements instead of %d' % (len(got) if got is not None else v, len(exp))
            for g, y in zip(got, exp):
                r = one_(s, g, y)
                if r:
                    return r
            return None
        return f

    def wrapped(s, v, x):
        return None if fld(v, 'inner') == x else 'the result wraps %s instead of %s' % (fld(v, 'inner'), x)

    VAL = lambda sc, st: T('result')
    SL = lambda sc, st: L(slices(sc))
    SPL = lambda sc, st: L([L(slices(sc)), L([]), L(slices(sc)[:1])])
    INS = lambda sc, st: L([sc.instant(t1, 'Commit'), sc.instant(t2, 'ReplaceCommit')])
    py_inst = lambda s, v, x: wrapped(s, v, x)
    fa, fx = (some(L(F)), NONE), (L(F), L([]))

    # class, method, core type, core operation, argument lists (python, core), fallible, value, what the result has to be
    def tri(*pre):
        """Python arguments and those of the core, with filters given and left out."""
        return [(list(pre) + [x, PYT], list(pre) + [y]) for x, y in zip(fa, fx)]
    P_ = [PYT]
    rng = [([x, y, PYT], [x, y]) for x in (NONE, some(tA)) for y in (NONE, some(tB))]
    SPEC = [
        ('HudiTable', 'hudi_options', 'Table', [([], [])], False, VAL, same),
        ('HudiTable', 'storage_options', 'Table', [([], [])], False, VAL, same),
        ('HudiTable', 'table_name', 'Table', [([], [])], False, VAL, same),
        ('HudiTable', 'table_type', 'Table', [([], [])], False, VAL, same),
        ('HudiTable', 'is_mor', 'Table', [([], [])], False, VAL, same),
        ('HudiTable', 'timezone', 'Table', [([], [])], False, VAL, same),
        ('HudiTable', 'get_avro_schema', 'Table', [(P_, [])], True, VAL, same),
        ('HudiTable', 'get_schema', 'Table', [(P_, [])], True, VAL, arrow),
        ('HudiTable', 'get_partition_schema', 'Table', [(P_, [])], True, VAL, arrow),
        ('HudiTable', 'get_timeline', 'Table', [(P_, [])], False, VAL, wrapped),
        ('HudiTable', 'get_file_slices_splits', 'Table', tri(n_), True, SPL, many(many(py_slice))),
        ('HudiTable', 'get_file_slices_splits_as_of', 'Table', tri(n_, tA), True, SPL, many(many(py_slice))),
        ('HudiTable', 'get_file_slices', 'Table', tri(), True, SL, many(py_slice)),
        ('HudiTable', 'get_file_slices_as_of', 'Table', tri(tA), True, SL, many(py_slice)),
        ('HudiTable', 'get_file_slices_between', 'Table', rng, True, SL, many(py_slice)),
        ('HudiTable', 'create_file_group_reader_with_options', 'Table', [([some(OPTS)], [OPTS]), ([NONE], [M((), 'HashMap')])], True, VAL, wrapped),
        ('HudiTable', 'read_snapshot', 'Table', tri(), True, VAL, arrow),
        ('HudiTable', 'read_snapshot_as_of', 'Table', tri(tA), True, VAL, arrow),
        ('HudiTable', 'read_incremental_records', 'Table', [([tA, x, PYT], [tA, x]) for x in (NONE, some(tB))], True, VAL, arrow),
        ('HudiTimeline', 'get_instant_metadata_in_json', 'Timeline', None, True, VAL, same),
        ('HudiTimeline', 'get_latest_commit_timestamp', 'Timeline', [(P_, [])], True, VAL, same),
        ('HudiTimeline', 'get_latest_avro_schema', 'Timeline', [(P_, [])], True, VAL, same),
        ('HudiTimeline', 'get_latest_schema', 'Timeline', [(P_, [])], True, VAL, arrow),
        ('HudiFileGroupReader', 'read_file_slice_by_base_file_path', 'FileGroupReader', [([cat('p/', word('fp', S.ALNUM)), PYT], [cat('p/', word('fp', S.ALNUM))])], True, VAL, arrow),
    ] + [('HudiTimeline', 'get_completed_' + k, 'Timeline', [([d, PYT], [d]) for d in (TRUE, FALSE)], True, INS, many(wrapped)) for k in ('commits', 'deltacommits', 'replacecommits', 'clustering_commits')]
    INNER = {'HudiTable': 'table', 'HudiTimeline': 'timeline', 'HudiFileGroupReader': 'reader'}

    # every operation of the core types is cut, so that a call of another one is seen
    ALL = {}
    for cls, m, ty, args, fal, val, j in SPEC:
        f, asyn = coref(ty, m)
        ALL[f.path] = (asyn, fal, val)

    def wrap_in(sc, cls):
        return sc.struct(cls, {}, {'inner': inner[INNER[cls]]})

    seen = set()
    for cls, m, ty, args, fal, val, j in SPEC:
        path = coref(ty, m)[0].path
        seen.add((cls, m))
        if args is None:
            sc0 = Scene(w)
            i0 = sc0.instant(t1, 'Commit')
            args = [([sc0.struct('HudiInstant', {}, {'inner': i0}), PYT], [i0])]
        for k, (pa, ca) in enumerate(args):
            def run():
                sc = scene(ALL)
                fn = refs_in(w, cls).get(m)
                need(fn is not None, 'method %s.%s' % (cls, m))
                return sc.e, sc.run(fn, [wrap_in(sc, cls)] + pa)

            def judge(s, v):
                if failed(s):
                    return None if is_err(v) else ('%s.%s gives a result although the core fails: %s' % (cls, m, v), v)
                r = called(s, path, [inner[INNER[cls]]] + ca)
                if r:
                    return '%s.%s: %s' % (cls, m, r), v
                if fal or j is arrow:
                    if is_err(v):
                        return '%s.%s fails although the core does not' % (cls, m), v
                    need(is_ok(v), 'result %s' % v)
                    v = v.fs[0]
                x = val(Scene(w), s)
                r = j(s, v, x)
                return ('%s.%s: %s' % (cls, m, r), v) if r else None
            c.outcomes('delegation', '%s.%s, arguments %d' % (cls, m, k), run, judge, least=2 if fal else 1)

    # ---- opening
    def opened(m, cls, fpath, asyn, args, exp):
        def run():
            sc = scene({**ALL, fpath: (asyn, True, T('opened'))})
            fn = refs_in(w, cls).get(m)
            need(fn is not None, 'method %s.%s' % (cls, m))
            return sc.e, sc.run(fn, args)

        def judge(s, v):
            if failed(s):
                return None if is_err(v) else ('a table that cannot be opened is given to Python', v)
            r = called(s, fpath, exp)
            if r:
                return r, v
            return None if is_ok(v) and fld(v.fs[0], 'inner') == T('opened') else ('Python gets %s' % v, v)
        return run, judge
    U = cat('file:///', word('u', S.ALNUM))
    for k, (o, x) in enumerate(((some(OPTS), OPTS), (NONE, M((), 'HashMap')))):
        f, asyn = coref('Table', 'new_with_options')
        c.outcomes('opening', 'HudiTable, options %d' % k, *opened('new_with_options', 'HudiTable', f.path, asyn, [U, o], [U, x]), least=2)
        f, asyn = coref('FileGroupReader', 'new_with_options')
        c.outcomes('opening', 'HudiFileGroupReader, options %d' % k, *opened('new', 'HudiFileGroupReader', f.path, asyn, [U, o], [U, x]), least=2)
    seen |= {('HudiTable', 'new_with_options'), ('HudiFileGroupReader', 'new')}
    KV = [M([(C('k%d' % i), word('w%d' % i, S.ALNUM))], 'HashMap') for i in range(3)]
    for mask in range(8):
        given = [KV[i] if mask >> i & 1 else None for i in range(3)]
        b, asyn = coref('TableBuilder', 'build')

        def run():
            sc = scene({**ALL, b.path: (asyn, True, T('opened'))})
            return sc.e, sc.run('hudi::internal::build_hudi_table', [U] + [some(g) if g is not None else NONE for g in given])

        def judge(s, v):
            if failed(s):
                return None if is_err(v) else ('a table that cannot be opened is given to Python', v)
            ev = [ev for ev in s.events() if ev[0] == 'core' and ev[1] == C(b.path)]
            if not ev:
                return 'the builder is not asked to build', v
            bd = ev[-1][2].items[0]
            opts = {}
            for i, n in enumerate(('hudi_options', 'storage_options', 'options')):
                x = fld(bd, n)
                need(isinstance(x, M), '%s of the builder' % n)
                exp = list(given[i].items) if given[i] is not None else []
                got = [y for y in x.items]
                if n == 'hudi_options':
                    bp = [y for y in got if y[0] == C('hoodie.base.path')]
                    got = [y for y in got if y not in bp]
                    opts['base'] = bp
                if got != exp:
                    return '%s of the table are %s instead of %s' % (n, got, exp), bd
            if 'base_uri' in bd.names and fld(bd, 'base_uri') != U:
                return 'the table is opened at %s instead of %s' % (fld(bd, 'base_uri'), U), bd
            return None if is_ok(v) and fld(v.fs[0], 'inner') == T('opened') else ('Python gets %s' % v, v)
        c.outcomes('opening', 'build_hudi_table, options %s' % bin(mask), run, judge, least=2)

    # ---- file slices there and back
    conv = [f for f in w.fns.values() if 'hudi::internal::HudiFileSlice as core::convert::From<&' in f.path and f.path.endswith('::from')]
    rd, asyn = coref('FileGroupReader', 'read_file_slice')
    for part in (C(''), C('p=a'), C('a/b'), word('pw', S.ALNUM)):
        for nl in range(4):
            for meta in (False, True):
                g = Group('g1', part).add(t1, logs=nl)

                def mkslice():
                    sc = scene({rd.path: (asyn, True, T('result'))})
                    st, fs = slice_of(sc, g.base(0), list(g.logs(0)), part, St())
                    return sc, st, with_meta(sc, fs) if meta else fs

                def run():
                    sc, st, fs = mkslice()
                    need(len(conv) == 1, 'conversion of file slices')
                    out = []
                    for s, h in sc.run(conv[0], [fs], st):
                        bad = py_slice(s, h, fs)
                        if bad:
                            out.append((s, T('bad', C(bad))))
                            continue
                        out += sc.run(refs_in(w, 'HudiFileGroupReader')['read_file_slice'], [wrap_in(sc, 'HudiFileGroupReader'), h, PYT], s)
                    return sc.e, out

                def judge(s, v):
                    if isinstance(v, T) and v.op == 'bad':
                        return v.args[0].v, v
                    ev = [ev for ev in s.events() if ev[0] == 'core' and ev[1] == C(rd.path)]
                    if not ev:
                        return 'a file slice that Python has got from the core cannot be read: %s' % v, v
                    me, fs = ev[-1][2].items
                    if me != inner['reader']:
                        return 'the reader is %s' % me, v
                    bf = fld(fs, 'base_file')
                    if fld(bf, 'file_id') != g.fid or fld(bf, 'commit_timestamp') != t1 or fld(fs, 'partition_path') != part:
                        return 'the slice read is %s' % fs, fs
                    sc = Scene(w)
                    if sc.one('BaseFile::file_name', [bf])[1] != g.base(0):
                        return 'the base file read is %s' % bf, fs
                    ls = [sc.one('LogFile::file_name', [x])[1] for x in items(fld(fs, 'log_files'))]
                    if ls != list(g.logs(0)):
                        return 'the log files read are %s instead of %s' % (ls, list(g.logs(0))), fs
                    if failed(s):
                        return None if is_err(v) else ('the read gives a result although the core fails', v)
                    return None if v == ok(T('py', T('result'))) else ('Python gets %s' % v, v)
                c.outcomes('round-trip', '%d log files in %s%s' % (nl, part, ', with metadata' if meta else ''), run, judge, least=2)
            # paths
            for m in ('base_file_relative_path', 'log_files_relative_paths'):
                def run():
                    sc, st, fs = Scene(w), St(), None
                    st, fs = slice_of(sc, g.base(0), list(g.logs(0)), part, st)
                    out = []
                    for s, h in sc.run(conv[0], [fs], st):
                        out += sc.run(refs_in(w, 'HudiFileSlice')[m], [h], s)
                    return sc.e, out

                def judge(s, v):
                    need(is_ok(v), 'path %s' % v)
                    pre = (lambda x: x) if part == C('') else (lambda x: cat(part, '/', x))
                    if m.startswith('base'):
                        return None if v.fs[0] == pre(g.base(0)) else ('the path is %s' % v.fs[0], v)
                    got = items(v.fs[0])
                    return None if got == [pre(x) for x in g.logs(0)] else ('the paths are %s' % got, v)
                c.outcomes('round-trip', '%s, %d log files in %s' % (m, nl, part), run, judge)
    seen |= {('HudiFileGroupReader', 'read_file_slice'), ('HudiFileSlice', 'base_file_relative_path'), ('HudiFileSlice', 'log_files_relative_paths')}

    # ---- instants
    NAMES = {'Commit': 'commit', 'DeltaCommit': 'deltacommit', 'ReplaceCommit': 'replacecommit'}
    for a, an in NAMES.items():
        for stt in ('Completed', 'Inflight', 'Requested'):
            for m in ('timestamp', 'action', 'state', 'epoch_mills'):
                def run():
                    sc = Scene(w)
                    i = sc.instant(t1, a, stt)
                    return sc.e, sc.run(refs_in(w, 'HudiInstant')[m], [sc.struct('HudiInstant', {}, {'inner': i})])

                def judge(s, v):
                    i = Scene(w).instant(t1, a, stt)
                    exp = {'timestamp': t1, 'action': C(an), 'state': C('' if stt == 'Completed' else stt.lower()), 'epoch_mills': fld(i, 'epoch_millis')}[m]
                    return None if v == exp else ('%s of an instant is %s instead of %s' % (m, v, exp), v)
                c.outcomes('instant', '%s of %s %s' % (m, a, stt), run, judge)
    seen |= {('HudiInstant', m) for m in ('timestamp', 'action', 'state', 'epoch_mills')}

    # ---- what the wrappers put in for an argument that is left out
    pyi = ast.parse(open(os.path.join(facts.REPO, 'python/hudi/_internal.pyi')).read())
    stub = {}
    for k in pyi.body:
        if isinstance(k, ast.ClassDef):
            for m in k.body:
                if isinstance(m, ast.FunctionDef):
                    ps = [x.arg for x in m.args.args][1:]
                    stub[(k.name, m.name)] = [(p, d) for p, d in zip(ps[len(ps) - len(m.args.defaults):], m.args.defaults)]
    nd = 0
    for f in w.fns.values():
        if not (f.path.startswith('hudi::internal::') and '__pymethod_' in f.path and f.path.endswith('}')):
            continue
        cls, m = f.path.split('::')[2], f.path.split('__pymethod_')[1].split('::')[0][:-2]
        ty = ret(f)
        nd += 1

        def go(f=f, ty=ty):
            vals = [x[2] for b in f.body['b'] for x in b['s'] if x[0] == '=']
            s = repr(vals)
            if 'Option' in ty:
                if "'Some'" in s:
                    raise Bad('%s.%s: an argument left out is given as %s' % (cls, m, s[:200]), f.loc(f.line))
                return
            if ty == 'bool':
                sc = Scene(w)
                rs = [sc.e.deep(s_, v) for s_, v in sc.run(f, [UNIT])]
                want = FALSE
                if rs != [want]:
                    raise Bad('%s.%s: an argument left out is %s' % (cls, m, rs), f.loc(f.line))
                return
            raise Undecided('default of type %s' % ty)
        c.rule('default', f.path, go)
    c.floor('default', 10)

    # ---- methods without a description
    for cls in ('HudiTable', 'HudiTimeline', 'HudiFileGroupReader', 'HudiFileSlice', 'HudiInstant'):
        for m in refs_in(w, cls):
            if (cls, m) not in seen and '{' not in m:
                c.undec('delegation', '%s.%s' % (cls, m), 'no description of this method')

    # ---- the builder written in Python
    src = open(os.path.join(facts.REPO, 'python/hudi/table/builder.py')).read()

    def build(steps):
        p = pyai.Py(src, ('build_hudi_table', 'HudiTable'))
        cls = p.top.get('HudiTableBuilder')
        need(cls is not None, 'class HudiTableBuilder')
        other = p.apply(p.attr(cls, 'from_base_uri', cls), [pyai.Atom('other uri')], {}, cls)
        uri = pyai.Atom('uri')
        b = p.apply(p.attr(cls, 'from_base_uri', cls), [uri], {}, cls)
        exp = {'hudi': {}, 'storage': {}, '': {}}
        n = 0
        for kind, many_, key in steps:
            k = ['key-%s' % key, 'key-%s-2' % key]
            v = [pyai.Atom('v%d.%d' % (n, i)) for i in range(2)]
            n += 1
            name = 'with_%soption%s' % (kind + '_' if kind else '', 's' if many_ else '')
            if many_:
                d = dict(zip(k, v))
                r = p.apply(p.attr(b, name, cls), [d], {}, cls)
                exp[kind].update(d)
                if list(d.items()) != list(zip(k, v)):
                    return 'the options given are changed', p
            else:
                r = p.apply(p.attr(b, name, cls), [k[0], v[0]], {}, cls)
                exp[kind][k[0]] = v[0]
            if not isinstance(r, pyai.Obj):
                return '%s does not return the builder' % name, p
            b = r
        p.apply(p.attr(other, 'with_option', cls), ['strange', pyai.Atom('strange')], {}, cls)
        r = p.apply(p.attr(b, 'build', cls), [], {}, cls)
        if len(p.calls) != 1 or p.calls[0][0] != 'build_hudi_table' or p.calls[0][3] is not r:
            return 'build does not give what build_hudi_table gives', p
        _, a, kw, _ = p.calls[0]
        names = ['base_uri', 'hudi_options', 'storage_options', 'options']
        got = dict(zip(names, a))
        got.update(kw)
        want = {'base_uri': uri, 'hudi_options': exp['hudi'], 'storage_options': exp['storage'], 'options': exp['']}
        for x in names:
            y = got.get(x)
            if x != 'base_uri':
                y = y or {}
            if y != want[x]:
                return '%s is %s instead of %s' % (x, y, want[x]), p
        return None, p
    kinds = ('hudi', 'storage', '')
    seqs = [[]] + [[(k, m, 'a')] for k in kinds for m in (False, True)]
    seqs += [[(k, m, 'a'), (k2, m2, x)] for k in kinds for m in (False, True) for k2 in kinds for m2 in (False, True) for x in ('a', 'b')]
    for sq in seqs:
        def go():
            r, p = build(sq)
            if r:
                raise Bad('HudiTableBuilder: %s after %s' % (r, sq), 'python/hudi/table/builder.py')
        c.rule('builder', 'HudiTableBuilder %s' % sq, go)
    c.floor('builder', 70)
    c.floor('delegation', 40)
    c.floor('round-trip', 60)
