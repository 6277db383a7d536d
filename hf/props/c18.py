"""Abstract interpretation of the storage layer down to the object store operations: Storage::new and every method of Storage
that takes a relative path, for bases with and without trailing slash and several schemes, and relative paths of one to four
segments of unknown or special content (absolute-looking, dot segments, percent signs, spaces, other URLs). Every operation of
the object store reached has to address the base path followed by exactly the segments of the relative path, in order. Where
object store operations are invoked is looked up in the whole program: each such function has to be analysed here, and the one
access by absolute path has to be the global configuration file."""
import re

from .tables import *
from ..models_store import where
from .c16 import build, GOOD

BASES = {'file:///data/t': '/data/t', 'file:///data/t/': '/data/t', 'file:///t': '/t', 's3://bucket/a/b': '/a/b', 's3://bucket/a/': '/a', 's3a://bucket/x%20y/t': '/x y/t', 'abfs://c/t': '/t',
         'file:///data/a b/t': '/data/a b/t', '/data/t': '/data/t', '/data/t/': '/data/t', '/data/ü/t': '/data/ü/t', 's3://bucket': '', 's3://bucket/': '', 'file:///': ''}
FILES = ('get_file_metadata', 'get_parquet_file_metadata', 'get_parquet_file_schema', 'get_file_data', 'get_parquet_file_data', 'get_storage_reader')
LISTS = ('list_dirs', 'list_files')
IGN = ('', '.', '..')


def expected(base, rel):
    """The object store path of a relative path: base segments and its own segments in order (dot segments are not kept)."""
    at = S.split(rel, '/') if rel != C('') else []
    segs = [C(x) for x in base.split('/') if x] + [x for x in at if not (isinstance(x, C) and x.v in IGN)]
    p = C('')
    for x in segs:
        p = x if p == C('') else cat(p, '/', x)
    return p


def storage(w, base, store=None, faults=None):
    e = Engine(w)
    e.store = store or {}
    f = e.lookup('HudiConfigs::new')
    need(f is not None, 'HudiConfigs::new')
    (st, conf), = e.run(f, [omap({'hoodie.base.path': base})])
    rs = e.run(STG + 'new', [omap({}), e.deep(st, conf)], st)
    need(len(rs) >= 1, 'Storage::new')
    e.faults = faults
    return e, rs


def ops(s):
    return [ev for ev in s.events() if ev[0] == 'object_store']


def check(c):
    w = c.w
    P, Q, F = word('P', S.ALNUM), word('Q', S.ALNUM), word('F', UUID)
    analysed = set()

    def method(base, m, arg, store=None, batches=None):
        def run():
            e, rs = storage(w, base, store)
            if batches is not None:
                e.pq_batches = batches
            out = []
            for s, v in rs:
                if is_err(v):
                    out.append((s, v))
                    continue
                cell = e.alloc(s, v.fs[0])
                out += e.run(STG + m, [Ref(cell), arg], s)
            analysed.update(e.analysed)
            return e, out
        return run

    def judge(want, refused=False, answer=None):
        def j(s, v):
            os = ops(s)
            for ev in os:
                need(S.atoms(ev[2]) is not None, 'path %s' % ev[2])
                if ev[2] != want:
                    return '%s of %s instead of %s' % (ev[1], ev[2], want), v
            if is_err(v):
                return None if refused else ('fails: %s' % v.fs[0], v)
            if not os:
                return 'nothing is accessed', v
            return answer(v) if answer else None
        return j

    RELS = [C('f.parquet'), C('.hoodie/hoodie.properties'), cat('.hoodie/', ts('t'), '.commit'), F, cat(P, '/', F), cat(P, '/', Q, '/', F), cat('p=', P, '/q=', Q, '/', F, '.parquet'), cat('.', F, '_', ts('t'), '.log.1_', Q),
            C('/etc/passwd'), cat('/', P, '/', F), C('//x//y'), C('../../etc/passwd'), C('a/../../b'), C('./a/./b'), C('a b/c d'), C('p=x%2Fy/f'), C('100%/f'), C('ä/ö.parquet'), C('a?b#c/f'), C('file:///etc/passwd'),
            C('s3://other/x'), C('a\\b/f'), C('a;b&c=d/f'), C('p={x}/f'), cat(P, '/', '.', F), cat(P, '//', F), C('%2e%2e/%2e%2e/etc'), C('..%2f..%2fetc'), C('...'), C('a/..b/c'), C(' a / b'), C('a /b '), cat(' ', F), cat(P, ' /', F, ' '), C('p= x /f'), C('A/a/F.PARQUET'), C('a+b/c+d'), C('a%20b/c'), C('a%2Bb/+')]
    for base, bp in BASES.items():
        for m in FILES:
            # all relative paths at one base, the others with a representative set
            for rel in (RELS if base in ('file:///data/t', '/data/t/', 's3://bucket/a/b', 's3://bucket') else RELS[:8]):
                # a path that denotes the base itself is no file
                c.outcomes('file-path', '%s(%s) below %s' % (m, rel, base), method(C(base), m, rel), judge(expected(bp, rel)))
        for m in LISTS:
            for rel in [None, C('')] + (RELS if base in ('file:///data/t', 's3://bucket/a/b', '/data/t/', 's3://bucket/') else RELS[:8]):
                arg = NONE if rel is None else some(rel)
                want = expected(bp, rel if rel is not None else C(''))
                store = {want: ([C('d1'), cat('d', P)], [C('f1'), cat('f', Q)])}
                names = [C('d1'), cat('d', P)] if m == 'list_dirs' else [C('f1'), cat('f', Q)]

                def answer(v):
                    got = items(unwrap(v))
                    need(got is not None, 'answer %s' % v)
                    got = [fld(x, 'name') if isinstance(x, Adt) else x for x in got]
                    return None if got == names else ('lists %s instead of %s' % (got, names), v)
                c.outcomes('list-path', '%s(%s) below %s' % (m, arg if rel is not None else 'None', base), method(C(base), m, arg, store), judge(want, answer=answer))
    # what the methods answer is the content of the file addressed
    path = C('/data/t/p/f')
    row = lambda i, j: T('pqrow', want, C(i), C(j))
    want = C('data/t/p/f')
    SCHEMA = T('pqschema', want)

    def content(v):
        return None if unwrap(v) == T('content', want) else ('the data is %s' % unwrap(v), v)

    def parquet(rows):
        def j(v):
            b = unwrap(v)
            need(b.op == 'batch', 'answer %s' % v)
            if b.args[0] != SCHEMA:
                return 'schema %s' % b.args[0], v
            return None if list(b.args[1].items) == rows else ('the rows are %s' % b.args[1], v)
        return j

    def meta(v):
        m = unwrap(v)
        got = (fld(m, 'name'), fld(m, 'size'), fld(m, 'num_records'))
        return None if got == (C('f'), T('size', T('objpath', want)), T('num_rows', want)) else ('the metadata is %s' % (got,), v)
    for base in ('file:///data/t', 'file:///data/t/'):
        c.outcomes('file-answer', 'get_file_data: %s' % base, method(C(base), 'get_file_data', C('p/f')), judge(want, answer=content))
        c.outcomes('file-answer', 'get_file_metadata: %s' % base, method(C(base), 'get_file_metadata', C('p/f')), judge(want, answer=meta))
        c.outcomes('file-answer', 'get_parquet_file_schema: %s' % base, method(C(base), 'get_parquet_file_schema', C('p/f')), judge(want, answer=lambda v: None))
        for n in range(4):
            for m in range(3):
                batches = [ok(T('batch', SCHEMA, L([row(i, j) for j in range(m)]))) for i in range(n)]
                c.outcomes('file-answer', 'get_parquet_file_data of %d batches of %d rows: %s' % (n, m, base), method(C(base), 'get_parquet_file_data', C('p/f'), batches=batches),
                           judge(want, answer=parquet([row(i, j) for i in range(n) for j in range(m)])))
    # a base of unknown segments
    for m in FILES + LISTS:
        for rel in RELS[:9]:
            base = cat('file:///', P, '/', Q)
            want = cat(P, '/', Q, '/', expected('', rel))
            c.outcomes('file-path', '%s(%s) below an unknown base' % (m, rel), method(base, m, some(rel) if m in LISTS else rel), judge(want))
    # URIs that cannot be a base are refused
    for base in ('mailto:x', 'data:text/plain,x', 'relative/path', '', 'file'):
        def run():
            e, rs = storage(w, C(base))
            return e, rs
        c.outcomes('base', repr(base), lambda: method(C(base), 'get_file_data', C('f'))(), lambda s, v: None if is_err(v) and not ops(s) else ('the base %r is accepted' % base, v))

    # ---- who else operates on an object store
    def sites():
        out = []
        for f in w.fns.values():
            if '::tests::' in f.path or '::test::' in f.path:
                continue
            for b, t, k, cl in w.calls(f):
                if k is None:
                    continue
                n = k.get('r') or k['f']
                if re.search(r'object_store::ObjectStore(?!\w)', n) or 'ParquetObjectReader' in n:
                    out.append((f, n, t))
        return out
    found = sites()
    c.rule('object-store-callers', 'sites', lambda: need(len(found) >= 8, 'only %d operations on an object store found' % len(found)))
    for f, n, t in found:
        def one():
            key = f.id
            if key in analysed or 'Debug' in f.path or 'Display' in f.path or n.endswith(('::fmt', '::clone')):
                return 'analysed'
            if 'get_file_data_from_absolute_path' in f.path:
                return 'by absolute path: see absolute-path'
            c.unreached('%s calls %s outside the storage methods that join paths to the base' % (f.path, n), f.loc(t[5] if len(t) > 5 else None))
        c.rule('object-store-callers', '%s: %s' % (f.path, n[-50:]), one)

    # ---- the access by absolute path
    def callers(name):
        out = []
        for f in w.fns.values():
            if '::tests::' in f.path or '::test::' in f.path:
                continue
            for b, t, k, cl in w.calls(f):
                if k is not None and name in (k.get('r') or k['f']):
                    out.append(f)
        return out
    for key, env, want in (('no environment', {}, cat('/etc/hudi/conf', '/hudi-defaults.conf')), ('HUDI_CONF_DIR set', {'HUDI_CONF_DIR': C('/x/y')}, C('/x/y/hudi-defaults.conf'))):
        def run():
            sc, rs = build(w, GOOD, env=env)
            analysed.update(sc.e.analysed)
            return sc.e, rs

        def j(s, v):
            for ev in s.events():
                if ev[0] == 'storage' and ev[1] == 'absolute' and ev[2][0] != want:
                    return 'the file %s is opened' % ev[2][0], v
            return None
        c.outcomes('absolute-path', key, run, j)
    for f in callers('get_file_data_from_absolute_path'):
        c.rule('absolute-path-callers', f.path, lambda: 'part of building a table' if f.id in analysed else c.unreached('%s opens a file by absolute path' % f.path, f.loc(None)))
    # ---- a reader of a file hands on what is asked of it
    for m, tr in (('read', 'Read'), ('seek', 'Seek')):
        want_ = (T('inner'), T('argument'))

        def run():
            sc = Scene(w)
            st = St()
            cell = sc.e.alloc(st, sc.struct('StorageReader', {}, {'reader': want_[0]}))
            arg = Ref(sc.e.alloc(st, want_[1])) if m == 'read' else want_[1]
            return sc.e, sc.run(c.method('StorageReader', m, tr), [Ref(cell), arg], st)

        def j(s, v):
            calls = [ev for ev in s.events() if ev[0] == 'call' and ev[1].endswith('%s::%s' % (tr, m))]
            a = tuple(x.args[0] if m == 'read' and isinstance(x, T) and x.op == 'slice' and x.args[1] == C(0) else x for x in calls[0][2]) if calls else ()
            if len(calls) != 1 or a != want_:
                return '%s is not handed on: %s' % (m, [(x[1], x[2]) for x in calls]), v
            r = calls[0][3]
            inner = v.fs[0] if is_ok(v) or is_err(v) else v
            return None if r in (v, inner) or isinstance(inner, T) and r in inner.args or isinstance(inner, T) and inner.args and isinstance(inner.args[0], T) and r in inner.args[0].args else ('%s answers %s' % (m, v), v)
        c.outcomes('reader', m, run, j, allow=('Read::read', 'Seek::seek'))
    c.floor('file-path', 900)
    c.floor('list-path', 200)
    c.floor('file-answer', 25)
    c.floor('absolute-path', 2)
    c.floor('object-store-callers', 9)
    c.also('c20', 'slice-path')
