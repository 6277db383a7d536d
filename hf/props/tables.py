"""Abstract tables: commits, file groups, base and log files whose times are words of unknown value, and what a query on
them has to return. A query is followed by the engine from its public entry point; for every path it ends on, and every
order of the times that path leaves open, the answer is compared with what the table contains."""
import itertools

from ..models import JV

from .common import *

U8 = T('Utf8')
META_COLS = ['_hoodie_commit_time', '_hoodie_commit_seqno', '_hoodie_record_key', '_hoodie_partition_path', '_hoodie_file_name']
FLAT = {}
SUFFIX = {'Commit': '.commit', 'DeltaCommit': '.deltacommit', 'ReplaceCommit': '.replacecommit'}


def token(n):
    return word('k%s' % n, UUID)


def base_name(fid, t, n='0', ext='.parquet'):
    return cat(fid, '_', token(n), '_', t, ext)


def log_name(fid, t, ver=1, n='0'):
    return cat('.', fid, '_', t, '.log.%s_' % ver, token('l' + n))


def path(part, name):
    return name if part == C('') else cat(part, '/', name)


def completions(s, pairs):
    """Every total answer to the comparisons which the state leaves open."""
    todo = [s]
    for a, b in pairs:
        nxt = []
        for x in todo:
            m = x.facts.get_cmp(a, b)
            if m in (LT, EQ, GT):
                nxt.append(x)
                continue
            for bit in (LT, EQ, GT):
                if m & bit:
                    y = x.fork()
                    if y.facts.set_cmp(a, b, bit):
                        nxt.append(y)
        todo = nxt
    return todo


def leq(s, a, b):
    return bool(s.facts.get_cmp(a, b) & (LT | EQ)) and not s.facts.get_cmp(a, b) & GT


def lt(s, a, b):
    return s.facts.get_cmp(a, b) == LT


def describe(s, times):
    """The order of some times in a state, for reports."""
    out = []
    for a, b in itertools.combinations(times, 2):
        m = s.facts.get_cmp(a, b)
        if m in (LT, EQ, GT):
            out.append('%s %s %s' % (a, {LT: '<', EQ: '=', GT: '>'}[m], b))
    return ', '.join(out)


class Group:
    """A file group: versions = {base commit time: (base file name, [log file names])}."""

    def __init__(self, name, part=C(''), versions=None):
        self.fid = word(name, UUID) if isinstance(name, str) else name
        self.part = C(part) if isinstance(part, str) else part
        self.versions = versions or []
        self.name = str(name)

    def add(self, t, logs=0, n=None, ext='.parquet'):
        n = n or '%s%d' % (self.name, len(self.versions))
        self.versions.append((t, base_name(self.fid, t, n, ext), [log_name(self.fid, t, i + 1, '%s%d' % (n, i)) for i in range(logs)]))
        return self

    def base(self, i):
        return self.versions[i][1]

    def logs(self, i):
        return self.versions[i][2]


def num(v):
    return Adt(JV, 2, 'Number', (v,), ('0',))


def jbool(v):
    return Adt(JV, 1, 'Bool', (v,), ('0',))


class Tab:
    """groups: [Group]; commits: [(time, action, [(group, version index)], [replaced groups])]."""

    def __init__(self, w, groups, commits, conf=None, sch=None, parts=None, rows=None, logs=None, listed=True, extra_files=None, extra_dirs=None, distinct=(), after=None, file_schema=None, **kw):
        self.w, self.groups, self.commits = w, groups, commits
        self.distinct, self.after = distinct, after
        fields = None
        self.sch = sch or schema(*[(n, U8) for n in META_COLS + ['ts', 'v']])
        cf = dict(FLAT)
        cf.update(conf or {})
        cf = {k: v for k, v in cf.items() if v is not None}
        self.parts = parts
        files, dirs = {C(''): []}, {C(''): ['.hoodie']}
        for g in groups:
            d = files.setdefault(g.part, [])
            for t, b, ls in g.versions:
                d.append(b)
                d.extend(ls)
            if g.part != C(''):
                self.add_dir(dirs, g.part)
        for d, fs in (extra_files or {}).items():
            files.setdefault(C(d) if isinstance(d, str) else d, []).extend(fs)
        for d in (extra_dirs or ()):
            self.add_dir(dirs, C(d) if isinstance(d, str) else d)
        self.files, self.dirs = files, dirs
        self.rows, self.logs = rows or {}, logs or {}
        data = {}
        for i, (t, act, writes, repl) in enumerate(commits):
            data[cat('.hoodie/', t, SUFFIX[act])] = T('json', jval(self.meta(i)))
        self.sc = Scene(w, files=files, dirs=dirs, data=data, conf=cf, schema=file_schema or self.sch, parquet={k: batch(self.sch, v) for k, v in self.rows.items()},
                        logs=self.logs, **kw)
        self.e = self.sc.e

    def add_dir(self, dirs, part):
        ps = [p for p in S.split(part, '/')] if hasattr(S, 'split') else None
        cur = C('')
        comps = split_path(part)
        for i, comp in enumerate(comps):
            kids = dirs.setdefault(cur, [])
            if comp not in kids:
                kids.append(comp)
            cur = comp if cur == C('') else cat(cur, '/', comp)
        dirs.setdefault(cur, [])

    def meta(self, i):
        t, act, writes, repl = self.commits[i]
        ws, rp = {}, {}
        for g, vi, *only in writes:
            t0, b, ls = g.versions[vi]
            ls = [ls[k] for k in only[0]] if only else ls
            if act == 'DeltaCommit' and ls:
                st = {'fileId': g.fid, 'baseFile': b, 'path': path(g.part, ls[-1]), 'logFiles': list(ls)}
            else:
                st = {'fileId': g.fid, 'path': path(g.part, b)}
            # the rest of what writers record, with any value
            n = '%s%d' % (g.name, vi)
            for k in ('numWrites', 'numDeletes', 'numUpdateWrites', 'numInserts', 'totalWriteBytes', 'totalWriteErrors', 'totalLogRecords', 'totalLogBlocks',
                      'totalCorruptLogBlock', 'totalRollbackBlocks', 'fileSizeInBytes'):
                st[k] = num(T('sym', '%s of %s' % (k, n)))
            st.update(cdcStats=None, tempPath=None, minEventTime=None, maxEventTime=None, partitionPath=g.part, prevCommit=T('sym', 'prevCommit of ' + n))
            ws.setdefault(g.part, []).append(st)
        for g in repl:
            rp.setdefault(g.part, []).append(g.fid)
        if not ws:
            ws = {C(''): []} if False else {}
        d = {'partitionToWriteStats': ws, 'compacted': jbool(T('sym', 'compacted %d' % i)), 'operationType': T('sym', 'operationType %d' % i),
             'extraMetadata': {'schema': T('sym', 'schema %d' % i)}}
        if act == 'ReplaceCommit':
            d['partitionToReplaceFileIds'] = rp
        return d

    def start(self, *order):
        """(state, Table) with the commits in ascending order of time."""
        st = St()
        tl = [c[0] for c in self.commits]
        for a, b in zip(tl, tl[1:]):
            st = self.sc.order(st, a, '<', b)
        if order:
            st = self.sc.order(st, *order)
        need(st is not None, 'order')
        for g, h in itertools.combinations(self.groups, 2):
            if g.fid != h.fid:
                st.facts.set_cmp(g.fid, h.fid, LT | GT)
            if g.part != h.part and not (isinstance(g.part, C) and isinstance(h.part, C)):
                st.facts.set_cmp(g.part, h.part, LT | GT)
        for ws in self.distinct:
            for a, b in itertools.combinations(ws, 2):
                st.facts.set_cmp(a, b, LT | GT)
        for t in self.times() if self.after is not None else ():
            need(st.facts.set_cmp(self.after, t, LT), 'order of the epoch')
        st, tab = self.sc.table([self.sc.instant(t, a) for t, a, _, _ in self.commits], st)
        return st, tab

    def call(self, fn, args, *order, start=None):
        st, tab = start or self.start(*order)
        return self.sc.run('table::Table::' + fn, [tab] + list(args), st)

    # ---- what the table contains ------------------------------------------------------------------
    def times(self):
        out = []
        for g in self.groups:
            out += [v[0] for v in g.versions]
        out += [c[0] for c in self.commits]
        return [t for i, t in enumerate(out) if t not in out[:i]]

    def replaced(self, s, T0):
        out = []
        for t, act, _, repl in self.commits:
            if act == 'ReplaceCommit' and leq(s, t, T0):
                out += repl
        return out

    def slices_as_of(self, s, T0, keep=lambda g: True):
        """[(group, version index)] in a state where the order of all times is known."""
        gone = self.replaced(s, T0)
        out = []
        for g in self.groups:
            if g in gone or not keep(g):
                continue
            best = None
            for i, (t, b, ls) in enumerate(g.versions):
                if leq(s, t, T0) and (best is None or lt(s, g.versions[best][0], t)):
                    best = i
            if best is not None:
                out.append((g, best))
        return out


def split_path(p):
    """The components of a partition path whose separators are literal."""
    out, cur = [], []
    for a in S.atoms(p):
        if isinstance(a, C):
            bits = a.v.split('/')
            for i, b in enumerate(bits):
                if i:
                    out.append(mk(cur))
                    cur = []
                if b:
                    cur.append(C(b))
        else:
            cur.append(a)
    out.append(mk(cur))
    return out


def slice_id(x):
    """(file id, base commit time, partition, base file name parts, sorted log names)."""
    need(isinstance(x, Adt), 'not a file slice: %s' % x)
    b = fld(x, 'base_file')
    logs = items(fld(x, 'log_files'))
    need(logs is not None and isinstance(b, Adt), 'file slice')
    return (fld(b, 'file_id'), fld(b, 'commit_timestamp'), fld(x, 'partition_path'), fld(b, 'write_token'), fld(b, 'extension'),
            tuple(sorted(str(tuple(fld(l, n) for n in ('file_id', 'base_commit_timestamp', 'extension', 'version', 'write_token'))) for l in logs)))


def base_fname(b):
    x = [fld(b, n) for n in ('file_id', 'write_token', 'commit_timestamp', 'extension')]
    need(all(y is not None for y in x), 'base file %s' % b)
    return cat(x[0], '_', x[1], '_', x[2], '.', x[3])


def log_fname(l):
    x = [fld(l, n) for n in ('file_id', 'base_commit_timestamp', 'extension', 'version', 'write_token')]
    need(all(y is not None for y in x), 'log file %s' % l)
    return cat('.', x[0], '_', x[1], '.', x[2], '.', x[3], '_', x[4])


def want_id(g, i):
    t, b, ls = g.versions[i]
    at = S.atoms(b)
    return g.fid, t, g.part


def short(sid):
    return '%s@%s in %r' % (sid[0], sid[1], sid[2].v if isinstance(sid[2], C) else sid[2])


def judge_slices(tab, expected, order_pairs, listed=None, once=True):
    """expected(state) -> [(group, version index)]. The answer has to be exactly those slices, in any order."""
    def j(s, v):
        if is_err(v):
            return 'the query fails: %s' % (v.fs[0],), v
        got = unwrap(v)
        xs = listed(got) if listed else items(got)
        need(xs is not None, 'not a list of file slices: %s' % got)
        ids = [slice_id(x) for x in xs]
        for c in completions(s, order_pairs):
            want = expected(c)
            for g, i in want:
                n = sum(1 for x in ids if x[:3] == want_id(g, i))
                if n == 0:
                    return 'file slice %s@%s in %r is missing where %s' % (g.fid, g.versions[i][0], g.part, describe(c, tab.times() + [p for q in order_pairs for p in q][:2])), v
                if n > 1:
                    return 'file slice %s@%s is returned %d times' % (g.fid, g.versions[i][0], n), v
            for x in ids:
                if not any(x[:3] == want_id(g, i) for g, i in want):
                    return 'file slice %s does not belong to the answer where %s' % (short(x), describe(c, [q for p in order_pairs for q in p])), v
            for g, i in want:
                x = [y for y in ids if y[:3] == want_id(g, i)][0]
                b = [y for y in xs if slice_id(y)[:3] == want_id(g, i)][0]
                if base_fname(fld(b, 'base_file')) != g.versions[i][1]:
                    return 'file slice %s has base file %s instead of %s' % (short(x), base_fname(fld(b, 'base_file')), g.versions[i][1]), v
                nl = [log_fname(l) for l in items(fld(b, 'log_files'))]
                if len(nl) != len(g.versions[i][2]) or any(l not in nl for l in g.versions[i][2]):
                    return 'file slice %s has the log files %s, %s belong to it' % (short(x), ', '.join(map(str, nl)) or 'none', ', '.join(map(str, g.versions[i][2])) or 'none'), v
        return None
    return j


def rows_of(v):
    """The rows of a batch as tuples of cells, or None."""
    if isinstance(v, T) and v.op == 'batch':
        return [tuple(r.items) for r in v.args[1].items]
    return None


def pairs(xs):
    return list(itertools.combinations(xs, 2))


def between(tab, s, S0, E0):
    """The file slices of an incremental read of (S0, E0] in a state where the order of all times is known."""
    gone, best = [], {}
    for t, act, writes, repl in tab.commits:
        if not (S0 is None or lt(s, S0, t)) or not leq(s, t, E0):
            continue
        if act == 'ReplaceCommit':
            gone += repl
        for g, vi, *_ in writes:
            best.setdefault(id(g), (g, []))[1].append(vi)
    out = []
    for g, vis in best.values():
        if g in gone:
            continue
        vis = [v for v in vis if leq(s, g.versions[v][0], E0)]
        if vis:
            m = vis[0]
            for v in vis[1:]:
                if lt(s, g.versions[m][0], g.versions[v][0]):
                    m = v
            out.append((g, m))
    return out


def row(n, t, key=None, prec=None, seq=None):
    """A record: number n, written at t."""
    return [t, seq or word('s%s' % n, S.ALNUM), key or word('K%s' % n, S.ALNUM), C(''), C('file'), prec or word('p%s' % n, S.ALNUM), C('row %s' % n)]


def row_names(v):
    """The names (last cells) of all rows of a list of batches."""
    out = []
    for b in items(unwrap(v)) or ():
        rs = rows_of(b)
        need(rs is not None, 'rows of %s' % b)
        out += [r[-1] for r in rs]
    return out


def judge_rows(expected, order_pairs):
    """expected(state) -> names of the rows."""
    def j(s, v):
        if is_err(v):
            return 'the read fails: %s' % (v.fs[0],), v
        need(items(unwrap(v)) is not None, 'not a list of batches: %s' % v)
        got = sorted(str(x.v) if isinstance(x, C) else str(x) for x in row_names(v))
        for x in completions(s, order_pairs):
            want = sorted(expected(x))
            if got != want:
                return 'rows %s instead of %s where %s' % (got, want, describe(x, list(dict.fromkeys(q for p in order_pairs for q in p)))), v
        return None
    return j


FULL = schema(*[(n, U8) for n in META_COLS + ['ts', 'v']])


def rows_tab(w, groups, commits, conf=None, sch=None, **kw):
    """A table whose base files hold one row each, written at the time of the file, plus the log blocks given:
    group.blocks = {version index: [[(time, name)...] per log file]}."""
    rows, logs, n = {}, {}, 0
    sch = sch or FULL
    for g in groups:
        for i, (t, b, ls) in enumerate(g.versions):
            extra = getattr(g, 'carried', {}).get(i, [])
            rows[path(g.part, b)] = [row('%s%d' % (g.name, i), t)] + [row('%s%d.%s' % (g.name, i, x), x) for x in extra]
            for li, l in enumerate(ls):
                chunks = []
                for bt, nm in getattr(g, 'blocks', {}).get(i, {}).get(li, []):
                    chunks += log_block(bt, [batch(sch, [row(nm, bt)])])
                logs[path(g.part, l)] = chunks
    cf = {'hoodie.table.record.merge.strategy': 'append_only'}
    cf.update(conf or {})
    return Tab(w, groups, commits, conf=cf, sch=sch, rows=rows, logs=logs, **kw)
