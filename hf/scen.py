"""Scenarios: entry points of the library run by the value-flow engine on abstract tables.

The storage is a stand-in described by the scenario (which files a directory lists, what a file holds); everything above
it is the code of the workspace. Times are words of digits, ordered by the abstract state; parsing one gives
time(word, timezone).
"""
from .val import *
from .ai import Engine, St, Undecided, LT, EQ, GT, ANY, flip
from . import strs as S
from .models import jval
from .models_arrow import schema, batch, be, raw
from .strs import word, mk, DIGITS, ALNUM, UUID

CORE = 'hudi_core::'
STG = CORE + 'storage::Storage::'
PD = CORE + 'timeline::instant::Instant::parse_datetime'


def ts(name, n=17):
    """A timestamp of unknown value."""
    return word(name, DIGITS, n)


def time(t, tz):
    return T('time', t, tz)


def cat(*ps):
    return mk([x for p in ps for x in S.atoms(C(p) if isinstance(p, str) else p)])


def omap(d, kind='map'):
    return M([(C(k) if isinstance(k, str) else k, C(v) if isinstance(v, str) else v) for k, v in d.items()], kind)


def vec(*xs):
    return L(xs)


def is_time(t):
    """Whether a text is a timestamp: True, False or None."""
    if S.atoms(t) is None:
        return None
    n, d = S.length(t), S.all_in(t, DIGITS)
    if d is False or (n is not None and n not in (14, 17)):
        return False
    return True if d and n else None


def cut_parse_datetime(en, st, a, c):
    t = T('time', en.deep(st, a[0]), en.deep(st, a[1]))
    if is_time(t.args[0]) is False:
        return [(st, err(T('badtime', *t.args)))]
    return [(st, ok(t))]


def cut_parse_datetime_err(en, st, a, c):
    t = T('time', en.deep(st, a[0]), en.deep(st, a[1]))
    if is_time(t.args[0]) is False:
        return [(st, err(T('badtime', *t.args)))]
    out = []
    for s, i in en.split_var(st, T('parsed', *t.args), [0, 1], 2):
        out.append((s, ok(t) if i == 0 else err(T('badtime', *t.args))))
    return out


class Scene:
    """files: {relative dir: [file names]}, dirs: {relative dir: [names]}, data: {relative path: value}.
    fail: storage calls may also fail (both outcomes are followed)."""

    def __init__(self, world, files=None, dirs=None, data=None, conf=None, cuts=None, fail=False, badtime=False, schema=None, parquet=None, logs=None, **kw):
        self.w = world
        self.files, self.dirs, self.data = files or {}, dirs or {}, data or {}
        self.fail = fail
        self.parquet, self.logs = parquet or {}, logs or {}
        self.schema = schema
        self.calls = []
        self.lenient = kw.pop('lenient', False)
        cs = {PD: cut_parse_datetime_err if badtime else cut_parse_datetime}
        for m in ('list_files', 'list_dirs', 'get_file_data', 'get_file_data_from_absolute_path', 'get_parquet_file_data',
                  'get_parquet_file_metadata', 'get_parquet_file_schema', 'get_file_metadata', 'get_storage_reader'):
            cs[STG + m] = self.mkcut(m)
        cs[STG + 'new'] = self.cut_new
        cs.update(cuts or {})
        self.e = Engine(world, cuts=cs, **kw)
        self.conf = self.configs(conf or {})
        self.storage = T('storage', 'table')

    # ---- stand-ins ----------------------------------------------------------------------------
    def cut_new(self, en, st, a, c):
        st.event('storage', 'new', tuple(en.deep(st, x) for x in a))
        return [(st, ok(T('storage', 'new', *[en.deep(st, x) for x in a])))]

    def mkcut(self, m):
        def f(en, st, a, c):
            args = tuple(en.deep(st, x) for x in a[1:])
            st.event('storage', m, args, c.line if c else None)
            out = []
            if self.fail:
                for s, i in en.split_var(st, T('io', m, *args), [0, 1], 2):
                    if i == 1:
                        out.append((s, T('ready', err(T('ioerr', m, *args)))))
                    else:
                        out += self.answer(en, s, m, args)
                return out
            return self.answer(en, st, m, args)
        return f

    def answer(self, en, st, m, args):
        if m in ('list_files', 'list_dirs'):
            d = args[0]
            d = (d.fs[0] if d.fs else C('')) if isinstance(d, Adt) else d
            tab = self.files if m == 'list_files' else self.dirs
            r = tab(d) if callable(tab) else self.find(tab, d)
            if r is None:
                if not self.lenient and not (tab is self.dirs and tab):
                    return [(st, T('ready', err(T('notfound', m, d))))]
                r = []
            if m == 'list_files':
                r = [self.file_meta(en, C(x) if isinstance(x, str) else x, of=(C(x) if isinstance(x, str) else x) if d == C('') else cat(d, '/', x)) for x in r]
            else:
                r = [C(x) if isinstance(x, str) else x for x in r]
            return [(st, T('ready', ok(L(r))))]
        if m in ('get_file_data', 'get_file_data_from_absolute_path'):
            r = self.data(args[0]) if callable(self.data) else self.find(self.data, args[0])
            if r is None:
                r = T('bytes', args[0])
            return [(st, T('ready', ok(r)))]
        if m == 'get_file_metadata':
            n = args[0]
            return [(st, T('ready', ok(self.file_meta(en, T('basename', n), True, of=n))))]
        if m == 'get_parquet_file_data':
            r = self.parquet(args[0]) if callable(self.parquet) else self.find(self.parquet, args[0])
            if r is not None:
                return [(st, T('ready', ok(r)))]
            if self.parquet:
                return [(st, T('ready', err(T('notfound', m, args[0]))))]
        if m == 'get_storage_reader':
            r = self.logs(args[0]) if callable(self.logs) else self.find(self.logs, args[0])
            if r is not None:
                return [(st, T('ready', ok(Obj(en.alloc(st, L(r))))))]
            if self.logs:
                return [(st, T('ready', err(T('notfound', m, args[0]))))]
        if m == 'get_parquet_file_schema' and self.schema is not None:
            r = self.schema(args[0]) if callable(self.schema) else self.schema
            return [(st, T('ready', ok(r) if r is not None else err(T('notfound', m, args[0]))))]
        return [(st, T('ready', ok(T(m, *args))))]

    def find(self, tab, k):
        for x, v in tab.items():
            if (C(x) if isinstance(x, str) else x) == k:
                return v
        return None

    def file_meta(self, en, name, full=False, of=None):
        a = self.w.adt('FileMetadata')
        of = name if of is None else of
        if a is None:
            raise Undecided('no FileMetadata')
        vals = {'name': name, 'size': T('size', of), 'byte_size': T('byte_size', of) if full else C(0),
                'num_records': T('num_records', of) if full else C(0), 'fully_populated': C(full)}
        ns = [f['n'] for f in a['v'][0]['f']]
        return Adt(a['d'], 0, a['v'][0]['n'], [vals.get(n, T('meta', n)) for n in ns], ns)

    # ---- construction -------------------------------------------------------------------------
    def struct(self, name, by_type, by_name=None):
        """A struct of the workspace whose fields are found by (part of) their type or by name."""
        a = self.w.adt(name)
        if a is None or not a['local'] or a['kind'] != 'struct':
            raise Undecided('no struct ' + name)
        fs, ns = [], []
        for f in a['v'][0]['f']:
            t = a['types'][f['t']]['s'] if isinstance(f['t'], int) else f['t']
            if by_name and f['n'] in by_name:
                v = by_name[f['n']]
            else:
                c = [v for k, v in by_type.items() if k in t]
                v = c[0] if len(c) == 1 else self.fresh_field(t)
                if v is None:
                    raise Undecided('field %s of %s' % (f['n'], name))
            fs.append(v)
            ns.append(f['n'])
        return Adt(a['d'], 0, a['v'][0]['n'], fs, ns)

    def fresh_field(self, t):
        """What a constructor would put into a field the scenario does not know: caches and counters start empty."""
        import re
        while True:
            m = re.match(r'(?:[\w:]*::)?(Arc|Box|Rc)<(.*)>$', t)
            if not m:
                break
            t = m.group(2)
        h = re.match(r'(?:[\w:]*::)?(\w+)', t)
        h = h.group(1) if h else ''
        if h == 'Option':
            return NONE
        if h in ('Vec', 'VecDeque'):
            return L(())
        if h in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            return M((), h)
        if h == 'String':
            return C('')
        if t == 'bool':
            return FALSE
        if re.fullmatch(r'[iu](8|16|32|64|size)', t):
            return C(0)
        if h == 'DashMap':
            return self.cell(M((), h))
        if h in ('Mutex', 'RwLock', 'RefCell', 'Cell'):
            m = re.match(r'[\w:]+<(?:std::sync::)?(.*)>$', t)
            v = self.fresh_field(m.group(1)) if m else None
            return self.cell(v) if v is not None else None
        if h in ('OnceLock', 'OnceCell'):
            return self.cell(NONE)
        return None

    def cell(self, v):
        k = ('h', self.e.fresh())
        St.PRE[k] = v
        return Obj(k)

    def one(self, path, args, st=None):
        """The result of a constructor that has only one."""
        r = self.e.run(path, args, st)
        if len(r) != 1:
            raise Undecided('%s has %d outcomes' % (path, len(r)))
        return r[0]

    def configs(self, d):
        f = self.e.lookup('HudiConfigs::new')
        if f is None:
            raise Undecided('no HudiConfigs::new')
        s, v = self.one(f, [omap(d)])
        return self.e.deep(s, v)

    def instant(self, t, action='Commit', state='Completed', tz='utc'):
        a = self.w.adt('timeline::instant::Action')
        b = self.w.adt('timeline::instant::State')
        ai = [i for i, v in enumerate(a['v']) if v['n'] == action]
        bi = [i for i, v in enumerate(b['v']) if v['n'] == state]
        if not ai or not bi:
            raise Undecided('no action or state')
        return self.struct('timeline::instant::Instant', {'Action': Adt(a['d'], ai[0], action, ()), 'State': Adt(b['d'], bi[0], state, ()),
                                                          'String': t, 'i64': T('time', t, C(tz))})

    def timeline(self, instants, conf=None):
        return self.struct('timeline::Timeline', {'HudiConfigs': conf or self.conf, 'storage::Storage': self.storage, 'Vec<': L(instants)})

    def fsview(self, st, conf=None):
        s, v = self.one('FileSystemView::new', [conf or self.conf, omap({})], st)
        if not is_ok(v):
            raise Undecided('FileSystemView::new')
        return s, v.fs[0]

    def table(self, instants, st=None, conf=None):
        st = st or St()
        st, fv = self.fsview(st, conf)
        return st, self.struct('table::Table', {'HudiConfigs': conf or self.conf, 'HashMap<': omap({}), 'timeline::Timeline': self.timeline(instants, conf),
                                                'FileSystemView': fv})

    def run(self, path, args, st=None):
        return self.e.run(path, args, st)

    def order(self, st, *chain, tz='utc'):
        """Assumes an ordering of times: order(st, a, '<', b, '<=', c, ...), of the words and of the parsed times alike."""
        m = {'<': LT, '=': EQ, '<=': LT | EQ, '>': GT, '>=': GT | EQ}
        for i in range(0, len(chain) - 2, 2):
            a, o, b = chain[i:i + 3]
            if not st.facts.set_cmp(a, b, m[o]):
                return None
        return st


def storage_calls(st, m=None):
    return [e for e in st.events() if e[0] == 'storage' and (m is None or e[1] == m)]


# ---- log files ------------------------------------------------------------------------------------
KEYS = {'InstantTime': 0, 'TargetInstantTime': 1, 'Schema': 2, 'CommandBlockType': 3, 'CompactedBlockTimes': 4,
        'RecordPositions': 5, 'BlockIdentifier': 6}
TYPES = {'Command': 0, 'Delete': 1, 'Corrupted': 2, 'AvroData': 3, 'HfileData': 4, 'ParquetData': 5, 'CdcData': 6}
MAGIC = L([C(x) for x in b'#HUDI#'])


def textlen(v):
    n = S.length(v) if S.atoms(v) is not None else None
    return C(n) if n is not None else T('textlen', v)


def header(d):
    """d: {key name or code: text}"""
    out = [be(4, len(d))]
    for k, v in d.items():
        v = C(v) if isinstance(v, str) else v
        out += [be(4, KEYS.get(k, k)), be(4, textlen(v)), raw(textlen(v), v)]
    return out


def log_block(instant, batches=(), kind='ParquetData', version=1, head=None, content=None, footer=None, clen=None):
    """The chunks of one log block of the published layout."""
    h = {'InstantTime': instant} if instant is not None else {}
    h.update(head or {})
    clen = clen if clen is not None else T('contentlen', instant if instant is not None else C(0))
    content = content if content is not None else raw(clen, T('parquet', L(batches)))
    out = [MAGIC, be(8, T('blocklen', instant if instant is not None else C(0))), be(4, version)]
    if version > 0:
        out += [be(4, TYPES.get(kind, kind))] + header(h) + [be(8, clen)]
    if kind != 'Command':
        out += content if isinstance(content, list) else [content]
    if version == 1:
        out += header(footer or {}) + [be(8, T('totallen'))]
    return out


def rollback(instant, target, version=1, code='0'):
    return log_block(instant, kind='Command', version=version, clen=C(0), head={'TargetInstantTime': target, 'CommandBlockType': code})
