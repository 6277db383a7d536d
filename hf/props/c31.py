"""Two rules. (1) Abstract interpretation of the log file reader on streams in which one length or count is far larger than
what follows it, for every such field, format version and block type: every allocation the reader asks for on the way is
observed, and none may be larger than what a small file justifies. (2) Backward dataflow over the MIR of every function of
the shipped crates: no size that an allocation is asked for comes, unbounded, from a number decoded from bytes. What the
external decoders do with the lengths they read themselves is a table of facts read from their sources."""
import re

from .tables import *
from ..scen import KEYS, TYPES, MAGIC, header
from ..models_arrow import be, raw
from .. import models_avro
from ..mir import strip_generics
from . import c11
from .common import *

HUGE = {4: (1 << 31, (1 << 32) - 1), 8: (1 << 31, 1 << 40, 1 << 63, (1 << 64) - 1)}
LIMIT = 64 << 20  # far above what the reader sets aside for any file (16 MiB), far below a gigabyte
# functions that set memory aside, and which argument says how much
ALLOC = re.compile(r'(^|::)(with_capacity|with_capacity_in|try_with_capacity|with_capacity_and_hasher|from_elem|reserve|reserve_exact|try_reserve|try_reserve_exact|resize|resize_with|'
                   r'set_len|zeroed|from_len_zeroed|new_uninit_slice|new_zeroed_slice|repeat_n|append_n|append_nulls|append_n_nulls|advance_mut|new_null|new_null_array|'
                   r'put_bytes|allocate_zeroed|from_trusted_len_iter|with_shared_capacity)$')
ONLY = {'from_elem': (1,), 'resize': (1,), 'resize_with': (1,), 'repeat_n': (1,), 'append_n': (1,), 'reserve': (1,), 'reserve_exact': (1,), 'try_reserve': (1,), 'put_bytes': (2,),
        'try_reserve_exact': (1,), 'set_len': (1,), 'new_null_array': (1,), 'append_nulls': (1,), 'append_n_nulls': (1,)}
BY_BYTES = re.compile(r'(^|::)(str::repeat|slice::repeat|MutableBuffer::new)$')
SOURCE = re.compile(r'(^|::)(from_be_bytes|from_le_bytes|from_ne_bytes|get_u(16|32|64|128)(_le|_ne)?|get_i(16|32|64)(_le|_ne)?|get_u?int(_le)?|read_u(16|32|64|128)|read_i(16|32|64)|'
                    r'read_u?int|read_varint|as_u64|as_i64|decode_varint)$')
NARROW = re.compile(r'^(u8|i8|bool|u16|i16)$')
# read from the sources of the decoders and confirmed by running them (apache_avro 0.17 decode.rs: items.reserve(len); parquet 54
# serialized_reader.rs: Vec::with_capacity(uncompressed_size)): (calls that enter them, name, what they do)
DECODERS = ((re.compile(r'^apache_avro::(.*::)?(from_avro_datum\w*|Reader::\w*new|GenericDatumReader\w*)'), 'apache_avro array and map blocks',
             'reserves memory for as many items as a block of an array or map announces, up to 512 Mi items of 56 bytes, before any of them is read'),
            (re.compile(r'^parquet::arrow::(.*::)?(ParquetRecordBatchReader(Builder)?|ParquetRecordBatchStreamBuilder)::(try_)?new'), 'parquet compressed pages',
             'reserves memory for as many bytes as the header of a compressed page announces, up to 2 GiB, before it is decompressed'))


def size_of(v):
    """The constant size a request is made for, or None."""
    return v.v if isinstance(v, C) and isinstance(v.v, int) and not isinstance(v.v, bool) else None


def requested(name, vals):
    last = name.rsplit('::', 1)[-1]
    pos = ONLY.get(last)
    return [v for i, v in enumerate(vals) if pos is None or i in pos]


class Watch:
    def __init__(self):
        self.seen = []

    def __call__(self, e, st, name, args, c):
        n = strip_generics(name)
        if ALLOC.search(n) or BY_BYTES.search(n):
            for v in requested(n, [e.deep(st, a) for a in args]):
                k = size_of(v)
                self.seen.append((n, v, k, c.frame.fn if c.frame else None, c.line))
        elif n.endswith('Iterator::collect') or n.endswith('FromIterator::from_iter'):
            v = e.deep(st, args[0])
            if isinstance(v, Adt) and v.vn in ('Range', 'RangeInclusive'):
                lo, hi = size_of(v.fs[0]), size_of(v.fs[1])
                if lo is not None and hi is not None:
                    self.seen.append((n, v, hi - lo, c.frame.fn if c.frame else None, c.line))


def read(w, chunks, watch):
    sc = Scene(w, logs={c11.FILE: chunks})
    sc.e.watch = watch
    out = []
    for st, r in sc.run('LogFileReader::new', [sc.conf, sc.storage, c11.FILE]):
        if not is_ok(r):
            out.append((st, r))
            continue
        st2, rg = sc.one('InstantRange::new', [C('utc'), NONE, NONE, FALSE, TRUE], st)
        cell = sc.e.alloc(st2, r.fs[0])
        out += sc.run('LogFileReader::read_all_blocks', [Ref(cell), rg], st2)
    return sc.e, out


def fields(X):
    """(what, chunks up to the field, width, chunks after it) of every length and count in a log file."""
    out = []

    def pre(ver, kind, n=1):
        return [MAGIC, be(8, T('blocklen', X)), be(4, ver), be(4, TYPES[kind])]
    ent = lambda k, v: [be(4, KEYS[k]), be(4, textlen(v)), raw(textlen(v), v)]
    sch = C('s1')
    for ver in (1, 2, 3):
        for kind in ('ParquetData', 'AvroData', 'Command'):
            h = header({'InstantTime': X, **({'Schema': sch} if kind == 'AvroData' else {'TargetInstantTime': X, 'CommandBlockType': '0'} if kind == 'Command' else {})})
            body = [raw(T('contentlen', X), T('parquet', L([batch(FULL, [row(0, X)])])))] if kind == 'ParquetData' else \
                [be(4, 3), be(4, 1), be(4, T('reclen')), raw(T('reclen'), T('datum', T('sch'), T('rec')))] if kind == 'AvroData' else []
            P = pre(ver, kind)
            rest = h + [be(8, T('contentlen', X))] + body
            tag = 'version %d %s: ' % (ver, kind)
            out.append((tag + 'block length', [MAGIC], 8, P[2:] + rest))
            out.append((tag + 'number of header entries', P, 4, h[1:] + [be(8, T('contentlen', X))] + body))
            out.append((tag + 'length of the first header value', P + h[:2], 4, h[3:] + [be(8, T('contentlen', X))] + body))
            out.append((tag + 'length of the last header value', P + h[:-2], 4, h[-1:] + [be(8, T('contentlen', X))] + body))
            out.append((tag + 'content length', P + h, 8, body))
            if ver == 1:
                out.append((tag + 'number of footer entries', P + rest, 4, []))
                out.append((tag + 'length of a footer value', P + rest + [be(4, 1), be(4, KEYS['Schema'])], 4, [raw(T('x'), C('f'))]))
                out.append((tag + 'total length', P + rest + [be(4, 0)], 8, []))
            if kind == 'AvroData':
                Q = P + h + [be(8, T('contentlen', X))]
                out.append((tag + 'number of records', Q + [be(4, 3)], 4, body[2:]))
                out.append((tag + 'length of the first record', Q + [be(4, 3), be(4, 1)], 4, body[3:]))
                out.append((tag + 'length of the second record', Q + [be(4, 3), be(4, 2)] + body[2:], 4, []))
    return out


def textlen(v):
    from .. import scen
    return scen.textlen(v)


# ---- dataflow -----------------------------------------------------------------------------------------------
def operands(rv):
    if not isinstance(rv, list):
        return []
    k = rv[0]
    if k in ('use', 'cast', 'un'):
        return [rv[-1]] if k != 'cast' else [rv[2]]
    if k == 'bin':
        return [rv[2], rv[3]]
    if k == 'agg':
        return list(rv[2])
    if k == 'ref':
        return [['cp', rv[2]]]
    return [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ('cp', 'mv')]


def local(op):
    return op[1][0] if isinstance(op, (list, tuple)) and op and op[0] in ('cp', 'mv') else None


CMP = ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'Cmp')
BOUND = re.compile(r'(^|::)(min|clamp|cmp|partial_cmp|lt|le|gt|ge|eq|ne|contains|get|checked_sub|try_from|try_into|max_by)$')


class Flow:
    """Which locals of a function hold a number decoded from bytes, and which of them something is compared with."""

    def __init__(self, f, summaries):
        self.f, self.src, self.bounded = f, {}, set()
        b = f.body
        ty = lambda i: f.types[b['l'][i][0]]['s']
        edges = {}
        for i, blk in enumerate(b['b']):
            if blk.get('c'):
                continue
            for s in blk['s']:
                if s[0] != '=':
                    continue
                ops = [x for x in map(local, operands(s[2])) if x is not None]
                if s[2][0] == 'bin' and str(s[2][1]).split('(')[0] in CMP:
                    self.bounded |= set(ops)
                    continue
                if s[2][0] in ('disc', 'len'):
                    continue
                for o in ops:
                    edges.setdefault(o, set()).add(s[1][0])
            t = blk['t']
            if t[0] == 'call':
                k = t[1][1] if t[1][0] == 'k' else None
                name = strip_generics(k.get('r') or k['f']) if k and 'f' in k else ''
                ops = [x for x in map(local, t[2]) if x is not None]
                dst = t[3][0]
                if SOURCE.search(strip_generics(k['f']) if k and 'f' in k else ''):
                    m = re.search(r'num::<impl (\w+)>', k['f']) or re.search(r'<(\w+)>::from_', k['f'])
                    if not NARROW.match(ty(dst)):
                        self.src.setdefault(dst, (i, t[5]))
                elif k and (k.get('ri') or k.get('fi')) in summaries:
                    self.src.setdefault(dst, (i, t[5]))
                elif BOUND.search(name):
                    self.bounded |= set(ops)
                elif ALLOC.search(name):
                    pass
                elif not name.endswith('::len'):
                    for o in ops:
                        edges.setdefault(o, set()).add(dst)
        # propagate
        self.taint = dict(self.src)
        todo = list(self.src)
        while todo:
            x = todo.pop()
            for y in edges.get(x, ()):
                if y not in self.taint:
                    self.taint[y] = self.taint[x]
                    todo.append(y)
        back = {}
        for a, ys in edges.items():
            for y in ys:
                back.setdefault(y, set()).add(a)
        self.back = back

    def bounded_source(self, l):
        """Whether something the local comes from, or that comes from the same number, is compared with anything."""
        seen, todo = set(), [l]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.bounded:
                return True
            todo += [y for y in self.back.get(x, ()) if y in self.taint]
        return False


def check(c):
    w = c.w
    X = ts('X')

    # ---- 1: the log reader on short files with huge lengths
    A = models_avro.Avro(w)
    sch = A.record('row', ('id', A.s('Int')))
    models_avro.SCHEMAS[C('s1')] = sch
    val = A.v('Record', L([Tup((C('id'), A.v('Int', C(1))))]))

    def real(ch):
        return [raw(x.args[0], T('datum', sch, val)) if isinstance(x, T) and x.op == 'raw' and isinstance(x.args[1], T) and x.args[1].op == 'datum' else x for x in ch]
    total = [0]
    for what, before, width, after in fields(X):
        before, after = real(before), real(after)
        for n in HUGE[width]:
            for how, tail in (('nothing', []), ('too little', [T('short')]), ('the rest of the file', after)):
                wt = Watch()

                def judge(s, v):
                    return None

                def run():
                    e, rs = read(w, before + [be(width, n)] + tail, wt)
                    for name, v, k, fn, line in wt.seen:
                        if k is not None and k > LIMIT:
                            raise Bad('%s asks for %d units of memory because of %s' % (name, k, what), '%s (%s)' % (fn.loc(line), fn.path) if fn else None)
                        need(k is not None or not (isinstance(v, T) and v.op in e.unmodeled), '%s is asked for %s' % (name, v))
                    total[0] += len(wt.seen)
                    return e, rs
                c.outcomes('huge', '%s = %d followed by %s' % (what, n, how), run, judge, panics=False)

    # ---- 2: sizes that come from decoded numbers
    fns = [f for f in w.fns.values() if f.body and f.crate in ('hudi_core', 'hudi_datafusion', 'hudi')] if hasattr(next(iter(w.fns.values())), 'crate') else [f for f in w.fns.values() if f.body]
    summaries = {}
    for _ in range(4):
        grew = False
        for f in fns:
            if f.id in summaries:
                continue
            fl = Flow(f, summaries)
            if 0 in fl.taint and not fl.bounded_source(0):
                t = f.types[f.body['l'][0][0]]['s']
                if re.search(r'\b[ui](32|64|128|size)\b', t):
                    summaries[f.id] = fl.taint[0]
                    grew = True
        if not grew:
            break
    for f in fns:
        fl = None
        for blk, t, k, cleanup in w.calls(f):
            if cleanup or not k or 'f' not in k:
                continue
            name = strip_generics(k['f'])
            if not (ALLOC.search(name) or BY_BYTES.search(name)):
                continue
            fl = fl or Flow(f, summaries)

            def site():
                for v in requested(name, t[2]):
                    l = local(v)
                    if l is not None and l in fl.taint and not fl.bounded_source(l):
                        raise Bad('%s is asked for as much as a number read from the file says' % name, '%s (%s)' % (f.loc(t[5]), f.path))
                return 'size not from decoded bytes'
            c.rule('sizes', '%s %s' % (f.path, name), site)
    c.rule('sizes', 'numbers decoded from bytes', lambda: '%d functions return one' % len(summaries) if sum(1 for f in fns if Flow(f, {}).src) >= 3 else need(False, 'decoded numbers'))

    # ---- 3: external decoders
    for f in fns:
        for blk, t, k, cleanup in w.calls(f):
            if k and 'f' in k and not cleanup:
                for rx, d, why in DECODERS:
                    n = strip_generics(k['f'])
                    if rx.search(n):
                        c.bad('external', d, why, '%s (%s)' % (f.loc(t[5]), f.path))
    c.floor('huge', 300)
    c.floor('sizes', 10)
