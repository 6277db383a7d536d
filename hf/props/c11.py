"""Abstract interpretation of the log file reader on byte streams of the published layout: LogFileReader::new and
read_all_blocks for every format version, block type, header and footer content and number of blocks and batches; every
truncation point, wrong magic, unknown code and unsupported block type; and the code tables themselves for all four-byte
values. A stream is a sequence of fields (literal bytes, big-endian integers, byte strings); reading one with the wrong
width, order or byte order is detected where it happens."""
from .tables import *
from ..scen import KEYS, TYPES, MAGIC, header
from ..models_arrow import be, raw

VERS = {0: 'V0', 1: 'V1', 2: 'V2', 3: 'V3'}
HAS = {'has_block_type': (1, 2, 3), 'has_header': (1, 2, 3), 'has_content_length': (1, 2, 3), 'has_footer': (1,), 'has_total_log_block_length': (1,)}
CODES = {'LogFormatVersion': VERS, 'BlockType': {v: k for k, v in TYPES.items()}, 'BlockMetadataKey': {v: k for k, v in KEYS.items()}}
FILE = C('f.log')


def bytes4(n):
    return L([C(x) for x in n.to_bytes(4, 'big')])


def small(w, size):
    """A cut that makes the decoder of blocks work in batches of another size than its own."""
    fn = w.method('Decoder', 'new')[0]

    def cut(en, st, a, c):
        out = []
        for s, v in en.inline(st, fn, a):
            v = en.d(s, v)
            out.append((s, Adt(v.path, v.vi, v.vn, [C(size) if isinstance(x, C) and not isinstance(x.v, (bool, str)) and x.v > 16 else x for x in v.fs], v.names)))
        return out
    return fn.path, cut


def read(w, chunks, conf=None, size=None):
    sc = Scene(w, conf=conf or {}, logs={FILE: chunks})
    if size:
        k, f = small(w, size)
        sc.e.cuts[k] = f
    out = []
    for st, r in sc.run('LogFileReader::new', [sc.conf, sc.storage, FILE]):
        if not is_ok(r):
            out.append((st, r))
            continue
        st2, rg = sc.one('InstantRange::new', [C('utc'), NONE, NONE, FALSE, TRUE], st)
        cell = sc.e.alloc(st2, r.fs[0])
        out += sc.run('LogFileReader::read_all_blocks', [Ref(cell), rg], st2)
    return sc.e, out


def takes_bytes(f):
    l = f.body['l'][1]
    return '[u8' in f.types[l[0] if isinstance(l, (list, tuple)) else l]['s']


def misread(s):
    for ev in s.events():
        if ev[0] == 'misread':
            return ev
    return None


def hdr(v):
    m = v if isinstance(v, M) else None
    return {variant(k): x for k, x in m.items} if m is not None else None


def check(c):
    w = c.w
    X = ts('X')

    # ---- code tables
    for ty, tab in CODES.items():
        a = w.adt(ty)
        for n in list(range(0, 9)) + [255, 256, 65536, 1 << 24, (1 << 24) * 3, (1 << 24) * 5, (1 << 32) - 1]:
            def run():
                sc = Scene(w)
                fs = [f for f in w.method(ty, 'try_from', 'TryFrom') if takes_bytes(f)]
                need(len(fs) == 1, 'conversion of %s' % ty)
                return sc.e, sc.run(fs[0], [bytes4(n)])
            want = tab.get(n)
            c.outcomes('codes', '%s %d' % (ty, n), run, lambda s, v: None if (is_ok(v) and variant(unwrap(v)) == want if want else is_err(v)) else
                       ('code %d is %s instead of %s' % (n, v, want or 'an error'), v))
    for m, on in HAS.items():
        for n, vn in VERS.items():
            def run():
                sc = Scene(w)
                a = w.adt('LogFormatVersion')
                i = [i for i, x in enumerate(a['v']) if x['n'] == vn]
                need(len(i) == 1, 'version ' + vn)
                return sc.e, sc.run('LogFormatVersion::' + m, [Adt(a['d'], i[0], vn, ())])
            c.outcomes('versions', '%s %s' % (vn, m), run, lambda s, v: None if v == C(n in on) else ('%s of version %d is %s' % (m, n, v), v))
    for txt, good in (('0', True), ('1', False), ('-1', False), ('rollback', False), ('', False), ('00', None)):
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('CommandBlock', 'from_str', 'FromStr'), [C(txt)])
        c.outcomes('codes', 'CommandBlock %r' % txt, run, lambda s, v: None if good is None or is_ok(v) == good else ('command block type %r is %s' % (txt, v), v))

    # ---- layout
    def expect(key, chunks, judge):
        def j(s, v):
            if misread(s):
                ev = misread(s)
                return 'reads %s bytes where the file has %s (%s)' % (ev[2], ev[1], ev[3].loc(ev[4]) if ev[3] else '-'), v
            return judge(s, v)
        c.outcomes(key[0], key[1], lambda: read(w, chunks), j)

    def blocks(*want):
        """want: (type, {header}, [batch], {footer})"""
        def j(s, v):
            if is_err(v):
                return 'reading fails: %s' % v.fs[0], v
            bs = items(unwrap(v))
            need(bs is not None, 'blocks %s' % v)
            if len(bs) != len(want):
                return '%d blocks instead of %d' % (len(bs), len(want)), v
            for b, (ver, ty, h, bt, f) in zip(bs, want):
                if variant(fld(b, 'block_type')) != ty or variant(fld(b, 'format_version')) != VERS[ver]:
                    return 'block of type %s version %s instead of %s %s' % (variant(fld(b, 'block_type')), variant(fld(b, 'format_version')), ty, ver), v
                if hdr(fld(b, 'header')) != h:
                    return 'header %s instead of %s' % (fld(b, 'header'), h), v
                if items(fld(b, 'record_batches')) != bt:
                    return 'batches %s instead of %s' % (fld(b, 'record_batches'), bt), v
                if hdr(fld(b, 'footer')) != f:
                    return 'footer %s instead of %s' % (fld(b, 'footer'), f), v
            return None
        return j
    fails = lambda s, v: None if is_err(v) else ('no error', v)
    B = [batch(FULL, [row(i, X)]) for i in range(3)]
    vals = {k: word('h%d' % i, ALNUM) for i, k in enumerate(KEYS)}
    for ver in (1, 2, 3):
        for nb in range(4):
            expect(('layout', 'version %d, %d batches' % (ver, nb)), log_block(X, B[:nb], version=ver), blocks((ver, 'ParquetData', {'InstantTime': X}, B[:nb], {})))
        expect(('layout', 'version %d, full header' % ver), log_block(X, B[:1], version=ver, head={k: v for k, v in vals.items() if k != 'InstantTime'}),
               blocks((ver, 'ParquetData', {**vals, 'InstantTime': X}, B[:1], {})))
        expect(('layout', 'version %d, command' % ver), rollback(X, vals['Schema'], version=ver),
               blocks((ver, 'Command', {'InstantTime': X, 'TargetInstantTime': vals['Schema'], 'CommandBlockType': C('0')}, [], {})))
        for n in (2, 3):
            ch, want = [], []
            for i in range(n):
                t = ts('X%d' % i)
                if i == 1:
                    ch += rollback(t, X, version=ver)
                    want.append((ver, 'Command', {'InstantTime': t, 'TargetInstantTime': X, 'CommandBlockType': C('0')}, [], {}))
                else:
                    ch += log_block(t, B[:i + 1], version=ver)
                    want.append((ver, 'ParquetData', {'InstantTime': t}, B[:i + 1], {}))
            expect(('layout', 'version %d, %d blocks' % (ver, n)), ch, blocks(*want))
    expect(('layout', 'footer'), log_block(X, B[:1], footer={k: v for k, v in list(vals.items())[:3]}),
           blocks((1, 'ParquetData', {'InstantTime': X}, B[:1], dict(list(vals.items())[:3]))))
    expect(('layout', 'mixed versions'), log_block(X, B[:1], version=1) + log_block(X, B[1:2], version=2) + log_block(X, B[2:3], version=3),
           blocks((1, 'ParquetData', {'InstantTime': X}, B[:1], {}), (2, 'ParquetData', {'InstantTime': X}, B[1:2], {}), (3, 'ParquetData', {'InstantTime': X}, B[2:3], {})))
    expect(('layout', 'empty file'), [], blocks())

    # ---- what must not be accepted
    for ver in (0, 4, 5, 1 << 24):
        expect(('refused', 'version %d' % ver), [MAGIC, be(8, T('blocklen', X)), be(4, ver)] + log_block(X, B[:1])[3:], fails)
    for kind in ('Delete', 'Corrupted', 'HfileData', 'CdcData', 7, 100, 5 << 24):
        expect(('refused', 'block type %s' % kind), log_block(X, B[:1], kind=kind), fails)
    for magic in (b'#HUDI!', b'hudi##', b'\0' * 6, b'#IDUH#'):
        expect(('refused', 'magic %r' % magic), [L([C(x) for x in magic])] + log_block(X, B[:1])[1:], fails)
        expect(('refused', 'magic %r of the second block' % magic), log_block(X, B[:1]) + [L([C(x) for x in magic])] + log_block(X, B[:1])[1:], fails)
    for k in (7, 8, 1 << 24):
        expect(('refused', 'header key %d' % k), log_block(X, B[:1], head={k: 'v'}), fails)
        expect(('refused', 'footer key %d' % k), log_block(X, B[:1], footer={k: 'v'}), fails)
    expect(('refused', 'no instant time'), log_block(None, B[:1]), fails)
    expect(('refused', 'header text'), log_block(X, B[:1], head={'Schema': T('badutf8', X)}), fails)
    expect(('refused', 'content'), log_block(X, content=raw(T('contentlen', X), T('notparquet'))), fails)
    full = {1: log_block(X, B[:1], version=1, head={'Schema': 's'}, footer={'Schema': 'f'}), 2: log_block(X, B[:1], version=2, head={'Schema': 's'})}
    for ver, ch in full.items():
        for k in range(1, len(ch)):
            expect(('truncated', 'version %d after %d of %d fields' % (ver, k, len(ch))), ch[:k], fails)
            expect(('truncated', 'version %d inside field %d of %d' % (ver, k + 1, len(ch))), ch[:k] + [T('short')], fails)

    # ---- Avro blocks: the record format version and the number of records
    for n in (0, 1, 2, 4, 3 << 24):
        expect(('refused', 'avro record version %d' % n), log_block(X, kind='AvroData', head={'Schema': 's'}, content=be(4, n)), fails)
    expect(('refused', 'avro without schema'), log_block(X, kind='AvroData', content=be(4, 3)), fails)
    c.floor('codes', 45)
    c.floor('versions', 20)
    c.floor('layout', 20)
    c.floor('refused', 25)
    c.floor('truncated', 30)
    c.also('c28', 'block', 'cut-block')
    c.also('c10', 'command-block')
    c.also('c18', 'reader')
