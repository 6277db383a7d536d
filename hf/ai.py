"""Value-flow summaries: an abstract interpreter over the compiler's MIR.

Every function body of the workspace is interpreted over abstract values (hf/val.py): constants, data structures whose
parts are abstract values, and uninterpreted terms for everything else. A branch whose condition the abstract state does
not decide is followed both ways; what was assumed is kept as facts over a finite domain (enum variant of a term, truth
of a term, ordering {<,=,>} of two terms). Calls into the workspace are analysed in place, calls out of it become terms
or are described by a model (hf/models.py). Collections of unknown content are represented by a fixed number of generic
elements, so loops end. Nothing is executed and no solver is involved.
"""
import re as _re
import sys
from .val import *

sys.setrecursionlimit(40000)
LT, EQ, GT = 1, 2, 4
ANY = 7


AT = [None]
WHERE = {}


class Undecided(Exception):
    pass


def cparam(s):
    """A constant the compiler prints as a Rust literal (string patterns of a match arrive this way)."""
    x = s.strip()
    while x.startswith('&'):
        x = x[1:]
    if x.startswith('"') and x.endswith('"'):
        return C(rust_unescape(x[1:-1]))
    if x in ('true', 'false'):
        return C(x == 'true')
    if _re.fullmatch(r'-?\d+(_?[iu](8|16|32|64|128|size))?', x):
        return C(int(_re.sub(r'_?[iu]\w+$', '', x)))
    return T('cparam', s)


def rust_unescape(s):
    if '\\' not in s:
        return s
    m = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}

    def f(g):
        if g.group(1):
            return chr(int(g.group(1), 16))
        return m.get(g.group(2), g.group(2))
    return _re.sub(r'\\(?:u\{([0-9a-fA-F]+)\}|(.))', f, s)


def flip(m):
    return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)


def compose(a, b):
    """Orderings possible between x and z when x a y and y b z."""
    r = 0
    for i in (1, 2, 4):
        if a & i:
            for j in (1, 2, 4):
                if b & j:
                    if i == 2:
                        r |= j
                    elif j == 2:
                        r |= i
                    elif i == j:
                        r |= i
                    else:
                        r |= 7
    return r


class Facts:
    __slots__ = ('var', 'nvar', 'bools', 'cmp', 'trail')

    def __init__(self):
        self.var, self.nvar, self.bools, self.cmp, self.trail = {}, {}, {}, {}, ()

    def copy(self):
        f = Facts()
        f.var, f.nvar, f.bools = dict(self.var), dict(self.nvar), dict(self.bools)
        f.cmp, f.trail = dict(self.cmp), self.trail
        return f

    @staticmethod
    def same_order(a, b):
        """Times read from texts of the same length in the same timezone are ordered like the texts."""
        if isinstance(a, T) and isinstance(b, T) and a.op == 'time' and b.op == 'time' and a.args[1] == b.args[1]:
            x, y = a.args[0], b.args[0]
            if isinstance(x, T) and isinstance(y, T) and x.op == 'word' and y.op == 'word' and x.args[2] and x.args[2] == y.args[2]:
                return x, y
            if isinstance(x, C) and isinstance(y, T) and y.op == 'word' and len(x.v) == y.args[2]:
                return x, y
            if isinstance(y, C) and isinstance(x, T) and x.op == 'word' and len(y.v) == x.args[2]:
                return x, y
            if isinstance(x, C) and isinstance(y, C):
                return C(x.v.ljust(17, '0')), C(y.v.ljust(17, '0'))
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ('dt', 'naive', 'ndate', 'ntime', 'timedelta'):
            return a.args[0], b.args[0]
        return a, b

    def get_cmp(self, a, b):
        a, b = self.same_order(a, b)
        if a == b:
            return EQ
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'coarse' and a.args[0] == b.args[0]:
            # times cut to seconds or days: ordered alike, but different ones may become equal
            m = self.get_cmp(a.args[1], b.args[1])
            m |= EQ
            return m & self.cmp.get((a, b), ANY)
        if isinstance(a, C) and isinstance(b, C):
            if a.k[0] == b.k[0]:
                return LT if a.v < b.v else EQ if a.v == b.v else GT
            return ANY
        m = self.cmp.get((a, b), ANY)
        # through constants and known equalities
        if m != EQ:
            for (x, y), m1 in self.cmp.items():
                if x == a and y != b:
                    m2 = self.cmp.get((y, b))
                    if m2 is None and isinstance(y, C) and isinstance(b, C):
                        m2 = self.get_cmp(y, b)
                    if m2 is not None:
                        m &= compose(m1, m2)
                elif isinstance(a, C) and isinstance(x, C) and y == b and x != a:
                    m &= compose(self.get_cmp(a, x), m1)
        return m

    def set_cmp(self, a, b, mask):
        """Returns False when that contradicts what is known."""
        a, b = self.same_order(a, b)
        m = self.get_cmp(a, b) & mask
        if not m:
            return False
        if a == b or (isinstance(a, C) and isinstance(b, C)):
            return True
        self.cmp[(a, b)] = m
        self.cmp[(b, a)] = flip(m)
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'coarse' and m in (LT, GT):
            if not self.set_cmp(a.args[1], b.args[1], m):
                return False
        # closure over the other known terms
        terms = {x for x, _ in self.cmp}
        changed = True
        n = 0
        while changed and n < 4:
            changed = False
            n += 1
            for x in terms:
                if x == a or x == b:
                    continue
                for p, q in ((a, b), (b, a)):
                    mx = self.cmp.get((p, x), ANY) & compose(self.cmp[(p, q)], self.cmp.get((q, x), ANY))
                    if not mx:
                        return False
                    if mx != self.cmp.get((p, x), ANY):
                        self.cmp[(p, x)] = mx
                        self.cmp[(x, p)] = flip(mx)
                        changed = True
        return True


def refine(d, f):
    """The facts of one of several joined paths, with what became known after the join; None when they contradict."""
    r = d.copy()
    for (a, b), m in f.cmp.items():
        if r.get_cmp(a, b) & ~m and not r.set_cmp(a, b, m):
            return None
    for k, v in f.var.items():
        if r.var.get(k, v) != v or (k in r.nvar and v in r.nvar[k]):
            return None
        r.var[k] = v
    for k, v in f.nvar.items():
        if k in r.var and r.var[k] in v:
            return None
        r.nvar[k] = r.nvar.get(k, frozenset()) | v
    for k, v in f.bools.items():
        if r.bools.get(k, v) != v:
            return None
        r.bools[k] = v
    seen = set(r.trail)
    r.trail = r.trail + tuple(x for x in f.trail if x not in seen)
    return r


class St:
    __slots__ = ('heap', 'facts', 'ev', 'shared', 'dis', 'loose')
    PRE = {}        # cells every state starts with

    def __init__(self):
        self.heap, self.facts, self.ev, self.shared = dict(St.PRE), Facts(), None, False
        self.dis, self.loose = (), False

    def fork(self):
        s = St()
        s.heap, s.facts, s.ev = dict(self.heap), self.facts.copy(), self.ev
        s.dis, s.loose = self.dis, self.loose
        return s

    def alternatives(self):
        """The states that were joined into this one."""
        if not self.dis:
            return [self]
        out = []
        for d in self.dis:
            f = refine(d, self.facts)
            if f is not None:
                s = St()
                s.heap, s.facts, s.ev, s.loose = self.heap, f, self.ev, self.loose
                out.append(s)
        return out

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out, e = [], self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def assume(self, what, val):
        WHERE.setdefault((what, val), AT[0])
        self.facts.trail = self.facts.trail + ((what, val),)


class TView:
    """The type table of a generic function at one instantiation."""
    __slots__ = ('base', 'tsub')

    def __init__(self, base, tsub):
        self.base, self.tsub = base, tsub

    def __getitem__(self, n):
        t = self.base[n]
        if t.get('k') == 'param' and t.get('ix', -1) in self.tsub:
            return self.tsub[t['ix']]
        return t

    def __len__(self):
        return len(self.base)


_byname = {}


def translate(t, src, dst):
    """The type t of table src as an entry usable with table dst."""
    sb = src.base if isinstance(src, TView) else src
    if sb is dst:
        return t
    ix = _byname.get(id(dst))
    if ix is None:
        ix = _byname[id(dst)] = {x['s']: x for x in dst}
    r = ix.get(t['s'])
    if r is None:
        r = {k: v for k, v in t.items() if k in ('k', 's', 'd')}
    return r


class Frame:
    __slots__ = ('fn', 'body', 'fid', 'types', 'tsub')

    def __init__(self, fn, body, fid, tsub=None):
        self.fn, self.body, self.fid, self.types = fn, body, fid, fn.types
        self.tsub = tsub
        if tsub:
            self.types = TView(fn.types, tsub)


class Call:
    __slots__ = ('k', 'frame', 'destty', 'line', 'mac', 'types')

    def __init__(self, k, frame, destty, line, mac, types=None):
        self.k, self.frame, self.destty, self.line, self.mac = k, frame, destty, line, mac
        self.types = types if types is not None else (frame.types if frame else None)

    def dest(self):
        """The type of the destination as a dict."""
        return self.types[self.destty] if self.destty is not None and self.types else {'k': '?', 's': '?'}


def short_name(p):
    """`core::iter::traits::iterator::Iterator::map` -> `Iterator::map`; `core::str::<impl str>::len` -> `str::len`."""
    if p.startswith('<') and ' as ' in p:
        # `<T as Trait>::m`
        i = p.rfind('>::')
        head, m = p[1:i], p[i + 3:]
        j = head.rfind(' as ')
        tr = head[j + 4:]
        tr = tr.split('<')[0]
        return tr.split('::')[-1] + '::' + m
    q = p
    if '<impl ' in q:
        q = _re.sub(r'<impl (?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>::', '', q)
    if '<(dyn' in q:
        q = _re.sub(r'<\(dyn ([\w:]+)[^>]*\)>', r'\1', q)
    parts = q.split('::')
    return '::'.join(parts[-2:])


# terms that stand for values of library types a workspace trait may be implemented for
LIBTYPE = {'take': 'core::io::util::Take'}


def byte_of(v, i):
    """Byte i of a number of known value in big-endian order."""
    if isinstance(v, T) and v.op == 'be' and isinstance(v.args[1], C) and isinstance(v.args[1].v, int) and v.args[1].v >= 0:
        b = v.args[1].v.to_bytes(v.args[0], 'big')
        if -len(b) <= i < len(b):
            return C(b[i])
    return None


INT_BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


class Engine:
    def __init__(self, world, cuts=None, reps=None, depth=60, budget=400000, forkmax=3, recur=2):
        self.recur = recur
        self.w = world
        self.cuts = cuts or {}
        self.reps = reps
        self.maxdepth = depth
        self.budget0 = budget
        self.steps = 0
        self.forkmax = forkmax
        self.nid = 0
        self.depth = 0
        self.stack = []
        self.panics = []
        self.truncated = []
        self.unmodeled = {}
        self.faults = None
        self.visited = set()
        self.before = None
        self.watch = None  # called with every call of a function outside the workspace
        self.constcache = {}
        self.analysed = set()
        self.sites = 0
        from . import models
        self.models = models.MODELS
        self._implidx = None
        self._snames = {}

    # ---- small helpers ------------------------------------------------------------------------
    def fresh(self):
        self.nid += 1
        return self.nid

    def sname(self, p):
        r = self._snames.get(p)
        if r is None:
            r = self._snames[p] = short_name(p)
        return r

    def alloc(self, st, v):
        c = ('h', self.fresh())
        st.heap[c] = v
        return c

    def d(self, st, v):
        """Value behind a mutable reference."""
        n = 0
        while isinstance(v, Ref) and n < 20:
            v = self.rd(st, v.cell, v.path)
            n += 1
        return v

    def deep(self, st, v, n=0):
        """v with every mutable reference replaced by its current target, for use in terms."""
        if n > 12:
            return v
        if isinstance(v, Ref):
            return self.deep(st, self.d(st, v), n + 1)
        if isinstance(v, Obj):
            return T('obj', self.deep(st, st.heap.get(v.cell, UNIT), n + 1))
        if isinstance(v, (Tup, L, It)):
            items = [self.deep(st, x, n + 1) for x in v.items]
            return type(v)(items) if any(a is not b for a, b in zip(items, v.items)) else v
        if isinstance(v, Adt):
            fs = [self.deep(st, x, n + 1) for x in v.fs]
            return Adt(v.path, v.vi, v.vn, fs, v.names) if any(a is not b for a, b in zip(fs, v.fs)) else v
        if isinstance(v, Clo):
            ups = [self.deep(st, x, n + 1) for x in v.ups]
            return type(v)(v.id, ups, v.tsub) if any(a is not b for a, b in zip(ups, v.ups)) else v
        if isinstance(v, M):
            its = [(self.deep(st, a, n + 1), self.deep(st, b, n + 1)) for a, b in v.items]
            return M(its, v.kind)
        return v

    # ---- places -------------------------------------------------------------------------------
    def step_in(self, v, e):
        """The part of v selected by one path element."""
        k = e[0]
        if k == 'f':
            if isinstance(v, Adt):
                if len(e) > 2 and e[2] in v.names:
                    return v.fs[v.names.index(e[2])]
                return v.fs[e[1]] if e[1] < len(v.fs) else T('f', v, str(e[1]))
            if isinstance(v, Tup):
                return v.items[e[1]] if e[1] < len(v.items) else T('f', v, str(e[1]))
            if isinstance(v, Clo):
                return v.ups[e[1]] if e[1] < len(v.ups) else T('f', v, str(e[1]))
            name = e[2] if len(e) > 2 else str(e[1])
            if isinstance(v, T) and v.op == 'upd':
                return v.args[2] if v.args[1] == name else self.step_in(v.args[0], e)
            return T('f', v, name)
        if k == 'v':
            if isinstance(v, Adt):
                return v
            return T('v', v, e[2])
        if k == 'i':
            ix = e[1]
            if isinstance(v, L):
                if isinstance(ix, C) and isinstance(ix.v, int) and 0 <= ix.v < len(v.items):
                    return v.items[ix.v]
                if len(v.items) == 1 and not isinstance(ix, C):
                    return v.items[0]
            if isinstance(v, C) and isinstance(v.v, (bytes, tuple)) and isinstance(ix, C) and ix.v < len(v.v):
                return C(v.v[ix.v])
            b = byte_of(v, ix.v) if isinstance(ix, C) else None
            if b is not None:
                return b
            return T('idx', v, ix)
        if k == 'mv':
            if isinstance(v, M) and e[1] < len(v.items):
                return v.items[e[1]][1]
            return T('mv', v, e[1])
        if k == 'mk':
            return v.items[e[1]][0]
        if k == 'ci':
            if isinstance(v, L):
                n = len(v.items)
                i = n - e[1] if e[3] else e[1]
                if 0 <= i < n:
                    return v.items[i]
            b = byte_of(v, -e[1] if e[3] else e[1])
            if b is not None:
                return b
            return T('idx', v, C(-e[1] if e[3] else e[1]))
        if k == 'ss':
            if isinstance(v, L):
                n = len(v.items)
                return L(v.items[e[1]:(n - e[2] if e[3] else e[2])])
            return T('slice', v, e[1], e[2], e[3])
        return T('proj', v, str(e))

    def rd(self, st, cell, path):
        v = st.heap.get(cell)
        if v is None:
            return T('uninit')
        for e in path:
            if isinstance(v, Ref):
                v = self.d(st, v)
            v = self.step_in(v, e)
        return v

    def put(self, st, v, path, x):
        """v with the part at path replaced by x."""
        if not path:
            return x
        e = path[0]
        if e[0] == 'v':
            if isinstance(v, (Adt, Ref)):
                return self.put(st, v, path[1:], x)
            return T('updv', v, self.put(st, T('v', v, e[2]), path[1:], x))
        if isinstance(v, Ref):
            self.wr(st, v.cell, v.path + tuple(path), x)
            return v
        sub = self.put(st, self.step_in(v, e), path[1:], x)
        if e[0] == 'f':
            i = e[1]
            if isinstance(v, Adt):
                if len(e) > 2 and e[2] in v.names:
                    i = v.names.index(e[2])
                fs = list(v.fs)
                while len(fs) <= i:
                    fs.append(T('uninit'))
                fs[i] = sub
                return Adt(v.path, v.vi, v.vn, fs, v.names)
            if isinstance(v, Tup):
                it = list(v.items)
                while len(it) <= i:
                    it.append(T('uninit'))
                it[i] = sub
                return Tup(it)
            if isinstance(v, Clo):
                u = list(v.ups)
                u[i] = sub
                return type(v)(v.id, u, v.tsub)
            if isinstance(v, T) and v.op == 'uninit' and len(e) <= 2:
                return Tup([T('uninit')] * i + [sub])
            return T('upd', v, e[2] if len(e) > 2 else str(i), sub)
        if e[0] == 'i' and isinstance(v, L):
            it = list(v.items)
            if isinstance(e[1], C) and 0 <= e[1].v < len(it):
                it[e[1].v] = sub
                return L(it)
            if len(it) == 1:
                return L([sub])
        if e[0] == 'ci' and isinstance(v, L) and not e[3] and e[1] < len(v.items):
            it = list(v.items)
            it[e[1]] = sub
            return L(it)
        if e[0] == 'mv' and isinstance(v, M):
            it = list(v.items)
            it[e[1]] = (it[e[1]][0], sub)
            return M(it, v.kind)
        return T('upd', v, str(e), sub)

    def wr(self, st, cell, path, x):
        if not path:
            st.heap[cell] = x
        else:
            st.heap[cell] = self.put(st, st.heap.get(cell, T('uninit')), tuple(path), x)

    def wref(self, st, r, x):
        """Writes through a mutable reference (a chain of references ends at the innermost place)."""
        cur = self.rd(st, r.cell, r.path)
        if isinstance(cur, Ref):
            return self.wref(st, cur, x)
        self.wr(st, r.cell, r.path, x)

    def resolve(self, st, fr, p):
        """(cell, path) a MIR place denotes."""
        cell, path = (fr.fid, p[0]), ()
        for e in p[1]:
            if e == '*':
                v = self.rd(st, cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                continue
            if e == '?':
                continue
            if e[0] == 'i':
                path = path + (('i', self.rd(st, (fr.fid, e[1]), ())),)
            else:
                # a reference met on the way is followed
                v = self.rd(st, cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                path = path + (tuple(e),)
        return cell, path

    def read(self, st, fr, p):
        if not p[1]:
            return st.heap.get((fr.fid, p[0]), T('uninit'))
        cell, path = self.resolve(st, fr, p)
        return self.rd(st, cell, path)

    # ---- operands -----------------------------------------------------------------------------
    def operand(self, st, fr, o):
        k = o[0]
        if k in ('cp', 'mv'):
            return self.read(st, fr, o[1])
        if k == 'k':
            return self.konst(st, fr, o[1])
        return T('?')

    def konst(self, st, fr, c):
        if 'f' in c:
            if 'ctor' in c:
                return FnV(c, fr.types)
            return FnV(c, fr.types)
        t = fr.types[c['t']]
        if 's' in c:
            return C(c['s'])
        if 'n' in c:
            n = c['n']
            s = t['s']
            if s == 'bool':
                return C(bool(n))
            if s in ('f64', 'f32'):
                import struct
                return C(struct.unpack('<d', struct.pack('<Q', n & (1 << 64) - 1))[0] if s == 'f64' else struct.unpack('<f', struct.pack('<I', n))[0])
            if s == 'char':
                try:
                    return C(chr(n))
                except (ValueError, OverflowError):
                    return C(n)
            return C(n)
        if 'u' in c:
            return self.const_item(st, fr, c)
        if 'st' in c:
            return self.static_item(st, c['st'])
        if 'b' in c:
            return C(bytes(c['b']))
        if 'z' in c:
            s = t['s']
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                a = self.w.adts.get(t['d'])
                if a and len(a['v']) == 1:
                    return Adt(t['d'], 0, a['v'][0]['n'], ())
                return Adt(t['d'], 0, t['d'].split('::')[-1], ())
            if t['k'] == 'closure':
                return Clo(t['d'], ())
            if t['k'] == 'fndef':
                return FnV({'f': t['s'], 'fi': t.get('i')}, fr.types)
            return T('zst', s)
        if 'p' in c:
            return cparam(c['p'])
        return T('const', t['s'], str(c.get('x')))

    def const_item(self, st, fr, c):
        fid = c.get('ui', c['u'])
        if 'pr' in c:
            f = self.w.fns.get(c['u'])
            if f is None or c['pr'] >= len(f.promoted):
                return T('promoted', c['u'], c['pr'])
            return self.const_body(f, f.promoted[c['pr']], (c['u'], c['pr']))
        f = self.w.fns.get(fid)
        if f is None:
            return T('const', c.get('up', fid))
        return self.const_body(f, f.body, fid)

    def static_item(self, st, i):
        f = self.w.fns.get(i)
        if f is None:
            return T('static', i)
        return self.const_body(f, f.body, i)

    def const_body(self, f, body, key):
        if key in self.constcache:
            return self.constcache[key]
        self.constcache[key] = T('const', str(key))
        s2 = St()
        sv = self.panics, self.truncated
        self.panics, self.truncated = [], []
        try:
            r = self.exec_body(s2, f, body, [])
        finally:
            self.panics, self.truncated = sv
        if len(r) == 1:
            v = self.deep(r[0][0], r[0][1])
            self.constcache[key] = v
        return self.constcache[key]

    # ---- rvalues ------------------------------------------------------------------------------
    def rvalue(self, st, fr, r):
        """Returns a list of (state, value)."""
        k = r[0]
        if k == 'use':
            return [(st, self.operand(st, fr, r[1]))]
        if k == 'ref':
            mut, p = r[1], r[2]
            if mut:
                cell, path = self.resolve(st, fr, p)
                v = self.rd(st, cell, path)
                if isinstance(v, Ref):  # reborrow of a reference reached through a field
                    return [(st, v)] if p[1] and p[1][-1] == '*' else [(st, Ref(cell, path))]
                return [(st, Ref(cell, path))]
            return [(st, self.read(st, fr, p))]
        if k == 'ptr':
            return [(st, self.read(st, fr, r[1]))]
        if k == 'rep':
            n = r[2]
            v = self.operand(st, fr, r[1])
            if isinstance(n, int) and n <= 8:
                return [(st, L([v] * n))]
            return [(st, T('repeat', v, n))]
        if k == 'cast':
            return [(st, self.cast(st, fr, r))]
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.int_type(fr, r[2], r[3]) if 'Overflow' in r[1] else None)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, C):
                    return [(st, C(not v.v) if isinstance(v.v, bool) else C(~v.v))]
                if isinstance(v, T) and v.op == 'not':
                    return [(st, v.args[0])]
                return [(st, T('not', v))]
            if r[1] == 'Neg':
                return [(st, C(-v.v) if isinstance(v, C) else T('neg', v))]
            if r[1] == 'PtrMetadata':
                v = self.d(st, v)
                if isinstance(v, L):
                    return [(st, C(len(v.items)))]
                if isinstance(v, C) and isinstance(v.v, (str, bytes)):
                    return [(st, C(len(v.v)))]
                return [(st, T('len', self.deep(st, v)))]
            return [(st, T(r[1], v))]
        if k == 'disc':
            v = self.d(st, self.read(st, fr, r[1]))
            return [(st, self.disc(v, fr.types[r[2]]))]
        if k == 'agg':
            h = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if h[0] == 'array':
                return [(st, L(ops))]
            if h[0] == 'tuple':
                return [(st, Tup(ops))]
            if h[0] == 'adt':
                return [(st, Adt(self.clean(h[1]), h[3], h[2], ops, h[4]))]
            if h[0] == 'closure':
                return [(st, Clo(h[1], ops, fr.tsub))]
            if h[0] == 'coroutine':
                return [(st, Cor(h[1], ops, fr.tsub))]
            return [(st, T('agg', str(h), *ops))]
        return [(st, T('rv', str(r[0])))]

    def clean(self, p):
        from .mir import strip_generics
        return strip_generics(p)

    def disc(self, v, ty=None):
        if isinstance(v, Adt):
            return C(self.disc_val(v.path, v.vi))
        if isinstance(v, T) and v.op == 'updv':
            return self.disc(v.args[0], ty)
        return T('disc', v)

    def disc_val(self, path, vi):
        if path == 'core::cmp::Ordering':
            return (255, 0, 1)[vi]
        a = self.w.adts.get(path)
        if a:
            vs = a['v']
            if vi < len(vs):
                d = vs[vi].get('discr') if isinstance(vs[vi], dict) else None
                if d is not None:
                    return int(d)
        return vi

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r[2])
        if r[1].startswith('Transmute'):
            return v
        if r[1].startswith('IntToFloat') and isinstance(v, C) and isinstance(v.v, int):
            return C(float(v.v))
        if r[1].startswith('FloatToInt'):
            if isinstance(v, C) and isinstance(v.v, float):
                n = int(v.v)
                return C(max(0, n) if fr.types[r[3]]['s'][0] == 'u' else n)
            return T('float-to-int', self.deep(st, v))
        if r[1].startswith(('FloatToFloat', 'IntToFloat')) and not isinstance(v, C):
            t = fr.types[r[3]]['s']
            if t == 'f32' or r[1].startswith('IntToFloat'):
                return T('as', self.deep(st, v), t)
        if isinstance(v, C):
            t = fr.types[r[3]]['s']
            if isinstance(v.v, bool):
                return C(int(v.v))
            if isinstance(v.v, str) and r[1].startswith('IntToInt'):
                return C(ord(v.v) & 255 if t == 'u8' else ord(v.v)) if len(v.v) == 1 else v
            if isinstance(v.v, int) and r[1].startswith('IntToInt') and t in INT_BITS:
                x = v.v & (1 << INT_BITS[t]) - 1
                return C(x - (1 << INT_BITS[t]) if t[0] == 'i' and x >> INT_BITS[t] - 1 else x)
            if isinstance(v.v, int) and t == 'char':
                return C(chr(v.v))
        if isinstance(v, Adt) and r[1].startswith('IntToInt'):
            return C(self.disc_val(v.path, v.vi))
        if r[1].startswith('IntToInt') and isinstance(v, T):
            t = fr.types[r[3]]['s']
            if t in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32') and v.op not in ('as',):
                return T('as', v, t)
        return v

    def int_type(self, fr, *ops):
        for o in ops:
            if o[0] in ('cp', 'mv') and not o[1][1]:
                return fr.types[fr.body['l'][o[1][0]][0]]['s']
            if o[0] == 'k' and 't' in o[1]:
                return fr.types[o[1]['t']]['s']
        return None

    def binop(self, st, op, a, b, ity=None):
        a, b = self.d(st, a), self.d(st, b)
        cm = {'Eq': EQ, 'Ne': LT | GT, 'Lt': LT, 'Le': LT | EQ, 'Gt': GT, 'Ge': GT | EQ}.get(op)
        if cm is not None:
            if isinstance(a, C) and isinstance(b, C) and type(a.v) is type(b.v):
                m = LT if a.v < b.v else EQ if a.v == b.v else GT
                return [(st, C(bool(m & cm)))]
            if isinstance(a, C) and isinstance(a.v, bool) or isinstance(b, C) and isinstance(b.v, bool):
                t, c = (b, a) if isinstance(a, C) else (a, b)
                if op in ('Eq', 'Ne'):
                    pos = c.v == (op == 'Eq')
                    return [(st, t if pos else T('not', t))]
            return [(s, C(bool(m & cm))) for s, m in self.split_cmp(st, a, b, cm)]
        over = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if isinstance(a, C) and isinstance(b, C) and isinstance(a.v, (int,)) and isinstance(b.v, int):
            x, y = a.v, b.v
            bo = isinstance(a.v, bool)
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x // y,
                     'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                     'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[base]()
                v = C(bool(r) if bo else r)
            except (KeyError, ZeroDivisionError, ValueError):
                v = T(base, a, b)
        elif isinstance(a, C) and isinstance(b, C) and isinstance(a.v, float) and isinstance(b.v, float) and base in ('Add', 'Sub', 'Mul', 'Div') and (b.v or base != 'Div'):
            v = C({'Add': a.v + b.v, 'Sub': a.v - b.v, 'Mul': a.v * b.v, 'Div': a.v / (b.v or 1)}[base])
        else:
            v = T(base, self.deep(st, a), self.deep(st, b))
            if base in ('BitAnd', 'BitOr'):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, C) and isinstance(x.v, bool):
                        v = (y if x.v else FALSE) if base == 'BitAnd' else (TRUE if x.v else y)
            if base in ('Add', 'Sub', 'BitOr', 'BitXor') and isinstance(b, C) and b.v == 0 and not isinstance(b.v, bool):
                v = a
            if base == 'Add' and isinstance(a, C) and a.v == 0:
                v = b
        if over:
            if isinstance(v, C) and ity and ity[0] in 'iu' and not isinstance(v.v, bool):
                n = 64 if ity.endswith('size') else int(ity[1:])
                lo, hi = (0, 1 << n) if ity[0] == 'u' else (-(1 << n - 1), 1 << n - 1)
                if not lo <= v.v < hi:
                    return [(st, Tup((C((v.v - lo) % (1 << n) + lo), TRUE)))]
            return [(st, Tup((v, FALSE)))]
        return [(st, v)]

    # ---- branching on facts -------------------------------------------------------------------
    def norm(self, v):
        """Terms that only wrap another one are the same thing to a comparison."""
        return v

    def split_cmp(self, st, a, b, mask=None):
        """Splits st by the ordering of a and b: all three ways, or (with mask) in mask / not in mask.
        Returns (state, possible mask) pairs."""
        a, b = self.deep(st, a), self.deep(st, b)
        m = st.facts.get_cmp(a, b)
        if mask is None:
            parts = [x for x in (LT, EQ, GT) if m & x]
        else:
            parts = [x for x in (m & mask, m & ~mask & 7) if x]
        if len(parts) == 1:
            return [(st, parts[0])]
        out = []
        for i, x in enumerate(parts):
            s = st if i == len(parts) - 1 else st.fork()
            if s.facts.set_cmp(a, b, x):
                s.assume(('cmp', a, b), x)
                out.append((s, x))
        return out

    def split_bool(self, st, v):
        """[(state, bool)] for a boolean value."""
        v = self.d(st, v)
        if isinstance(v, C):
            return [(st, bool(v.v))]
        if isinstance(v, T) and v.op == 'not':
            return [(s, not x) for s, x in self.split_bool(st, v.args[0])]
        if isinstance(v, T) and v.op in ('BitAnd', 'BitOr'):
            out = []
            for s, x in self.split_bool(st, v.args[0]):
                if x == (v.op == 'BitOr'):
                    out.append((s, x))
                else:
                    out += self.split_bool(s, v.args[1])
            return out
        v = self.deep(st, v)
        if v in st.facts.bools:
            return [(st, st.facts.bools[v])]
        s2 = st.fork()
        st.facts.bools[v] = True
        st.assume(v, True)
        s2.facts.bools[v] = False
        s2.assume(v, False)
        return [(st, True), (s2, False)]

    def split_var(self, st, v, idxs, n=None):
        """Splits st by the variant (discriminant) of the term v: each of idxs, or none of them (None).
        n: number of variants there are, when known."""
        f = st.facts
        v = self.deep(st, v)
        if v in f.var:
            k = f.var[v]
            return [(st, k if k in idxs else None)]
        no = f.nvar.get(v, frozenset())
        cand = [i for i in idxs if i not in no]
        other = n is None or len(set(idxs) | no) < n
        todo = list(cand) + ([None] if other else [])
        out = []
        for j, i in enumerate(todo):
            s = st if j == len(todo) - 1 else st.fork()
            if i is None:
                s.facts.nvar[v] = no | frozenset(idxs)
                s.assume(('notvar', v), tuple(idxs))
            else:
                s.facts.var[v] = i
                s.assume(('var', v), i)
            out.append((s, i))
        return out

    def opt(self, st, v):
        """[(state, payload or None)] for an Option value."""
        v = self.d(st, v)
        if isinstance(v, Adt):
            return [(st, v.fs[0] if v.vi == 1 else None)]
        dv = self.deep(st, v)
        return [(s, T('f', T('v', dv, 'Some'), '0') if i == 1 else None) for s, i in self.split_var(st, dv, [1, 0], 2)]

    def res(self, st, v):
        """[(state, is_ok, payload)] for a Result value."""
        v = self.d(st, v)
        if isinstance(v, Adt):
            return [(st, v.vi == 0, v.fs[0] if v.fs else UNIT)]
        dv = self.deep(st, v)
        return [(s, i == 0, T('f', T('v', dv, 'Ok' if i == 0 else 'Err'), '0'))
                for s, i in self.split_var(st, dv, [0, 1], 2)]

    # ---- function bodies ----------------------------------------------------------------------
    def exec_body(self, st, fn, body, args, tsub=None):
        fr = Frame(fn, body, self.fresh(), tsub)
        self.analysed.add(fn.id)
        for i, a in enumerate(args):
            st.heap[(fr.fid, i + 1)] = a
        blocks = body['b']
        work = [(st, 0, {})]
        results = []
        while work:
            st, b, vis = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.budget0:
                    raise Undecided('step budget exceeded in %s' % fn.path)
                n = vis.get(b, 0) + 1
                if n > 300:
                    self.truncated.append((fn.path, 'loop'))
                    break
                if n == 1:
                    self.visited.add((fn.id, b))
                elif 90 < n <= 100 and self.recurs(st, fr, body, b, vis):
                    self.panic(st, fr, fn.line, 'a loop that does not end')
                    break
                vis[b] = n
                blk = blocks[b]
                multi = None
                ss = blk['s']
                for si, s in enumerate(ss):
                    if s[0] == '=':
                        rs = self.rvalue(st, fr, s[2])
                        if len(rs) == 1:
                            st, v = rs[0]
                            self.assign(st, fr, s[1], v)
                        else:
                            # a comparison split the state in the middle of a block: finish each part on its own
                            multi = [(s2, v, si) for s2, v in rs]
                            break
                    elif s[0] == 'setd':
                        self.setd(st, fr, s)
                if multi is not None:
                    sts = []
                    for s2, v, si in multi:
                        self.assign(s2, fr, ss[si][1], v)
                        sts += self.finish_stmts(s2, fr, ss, si + 1)
                else:
                    sts = [st]
                nxt = []
                for s2 in sts:
                    nxt += self.terminator(s2, fr, blk['t'], results)
                if not nxt:
                    break
                if len(nxt) > 1:
                    key = ('fork', b)
                    c = vis.get(key, 0) + 1
                    if c > self.forkmax and n > self.forkmax:
                        # an unbounded loop over unknown data: what further rounds could do was seen already
                        self.truncated.append((fn.path, 'unroll'))
                        nxt = nxt[:0] if c > self.forkmax + 1 else nxt
                        if not nxt:
                            break
                    vis[key] = c
                    for s2, b2 in nxt[1:]:
                        work.append((s2, b2, dict(vis)))
                st, b = nxt[0]
        for s2, _ in results:
            if len(s2.heap) > 0:
                fid = fr.fid
                for l in range(len(body['l'])):
                    s2.heap.pop((fid, l), None)
        return self.merge(results)

    def recurs(self, st, fr, body, b, vis):
        """Whether a loop comes to a state it was in before."""
        snap = (len(st.facts.trail), tuple(self.deep(st, st.heap[(fr.fid, l)]) for l in range(len(body['l'])) if (fr.fid, l) in st.heap))
        old = vis.get(('snap', b), ())
        if snap in old:
            return True
        vis[('snap', b)] = old + (snap,)
        return False

    def merge(self, results):
        """Joins paths that end in the same state and value: what distinguished them is forgotten."""
        if len(results) < 2:
            return results
        groups = {}
        for s, v in results:
            groups.setdefault((v, id(s.ev)), []).append((s, v))
        out = []
        for g in groups.values():
            done = []
            for s, v in g:
                for d in done:
                    if d[0].heap == s.heap:
                        self.join(d[0], s)
                        break
                else:
                    done.append((s, v))
            out += done
        return out

    def join(self, a, b):
        fa, fb = a.facts, b.facts
        dis = []
        for s in (a, b):
            for d in (s.dis or (None,)):
                f = s.facts.copy() if d is None else refine(d, s.facts)
                if f is not None:
                    dis.append(f)
        a.loose = a.loose or b.loose
        if len(dis) > 400:
            a.loose, dis = True, []
        a.dis = tuple(dis)
        fa.var = {k: v for k, v in fa.var.items() if fb.var.get(k) == v}
        fa.nvar = {k: v & fb.nvar[k] for k, v in fa.nvar.items() if k in fb.nvar}
        fa.bools = {k: v for k, v in fa.bools.items() if fb.bools.get(k) == v}
        fa.cmp = {k: v | fb.cmp[k] for k, v in fa.cmp.items() if k in fb.cmp and (v | fb.cmp[k]) != ANY}
        n = 0
        for x, y in zip(fa.trail, fb.trail):
            if x != y:
                break
            n += 1
        tb = set(fb.trail)
        fa.trail = fa.trail[:n] + tuple(x for x in fa.trail[n:] if x in tb)

    def finish_stmts(self, st, fr, ss, i):
        """Executes the rest of a block's statements; returns the resulting states."""
        while i < len(ss):
            s = ss[i]
            if s[0] == '=':
                rs = self.rvalue(st, fr, s[2])
                if len(rs) > 1:
                    out = []
                    for s2, v in rs:
                        self.assign(s2, fr, s[1], v)
                        out += self.finish_stmts(s2, fr, ss, i + 1)
                    return out
                st, v = rs[0]
                self.assign(st, fr, s[1], v)
            elif s[0] == 'setd':
                self.setd(st, fr, s)
            i += 1
        return [st]

    def assign(self, st, fr, p, v):
        if not p[1]:
            st.heap[(fr.fid, p[0])] = v
            return
        cell, path = self.resolve(st, fr, p)
        if p[1][-1] == '*':
            cur = self.rd(st, cell, path)
            if isinstance(cur, Ref):
                return self.wref(st, cur, v)
        self.wr(st, cell, path, v)

    def setd(self, st, fr, s):
        cell, path = self.resolve(st, fr, s[1])
        v = self.rd(st, cell, path)
        if isinstance(v, Adt):
            self.wr(st, cell, path, Adt(v.path, s[2], str(s[2]), v.fs, v.names))

    def terminator(self, st, fr, t, results):
        """Returns [(state, next block)]."""
        k = t[0]
        if k == 'call' or k == 'switch':
            AT[0] = (fr.fn, t[5])
        if k == 'goto':
            return [(st, t[1])]
        if k == 'drop':
            return [(st, t[2])]
        if k == 'ret':
            results.append((st, st.heap.get((fr.fid, 0), UNIT)))
            return []
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'call':
            out = []
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, a) for a in t[2]]
            self.sites += 1
            c = Call(f.const if isinstance(f, FnV) else {}, fr, t[7], t[5], t[6])
            for s2, v in self.call(st, f, args, c):
                if t[4] is None:
                    self.panic(s2, fr, t[5], 'call to a function that does not return')
                    continue
                self.assign(s2, fr, t[3], v)
                out.append((s2, t[4]))
            if not out and t[4] is None:
                pass
            return out
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            if isinstance(v, C) and bool(v.v) != t[2]:
                self.panic(st, fr, t[6], 'assert ' + t[4])
                return []
            return [(st, t[3])]
        if k == 'yield':
            # only reached by hand-written polling; the await model never suspends
            return [(st, t[2])]
        if k in ('unreachable', 'resume', 'terminate', 'cordrop'):
            return []
        return []

    def panic(self, st, fr, line, why):
        self.panics.append((st, fr.fn, line, why, tuple(self.stack)))

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        v = self.d(st, v)
        tg = t[2]
        if isinstance(v, C):
            x = v.v
            if isinstance(x, bool):
                x = int(x)
            elif isinstance(x, str):
                x = ord(x) if len(x) == 1 else x
            for n, b in tg:
                if n == x or (isinstance(x, int) and x < 0 and n in (x & 0xff, x & 0xffff, x & 0xffffffff, x & (2 ** 64 - 1), x & (2 ** 128 - 1))):
                    return [(st, b)]
            return [(st, t[3])]
        if isinstance(v, T) and v.op == 'disc':
            idxs = [n for n, _ in tg]
            m = dict((n, b) for n, b in tg)
            oth = fr.body['b'][t[3]]
            n = len(idxs) if oth['t'][0] == 'unreachable' else self.nvariants(st, fr, t)
            return [(s, m[i] if i is not None else t[3]) for s, i in self.split_var(st, v.args[0], idxs, n)]
        ty = fr.types[t[4]]['s'] if t[4] is not None else ''
        if ty == 'bool':
            m = {bool(n): b for n, b in tg}
            return [(s, m.get(x, t[3])) for s, x in self.split_bool(st, v)]
        # an unknown integer: compare with each case
        out = []
        cur = [st]
        for n, b in tg:
            c = C(chr(n)) if ty == 'char' else C(n)
            nx = []
            for s in cur:
                for s2, mk in self.split_cmp(s, v, c, EQ):
                    if mk == EQ:
                        out.append((s2, b))
                    else:
                        nx.append(s2)
            cur = nx
        return out + [(s, t[3]) for s in cur]

    def nvariants(self, st, fr, t):
        return None

    # ---- calls --------------------------------------------------------------------------------
    def call(self, st, f, args, c):
        """Returns [(state, result)]."""
        f = self.d(st, f)
        if isinstance(f, FnV):
            return self.call_const(st, f.const, f.types, args, c)
        if isinstance(f, Clo):
            return self.call_closure(st, f, args)
        return self.opaque(st, 'callv', [f] + list(args), c)

    def call_closure(self, st, f, args, env=None):
        """args are the closure's own arguments."""
        f0 = f
        f = self.d(st, f)
        if isinstance(f, FnV):
            return self.call_const(st, f.const, f.types, args, Call(f.const, None, None, 0, None, f.types))
        if isinstance(f, Clo):
            fn = self.w.fns.get(f.id)
            if fn is None:
                return self.opaque(st, 'closure', [f] + list(args), None)
            if isinstance(f0, Ref):
                e = f0
            else:
                e = Ref(self.alloc(st, f)) if not isinstance(f, Cor) else f
            return self.inline(st, fn, [e] + list(args), f.tsub)
        return self.opaque(st, 'callv', [f] + list(args), None)

    def inline(self, st, fn, args, tsub=None):
        if self.depth >= self.maxdepth or self.stack.count(fn.id) >= self.recur:
            self.truncated.append((fn.path, 'recursion'))
            return self.opaque(st, fn.path, args, None)
        self.depth += 1
        self.stack.append(fn.id)
        try:
            return self.exec_body(st, fn, fn.body, args, tsub)
        finally:
            self.depth -= 1
            self.stack.pop()

    def call_const(self, st, k, types, args, c):
        if 'ctor' in k:
            adt, var = k['ctor']
            return [(st, self.make(self.clean(adt), var, args))]
        rid = k.get('ri') or k.get('fi')
        name = self.clean(k.get('r') or k['f'])
        gname = self.clean(k['f'])
        cut = self.cuts.get(name) or self.cuts.get(gname)
        fn = self.w.fns.get(rid)
        if cut is None and fn is not None:
            cut = self.cuts.get(fn.path)
        if cut is not None:
            r = cut(self, st, args, c) if callable(cut) else self.opaque(st, fn.path if fn else name, args, c, log=True)
            if r is not None:
                return r
        if self.watch is not None and fn is None:
            self.watch(self, st, gname, args, c)
        if self.before is not None and fn is None:
            # what others do before this operation
            sts = self.before(self, st, gname, args)
            if sts is not None:
                was, self.before = self.before, None
                try:
                    return [x for s in sts for x in self.call_const(s, k, types, args, c)]
                finally:
                    self.before = was
        sn = self.sname(gname)
        # models of traits and library functions whose meaning does not depend on the implementation
        m = self.models.get(gname) or self.models.get(sn)
        if fn is not None and (m is None or not getattr(m, 'first', False)):
            if 'tr' in k and not fn.trait:
                # a provided method of a workspace trait: an implementation may override it
                o = self.dispatch(st, k, args)
                if o is not None:
                    fn = o
            if fn.kind == 'closure' and len(args) == 2 and gname.endswith(('::call', '::call_mut', '::call_once')):
                # a closure called by its name: its arguments come as one tuple
                x = self.d(st, args[1])
                if not isinstance(x, Tup):
                    return self.opaque(st, gname, args, c)
                if isinstance(self.d(st, args[0]), Clo):
                    return self.call_closure(st, args[0], list(x.items))
                return self.inline(st, fn, [args[0]] + list(x.items), self.tsub_of(k, types, fn))
            return self.inline(st, fn, args, self.tsub_of(k, types, fn))
        if 'tr' in k:
            o = self.dispatch(st, k, args)
            if o is not None and not (m is not None and getattr(m, 'first', False)):
                return self.inline(st, o, args)
            if m is None:
                o = self.dispatch_type(k, types)
                if o is not None:
                    return self.inline(st, o[0], args, o[1])
        if m is not None:
            r = m(self, st, args, c if c.k is k else Call(k, c.frame, c.destty, c.line, c.mac, types))
            if r is not None:
                return self.with_faults(gname, r, c) if self.faults is not None and fn is None else r
        return self.opaque(st, gname, args, c)

    def with_faults(self, name, rs, c):
        """Besides what a library operation returns, the error it may fail with."""
        e = self.faults(name)
        if e is None:
            return rs
        out = []
        for s, v in rs:
            x = v.args[0] if isinstance(v, T) and v.op == 'ready' else v
            out.append((s, v))
            if isinstance(x, Adt) and x.path == RES and x.vi == 0:
                s2 = s.fork()
                s2.assume(('fault', C(name), C(self.fresh())), 1)
                out.append((s2, T('ready', err(e)) if isinstance(v, T) else err(e)))
        return out

    def tsub_of(self, k, types, fn):
        """What the type parameters of fn stand for at this call."""
        ga, gx = (k.get('rga'), k.get('rgx')) if k.get('ri') == fn.id else (k.get('ga'), k.get('gx')) if k.get('fi') == fn.id else (None, None)
        if not ga or not gx:
            return None
        out = {}
        for i, g in zip(gx, ga):
            if g is None:
                continue
            t = types[g]
            if t.get('k') != 'param':
                out[i] = translate(t, types, fn.types)
        return out or None

    def implidx(self):
        if self._implidx is None:
            ix = {}
            for f in self.w.fns.values():
                if f.trait and f.self_ty is not None and f.kind == 'method':
                    t = f.types[f.self_ty]
                    d = t.get('d', t['s'])
                    ix.setdefault((self.clean(f.trait), f.name, d), []).append(f)
            self._implidx = ix
        return self._implidx

    def dispatch(self, st, k, args):
        """The implementation of a trait method for the type of the receiver, when it is a workspace type."""
        if not args:
            return None
        v = self.d(st, args[0])
        path = v.path if isinstance(v, Adt) else LIBTYPE.get(v.op) if isinstance(v, T) else None
        if path is None:
            return None
        tr = self.clean(k['tr'])
        m = self.clean(k['f']).split('::')[-1]
        c = self.implidx().get((tr, m, path))
        if c and len(c) == 1:
            return c[0]
        return None

    def dispatch_type(self, k, types):
        """(implementation, type parameters) of a workspace trait's method for the Self type of the call."""
        if not k.get('ga') or k['ga'][0] is None:
            return None
        t = types[k['ga'][0]]
        if t.get('k') == 'param':
            return None
        tr, m = self.clean(k['tr']), self.clean(k['f']).split('::')[-1]
        c = self.implidx().get((tr, m, t.get('d', t['s'])))
        if c and len(c) == 1:
            return c[0], None
        c = [f for (r, n, _), fs in self.implidx().items() if r == tr and n == m for f in fs if f.types[f.self_ty].get('k') == 'param']
        if len(c) == 1 and not self.implidx().get((tr, m, t.get('d', t['s']))):
            return c[0], {c[0].types[c[0].self_ty].get('ix', 0): translate(t, types, c[0].types)}
        return None

    def make(self, path, var, args):
        a = self.w.adts.get(path)
        vi, names = 0, [str(i) for i in range(len(args))]
        if a:
            for i, v in enumerate(a['v']):
                if v['n'] == var:
                    vi = i
                    names = [x['n'] for x in v['f']]
        elif path == OPT:
            vi = 1
        elif path == RES:
            vi = 0 if var == 'Ok' else 1
        return Adt(path, vi, var, args, names)

    def opaque(self, st, name, args, c, log=False):
        """A call the analysis does not look into: a term over its arguments; places it could write become terms."""
        vals = tuple(self.deep(st, a) for a in args)
        r = T(name, *vals)
        self.unmodeled[name] = self.unmodeled.get(name, 0) + 1
        line = c.line if c else None
        where = c.frame.fn if c and c.frame else None
        st.event('call', name, vals, r, where, line)
        for i, a in enumerate(args):
            self.havoc(st, a, r, i)
        return [(st, r)]

    def havoc(self, st, a, r, i, n=0):
        if isinstance(a, Ref):
            cur = self.rd(st, a.cell, a.path)
            if isinstance(cur, Ref):
                return self.havoc(st, cur, r, i, n + 1)
            self.wref(st, a, T('post', r, i))
        elif isinstance(a, Clo) and n < 3:
            pass
        elif isinstance(a, (Tup, L)) and n < 2:
            for x in a.items:
                self.havoc(st, x, r, i, n + 1)

    # ---- entry points -------------------------------------------------------------------------
    def await_(self, st, f):
        f = self.d(st, f)
        if isinstance(f, Cor):
            fn = self.w.fns.get(f.id)
            if fn is not None:
                return self.inline(st, fn, [f, T('ctx')], f.tsub)
        if isinstance(f, T) and f.op == 'ready':
            return [(st, f.args[0])]
        if isinstance(f, Adt) and f.path.endswith('::Ready'):
            return [(st, f.fs[0])]
        return [(st, T('await', self.deep(st, f)))]

    def run(self, path, args, st=None, aw=True):
        """Analyses the function with this path on abstract arguments, awaiting the result of an async one."""
        fn = path if not isinstance(path, str) else self.lookup(path)
        if fn is None:
            raise Undecided('no function %s' % path)
        out = []
        for s, v in self.inline(st or St(), fn, list(args)):
            if aw and isinstance(v, Cor):
                out += self.await_(s, v)
            else:
                out.append((s, v))
        return out

    def lookup(self, path):
        f = self.w.fn(path)
        if f is None and '::' in path:
            ty, m = path.rsplit('::', 1)
            c = self.w.method(ty, m)
            f = c[0] if c else None
        return f
