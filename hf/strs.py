"""Strings of known shape: literals and words (unknown text over a known alphabet) in sequence.

A string is C(text), a word, or concat(parts) of those. Operations give a result only when it is the same for every text
the words can stand for; otherwise they return None and the caller falls back to an uninterpreted term.
"""
import string
from .val import *

DIGITS = string.digits
HEX = string.digits + 'abcdef'
ALNUM = string.digits + string.ascii_letters
UUID = ALNUM + '-'


def word(name, alphabet, n=None):
    """Unknown non-empty text over the alphabet; n: its length, when fixed."""
    return T('word', name, ''.join(sorted(set(alphabet))), n)


def is_word(x):
    return isinstance(x, T) and x.op == 'word'


def atoms(v):
    """The parts of a string of known shape, or None."""
    if isinstance(v, C):
        return [v] if isinstance(v.v, str) else None
    if is_word(v):
        return [v]
    if isinstance(v, T) and v.op == 'concat':
        out = []
        for p in v.args:
            a = atoms(p)
            if a is None:
                return None
            out += a
        return out
    return None


def shaped(v):
    return isinstance(v, T) and atoms(v) is not None


def mk(parts):
    out = []
    for p in parts:
        if isinstance(p, C):
            if p.v == '':
                continue
            if out and isinstance(out[-1], C):
                out[-1] = C(out[-1].v + p.v)
                continue
        out.append(p)
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    return T('concat', *out)


def cells(v, k):
    """The string as a list of cells: (atom index, offset, literal char or None, alphabet). A word of unknown length is
    represented by k cells at its start and k at its end."""
    out = []
    for i, a in enumerate(atoms(v)):
        if isinstance(a, C):
            out += [(i, j, ch, None) for j, ch in enumerate(a.v)]
        else:
            n = a.args[2]
            m = n if n is not None else 2 * k + 1
            out += [(i, j, None, a.args[1]) for j in range(m)]
    return out


class Chars(frozenset):
    """A pattern matching one character of a set."""

    def __len__(self):
        return 1


def in_set(v, pat):
    """Positions of the characters of the set pat; None when that depends on the words."""
    out = []
    for i, a in enumerate(atoms(v)):
        if isinstance(a, C):
            out += [(i, j) for j, ch in enumerate(a.v) if ch in pat]
        elif any(ch in pat for ch in a.args[1]):
            return None
    return out


def matches(v, pat):
    """Positions (atom index, offset) at which the literal pat occurs for certain; None when that depends on the words."""
    if isinstance(pat, Chars):
        return in_set(v, pat)
    cs = cells(v, len(pat))
    out = []
    for p in range(len(cs) - len(pat) + 1):
        certain = True
        for q, ch in enumerate(pat):
            _, _, lit, alpha = cs[p + q]
            if lit is None:
                if ch not in alpha:
                    break
                certain = False
            elif lit != ch:
                break
        else:
            if not certain:
                return None
            out.append(cs[p][:2])
    return out


def cut(v, pos):
    """(before, after) the position inside a literal."""
    i, off = pos
    at = atoms(v)
    return mk(at[:i] + [C(at[i].v[:off])]), mk([C(at[i].v[off:])] + at[i + 1:])


def drop(v, n):
    """v without its first n characters, which are literal."""
    at = atoms(v)
    while n and at:
        k = min(n, len(at[0].v))
        if k == len(at[0].v):
            at = at[1:]
        else:
            at = [C(at[0].v[k:])] + at[1:]
        n -= k
    return mk(at)


def split_once(v, pat, last=False):
    ms = matches(v, pat)
    if ms is None:
        return None
    if not ms:
        return NONE
    # overlapping occurrences do not matter for the first or last one
    b, a = cut(v, ms[-1] if last else ms[0])
    return some(Tup((b, drop(a, len(pat)))))


def split(v, pat, limit=None, last=False):
    """The pieces between occurrences of pat, as str::split (limit: splitn)."""
    if not pat:
        return None
    out, rest = [], v
    while limit is None or len(out) < limit - 1:
        r = split_once(rest, pat, last)
        if r is None:
            return None
        if r == NONE:
            break
        b, a = r.fs[0].items
        if last:
            out.append(a)
            rest = b
        else:
            out.append(b)
            rest = a
    out.append(rest)
    return out


def split_set(v, chars, limit=None, keep_end=True):
    """The pieces between characters of a set."""
    at = atoms(v)
    out, cur = [], []
    for a in at:
        if is_word(a):
            if (limit is None or len(out) < limit - 1) and set(a.args[1]) & set(chars):
                return None
            cur.append(a)
            continue
        for ch in a.v:
            if ch in chars and (limit is None or len(out) < limit - 1):
                out.append(mk(cur))
                cur = []
            else:
                cur.append(C(ch))
    out.append(mk(cur))
    return out


def _end(v, pat, end):
    """Does v start (end) with pat: True, False or None."""
    if isinstance(pat, Chars):
        at = [a for a in atoms(v) if not isinstance(a, C) or a.v]
        if not at:
            return False
        a = at[-1 if end else 0]
        if isinstance(a, C):
            return a.v[-1 if end else 0] in pat
        inside = [ch in pat for ch in a.args[1]]
        return True if all(inside) else None if any(inside) else False
    cs = cells(v, len(pat))
    at = atoms(v)
    if len(cs) < len(pat):
        return False
    cs = cs[-len(pat):] if end else cs[:len(pat)]
    if not pat:
        return True
    # a word of unknown length may be shorter than the cells looked at
    certain = True
    for (i, j, lit, alpha), ch in zip(cs, pat):
        if lit is None:
            if ch not in alpha:
                # the first cell of a word always exists, later ones only maybe
                if j == 0 and not end:
                    return False
                return False if at[i].args[2] is not None else _end_slow(v, pat, end)
            certain = False
        elif lit != ch:
            return False if certain else _end_slow(v, pat, end)
    return True if certain else _end_slow(v, pat, end)


def _end_slow(v, pat, end):
    """Tries all short lengths of the words."""
    at = atoms(v)
    res = set()

    def go(i, p):
        # can at[i..] (forward) start with pat[p:]?
        if p >= len(pat):
            res.add('yes')
            return
        if i >= len(at):
            res.add('no')
            return
        a = at[i] if not end else at[len(at) - 1 - i]
        if isinstance(a, C):
            s = a.v if not end else a.v[::-1]
            q = pat if not end else pat[::-1]
            n = min(len(s), len(q) - p)
            if s[:n] == q[p:p + n]:
                go(i + 1, p + n)
            else:
                res.add('no')
            return
        q = pat if not end else pat[::-1]
        n = a.args[2]
        if n is None:
            res.add('no')
        lo, hi = (n, n) if n is not None else (1, len(q) - p)
        for m in range(lo, hi + 1):
            if all(ch in a.args[1] for ch in q[p:p + m]):
                go(i + 1, p + m)
                if p < len(q):
                    res.add('no')
            else:
                res.add('no')
                break
    go(0, 0)
    if res == {'no'}:
        return False
    return None


def starts_with(v, pat):
    return _end(v, pat, False)


def ends_with(v, pat):
    return _end(v, pat, True)


def contains(v, pat):
    ms = matches(v, pat)
    return None if ms is None else bool(ms)


def strip_prefix(v, pat):
    r = starts_with(v, pat)
    if r is None:
        return None
    if not r:
        return NONE
    return some(drop(v, len(pat))) if isinstance(atoms(v)[0], C) else None


def strip_suffix(v, pat):
    r = ends_with(v, pat)
    if r is None:
        return None
    if not r:
        return NONE
    at = atoms(v)
    if isinstance(at[-1], C) and len(at[-1].v) >= len(pat):
        return some(mk(at[:-1] + [C(at[-1].v[:len(at[-1].v) - len(pat)])]))
    return None


def length(v):
    n = 0
    for a in atoms(v):
        if isinstance(a, C):
            n += len(a.v.encode())
        elif a.args[2] is None:
            return None
        else:
            n += a.args[2]
    return n


def minlen(v):
    return sum(len(a.v) if isinstance(a, C) else (a.args[2] or 1) for a in atoms(v))


def find(v, pat, last=False):
    """some(index) / NONE, or None when unknown."""
    ms = matches(v, pat)
    if ms is None:
        return None
    if not ms:
        return NONE
    b, _ = cut(v, ms[-1] if last else ms[0])
    n = length(b)
    return some(C(n) if n is not None else T('spos', b))


def chars_in(s, n):
    """How many characters the first n bytes of s are, or None when they end inside of one."""
    if s.isascii():
        return n
    for i in range(len(s) + 1):
        k = len(s[:i].encode())
        if k >= n:
            return i if k == n else None
    return None


def sub(v, lo, hi):
    """v[lo..hi] for constant or spos bounds; None when the shape does not tell."""
    at = atoms(v)

    def point(x):
        """(atom, offset) of a bound."""
        if x is None:
            return len(at), 0
        if isinstance(x, T) and x.op == 'spos':
            pa = atoms(x.args[0])
            # the prefix must literally be a prefix of v
            i = 0
            while i < len(pa) and i < len(at) and pa[i] == at[i]:
                i += 1
            if i == len(pa):
                return i, 0
            if i == len(pa) - 1 and isinstance(pa[i], C) and i < len(at) and isinstance(at[i], C) and at[i].v.startswith(pa[i].v):
                return i, len(pa[i].v)
            return None
        if isinstance(x, T) and x.op == 'Add' and isinstance(x.args[1], C):
            p = point(x.args[0])
            if p is None:
                return None
            i, o = p
            n = x.args[1].v
            while n:
                if i >= len(at) or not isinstance(at[i], C):
                    return None
                x = at[i].v
                have = len(x[:o].encode())
                k = min(n, len(x.encode()) - have)
                o = chars_in(x, have + k)
                if o is None:
                    return 'panic'
                n -= k
                if o == len(at[i].v):
                    i, o = i + 1, 0
            return i, o
        if not isinstance(x, C):
            return None
        n, i = x.v, 0
        while n and i < len(at):
            a = at[i]
            if isinstance(a, C):
                k = len(a.v.encode())
                if n < k:
                    o = chars_in(a.v, n)
                    return (i, o) if o is not None else 'panic'
                n -= k
            else:
                m = a.args[2]
                if m is None:
                    return None
                if n < m:
                    return i, n
                n -= m
            i += 1
        return (i, 0) if n == 0 else 'panic'

    a, b = point(lo), point(hi)
    if a is None or b is None:
        return None
    if a == 'panic' or b == 'panic' or a > b:
        return 'panic'
    (i, o), (j, p) = a, b
    out = []
    for k in range(i, min(j, len(at) - 1) + 1):
        x = at[k]
        s = o if k == i else 0
        t = p if k == j else None
        if isinstance(x, C):
            out.append(C(x.v[s:t]))
        elif s == 0 and t is None:
            out.append(x)
        elif t == 0:
            pass
        else:
            n = x.args[2]
            t2 = n if t is None else t
            if t2 > s:
                out.append(T('word', x.args[0] + '[%d..%d]' % (s, t2), x.args[1], t2 - s))
    return mk(out)


def could_equal(a, b):
    """False when no text of the words makes a and b the same; else None (or True when they are identical)."""
    if a == b:
        return True
    if isinstance(b, C):
        a, b = b, a
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v
    if isinstance(a, C):
        at = atoms(b)
        memo = {}

        def go(i, p):
            if i == len(at):
                return p == len(a.v)
            k = (i, p)
            if k in memo:
                return memo[k]
            x = at[i]
            if isinstance(x, C):
                r = a.v.startswith(x.v, p) and go(i + 1, p + len(x.v))
            else:
                n = x.args[2]
                r = False
                for m in ([n] if n is not None else range(1, len(a.v) - p + 1)):
                    if p + m <= len(a.v) and all(ch in x.args[1] for ch in a.v[p:p + m]) and go(i + 1, p + m):
                        r = True
                        break
            memo[k] = r
            return r
        return None if go(0, 0) else False
    la, lb = length(a), length(b)
    if la is not None and lb is not None and la != lb:
        return False
    pre, xa, xb, suf = strip_common(a, b)
    if not xa or not xb:
        if not xa and not xb:
            return True
        # words are not empty
        return False
    for i, j in ((0, 0), (-1, -1)):
        if isinstance(xa[i], C) and isinstance(xb[j], C):
            return False
        p, q = (xa, xb) if isinstance(xa[i], C) else (xb, xa)
        if isinstance(p[i], C) and p[i].v[i] not in q[j].args[1]:
            return False
    return None


def strip_common(a, b):
    """The atoms of two texts without what they have in common at their ends."""
    xa, xb = list(atoms(a)), list(atoms(b))

    def front(xs, ys):
        while xs and ys:
            x, y = xs[0], ys[0]
            if x == y:
                xs.pop(0)
                ys.pop(0)
            elif isinstance(x, C) and isinstance(y, C):
                n = 0
                while n < min(len(x.v), len(y.v)) and x.v[n] == y.v[n]:
                    n += 1
                if not n:
                    return
                for zs, z in ((xs, x), (ys, y)):
                    zs[0] = C(z.v[n:])
                    if not zs[0].v:
                        zs.pop(0)
            else:
                return
    front(xa, xb)

    def rev(xs):
        return [C(x.v[::-1]) if isinstance(x, C) else x for x in reversed(xs)]
    xa, xb = rev(xa), rev(xb)
    front(xa, xb)
    return None, rev(xa), rev(xb), None


def aligned(a, b):
    """Pairs of words which have to be equal for a and b to be equal."""
    _, xa, xb, _ = strip_common(a, b)
    out = []
    while xa and xb:
        x, y = xa[0], xb[0]
        if isinstance(x, C) or isinstance(y, C):
            break
        ends = []
        for w, r, o in ((x, xa, y), (y, xb, x)):
            nx = r[1].v[0] if len(r) > 1 and isinstance(r[1], C) else '' if len(r) == 1 else None
            ends.append(nx)
        both = x.args[1] + y.args[1]
        fixed = x.args[2] is not None and x.args[2] == y.args[2]
        if not fixed and (None in ends or any(n and n in both for n in ends)):
            break
        out.append((x, y))
        xa, xb = xa[1:], xb[1:]
        _, xa, xb, _ = strip_common(mk(xa), mk(xb)) if xa and xb else (None, xa, xb, None)
    return out


def lower(v):
    at = atoms(v)
    if all(isinstance(a, C) or a.args[1].lower() == a.args[1] for a in at):
        return mk([C(a.v.lower()) if isinstance(a, C) else a for a in at])
    return None


def upper(v):
    at = atoms(v)
    if all(isinstance(a, C) or a.args[1].upper() == a.args[1] for a in at):
        return mk([C(a.v.upper()) if isinstance(a, C) else a for a in at])
    return None


def trim(v, which):
    at = atoms(v)
    ws = ' \t\n\r\x0b\x0c'
    if any(is_word(a) and any(c in ws for c in a.args[1]) for a in at):
        return None
    at = list(at)
    if which != 'end' and isinstance(at[0], C):
        at[0] = C(at[0].v.lstrip())
    if which != 'start' and isinstance(at[-1], C):
        at[-1] = C(at[-1].v.rstrip())
    return mk(at)


def chars(v):
    out = []
    for a in atoms(v):
        if isinstance(a, C):
            out += [C(x) for x in a.v]
        elif a.args[2] is not None:
            out += [T('word', '%s[%d]' % (a.args[0], i), a.args[1], 1) for i in range(a.args[2])]
        else:
            out.append(T('word', a.args[0] + '[*]', a.args[1], 1))
    return out


def all_in(v, alphabet):
    """Are all characters of v in the alphabet: True, False or None."""
    r = True
    for a in atoms(v):
        if isinstance(a, C):
            if any(ch not in alphabet for ch in a.v):
                return False
        elif not any(ch in alphabet for ch in a.args[1]):
            return False
        elif any(ch not in alphabet for ch in a.args[1]):
            r = None
    return r
