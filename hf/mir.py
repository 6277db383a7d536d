"""Loaded facts: functions, data types, call graph."""
import json, os, re
from . import facts as F

_gen = re.compile(r'::<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>')


def strip_generics(p):
    """Removes the generic arguments printed in a def path (`Option::<T>::map` -> `Option::map`)."""
    if '<' not in p:
        return p
    out, i, depth = [], 0, 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d, j = 0, i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class Fn:
    __slots__ = ('id', 'path', 'kind', 'crate', 'file', 'line', 'raw', 'body', 'promoted', 'types', 'name',
                 'trait', 'self_ty', 'reach', 'upvars', 'exp', 'parent', 'params', 'is_async', 'saved', 'ret', 'pub', 'targs')

    def __init__(self, raw, crate, types):
        self.id = raw['i']
        self.path = strip_generics(raw['p'])
        self.kind = raw['kind']
        self.crate = crate
        self.file, self.line = raw['span']
        self.raw = raw
        self.body = raw['body']
        self.promoted = raw.get('promoted', [])
        self.types = types
        self.name = raw.get('name')
        self.trait = raw.get('trait')
        self.targs = raw.get('targs')
        self.self_ty = raw.get('self')
        self.reach = raw.get('reach', False)
        self.pub = raw.get('pub', False)
        self.upvars = raw.get('upvars', [])
        self.exp = raw.get('exp', False)
        self.parent = raw.get('parent')
        self.params = raw.get('params', [])
        self.is_async = raw.get('async', False)
        self.saved = raw.get('saved', [])
        self.ret = raw.get('ret')

    def ty(self, n):
        return self.types[n]

    def loc(self, line=None):
        f = self.file
        if f.startswith(F.REPO + '/'):
            f = f[len(F.REPO) + 1:]
        return '%s:%s' % (f, line if line is not None else self.line)


class World:
    def __init__(self, d=None, crates=None):
        d = d or F.ensure()
        self.dir = d
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.crates = {}
        self.unsafe = []
        for c in crates or F.CRATES:
            raw = json.load(open(os.path.join(d, c + '.json')))
            self.crates[c] = raw
            types = raw['types']
            for t in types:
                if 'd' in t:
                    t['d'] = strip_generics(t['d'])
            for f in raw['fns']:
                fn = Fn(f, c, types)
                self.fns[fn.id] = fn
            for a in raw['adts']:
                a['d'] = strip_generics(a['d'])
                if a['d'] not in self.adts or a['local']:
                    self.adts[a['d']] = a
                    a['types'] = types
            for im in raw['impls']:
                im['crate'] = c
                im['types'] = types
                if 'trait' in im:
                    im['trait'] = strip_generics(im['trait'])
                self.impls.append(im)
            for u in raw['unsafe']:
                u['crate'] = c
                self.unsafe.append(u)
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)
        self.children = {}
        for f in self.fns.values():
            if f.parent:
                self.children.setdefault(f.parent, []).append(f)
        self._callers = None

    # ---- lookup -------------------------------------------------------------------------------
    def fn(self, path):
        """The function with this (generic-free) path, or None."""
        c = self.by_path.get(path)
        return c[0] if c else None

    def method(self, self_ty, name, trait=None):
        """Method `name` of the type whose printed name is/ends with self_ty (inherent or trait impl)."""
        out = []
        for f in self.fns.values():
            if f.name != name or f.self_ty is None:
                continue
            t = f.types[f.self_ty]
            d = t.get('d', t['s'])
            if d != self_ty and not d.endswith('::' + self_ty):
                continue
            if trait is None and f.trait is not None:
                continue
            if trait is not None and not (f.trait or '').endswith(trait):
                continue
            out.append(f)
        return out

    def adt(self, name):
        for d, a in self.adts.items():
            if d == name or d.endswith('::' + name):
                return a
        return None

    # ---- call graph ---------------------------------------------------------------------------
    def calls(self, f):
        """Yields (block, terminator, const dict or None) for every call in f's own body."""
        for n, b in enumerate(f.body['b']):
            t = b['t']
            if t[0] == 'call':
                op = t[1]
                yield n, t, (op[1] if op[0] == 'k' else None), b.get('c', False)

    def referenced(self, f):
        """Ids of workspace functions, closures and constants that f mentions."""
        out = set()

        def opnd(o):
            if o[0] == 'k':
                c = o[1]
                for k in ('ri', 'fi', 'u', 'ui', 'st'):
                    if k in c and c[k] in self.fns:
                        out.add(c[k])
                for g in c.get('ga', []):
                    tyref(g)

        seen = set()

        def tyref(n):
            if n in seen:
                return
            seen.add(n)
            t = f.types[n]
            if t.get('k') in ('closure', 'coroutine') and t['d'] in self.fns:
                out.add(t['d'])
            if t.get('k') == 'fndef' and t.get('i') in self.fns:
                out.add(t['i'])
            for a in t.get('a', []):
                tyref(a)
            if 't' in t:
                tyref(t['t'])

        def rv(r):
            k = r[0]
            if k in ('use',):
                opnd(r[1])
            elif k == 'rep':
                opnd(r[1])
            elif k == 'cast':
                opnd(r[2])
            elif k == 'bin':
                opnd(r[2]); opnd(r[3])
            elif k == 'un':
                opnd(r[2])
            elif k == 'agg':
                if r[1][0] in ('closure', 'coroutine') and r[1][1] in self.fns:
                    out.add(r[1][1])
                for o in r[2]:
                    opnd(o)

        for body in [f.body] + list(f.promoted):
            for b in body['b']:
                for st in b['s']:
                    if st[0] == '=':
                        rv(st[2])
                t = b['t']
                if t[0] == 'call':
                    opnd(t[1])
                    for a in t[2]:
                        opnd(a)
                elif t[0] == 'switch':
                    opnd(t[1])
        return out

    def reach(self, roots, extra=None):
        seen, todo = set(), list(roots)
        while todo:
            x = todo.pop()
            if x in seen or x not in self.fns:
                continue
            seen.add(x)
            todo.extend(self.referenced(self.fns[x]))
        return seen

    def family(self, f):
        """f and all closures / async bodies nested in it."""
        out, todo = [], [f]
        while todo:
            x = todo.pop()
            out.append(x)
            todo.extend(self.children.get(x.id, []))
        return out


def pretty(f, body=None, out=None):
    """Text form of a body, for reading."""
    T = f.types
    body = body or f.body
    ls = []

    def pl(p):
        s = '_%d' % p[0]
        nm = body['l'][p[0]]
        if len(nm) > 1:
            s += '(' + nm[1] + ')'
        for e in p[1]:
            if e == '*':
                s = '*' + s
            elif e[0] == 'f':
                s += '.' + (e[2] if len(e) > 2 else str(e[1]))
            elif e[0] == 'v':
                s += ' as ' + e[2]
            else:
                s += str(e)
        return s

    def op(o):
        if o[0] in ('cp', 'mv'):
            return ('' if o[0] == 'cp' else 'move ') + pl(o[1])
        if o[0] == 'k':
            c = o[1]
            if 'f' in c:
                return strip_generics(c.get('r', c['f'])) + ('' if 'r' in c else '')
            for k in ('s', 'n', 'up', 'st', 'b', 'x', 'p'):
                if k in c:
                    return '%s%s' % (repr(c[k]), ('#%s' % c['pr']) if 'pr' in c else '')
            return T[c['t']]['s']
        return str(o)

    def rv(r):
        if r[0] == 'use':
            return op(r[1])
        if r[0] == 'ref':
            return ('&mut ' if r[1] else '&') + pl(r[2])
        if r[0] == 'bin':
            return '%s(%s, %s)' % (r[1], op(r[2]), op(r[3]))
        if r[0] == 'un':
            return '%s(%s)' % (r[1], op(r[2]))
        if r[0] == 'disc':
            return 'disc(%s)' % pl(r[1])
        if r[0] == 'cast':
            return 'cast[%s](%s)' % (r[1], op(r[2]))
        if r[0] == 'agg':
            h = r[1]
            nm = h[0] if h[0] not in ('adt', 'closure', 'coroutine') else h[1] + ('::' + h[2] if h[0] == 'adt' else '')
            return '%s{%s}' % (nm, ', '.join(op(o) for o in r[2]))
        return str(r)

    ls.append('fn %s [%s] %s' % (f.path, f.id, f.kind))
    for n, l in enumerate(body['l']):
        ls.append('  let _%d%s: %s' % (n, '(' + l[1] + ')' if len(l) > 1 else '', T[l[0]]['s'][:160]))
    for n, b in enumerate(body['b']):
        if b.get('c'):
            continue
        ls.append(' bb%d:' % n)
        for st in b['s']:
            if st[0] == '=':
                ls.append('   %s = %s' % (pl(st[1]), rv(st[2])))
        t = b['t']
        if t[0] == 'call':
            ls.append('   %s = %s(%s) -> %s  [%s]' % (pl(t[3]), op(t[1]), ', '.join(op(a) for a in t[2]), t[4], t[5]))
        elif t[0] == 'switch':
            ls.append('   switch %s %s else %s' % (op(t[1]), t[2], t[3]))
        elif t[0] == 'drop':
            ls.append('   drop %s -> %s' % (pl(t[1]), t[2]))
        elif t[0] == 'assert':
            ls.append('   assert %s==%s %s -> %s' % (op(t[1]), t[2], t[4], t[3]))
        else:
            ls.append('   ' + str(t))
    return '\n'.join(ls)
