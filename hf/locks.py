"""Which locks are held where: dataflow over MIR. A guard is a value of a guard type (or one that carries it, such as an
iterator over a locked map). For every body the guards alive at each call are computed; a call acquires locks itself, through
the workspace functions it reaches, or through closures it is given."""
import re

from .mir import strip_generics

GUARD = re.compile(r'dashmap::(mapref|setref|iter::(?!OwningIter)|iter_set::(?!OwningIter))|(Mutex|RwLock\w*)Guard\b|RwLock(Read|Write)Guard|MappedMutexGuard|SemaphorePermit')
ACQ = re.compile(r'(Dash(Map|Set)::(get|get_mut|entry|insert|remove|remove_if|remove_if_mut|iter|iter_mut|contains_key|contains|retain|alter|alter_all|view|len|is_empty|clear|shrink_to_fit|extend|into_read_only_|get_or_insert\w*)|'
                 r'(Mutex|RwLock|FairMutex|ReentrantMutex)::(lock|read|write|blocking_lock|blocking_read|blocking_write|lock_owned|read_owned|write_owned|upgradable_read)|'
                 r'(OnceLock|OnceCell|LazyLock|LazyCell|Once)::(get_or_init|get_or_try_init|call_once|force))$')
WAIT = re.compile(r'(::block_on|thread::join_handle::JoinHandle::join|JoinHandle::join|mpsc::Receiver::recv|Condvar::wait|Barrier::wait|thread::sleep|blocking_recv|block_in_place)$')
THROUGH = re.compile(r'(Deref::deref|DerefMut::deref_mut|Clone::clone|Borrow::borrow|AsRef::as_ref|Arc::clone|Arc::as_ref|Pin::new|Pin::new_unchecked|into_iter|convert::From::from|Into::into|Arc::new)$')


class Locks:
    def __init__(self, w):
        self.w = w
        self.sums = {}
        self.defs = {}
        self.makers = {}
        for f in w.fns.values():
            for b in f.body['b']:
                for st in b['s']:
                    if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] in ('closure', 'coroutine'):
                        self.makers[st[2][1][1]] = (f, st[2][2])

    # ---- types and places -----------------------------------------------------------------------
    def tys(self, f, l):
        return f.types[f.body['l'][l][0]]['s']

    def guardy(self, f, l):
        return bool(GUARD.search(self.tys(f, l)))

    def defs_of(self, f):
        d = self.defs.get(f.id)
        if d is None:
            d = {}
            for b in f.body['b']:
                for st in b['s']:
                    if st[0] == '=' and not st[1][1]:
                        d.setdefault(st[1][0], []).append(st[2])
                t = b['t']
                if t[0] == 'call' and not t[3][1]:
                    d.setdefault(t[3][0], []).append(('call', t))
            self.defs[f.id] = d
        return d

    def root(self, f, place, depth=0):
        """Where the lock behind a place lives: ('field', name, type), ('param', n), ('local', fn, n) or ('static', x)."""
        l, projs = place
        if depth > 24:
            return ('local', f.id, l)
        caps = f.kind in ('closure', 'coroutine') and l == 1
        fields = [p for p in projs if p != '*' and p[0] == 'f']
        if caps and fields:
            if len([p for p in fields if len(p) > 2]) and len(fields) > 1:
                return ('field', [p for p in fields if len(p) > 2][-1][2])
            mk = self.makers.get(f.id)
            n = fields[0][1]
            if mk and n < len(mk[1]) and mk[1][n][0] in ('cp', 'mv'):
                return self.root(mk[0], mk[1][n][1], depth + 1)
            return ('local', f.id, 'capture %s' % n)
        named = [p for p in fields if len(p) > 2 and not str(p[2]).isdigit()]
        if named:
            return ('field', named[-1][2])
        ds = self.defs_of(f).get(l, [])
        if not ds:
            return ('param', f.id, l) if 1 <= l <= f.body['n'] else ('local', f.id, l)
        roots = set()
        for r in ds:
            if r[0] == 'use' or r[0] == 'cast':
                o = r[1] if r[0] == 'use' else r[2]
                if o[0] in ('cp', 'mv'):
                    roots.add(self.root(f, o[1], depth + 1))
                elif o[0] == 'k':
                    roots.add(('static', str(o[1].get('st') or o[1].get('s') or o[1].get('pr') or f.id)))
            elif r[0] == 'ref':
                roots.add(self.root(f, r[2], depth + 1))
            elif r[0] == 'call':
                t = r[1]
                k = t[1][1] if t[1][0] == 'k' else None
                p = strip_generics(k.get('f', '')) if k else ''
                if THROUGH.search(p) and t[2] and t[2][0][0] in ('cp', 'mv') and not self.deep_clone(f, p, t):
                    roots.add(self.root(f, t[2][0][1], depth + 1))
                else:
                    roots.add(('local', f.id, l))
            else:
                roots.add(('local', f.id, l))
        return roots.pop() if len(roots) == 1 else ('local', f.id, l)

    def deep_clone(self, f, p, t):
        if not p.endswith('Clone::clone'):
            return False
        return 'Arc<' not in self.tys(f, t[3][0]) and 'Rc<' not in self.tys(f, t[3][0]) and not self.tys(f, t[3][0]).startswith('&')

    def callee(self, t):
        k = t[1][1] if t[1][0] == 'k' else None
        return (k, strip_generics(k.get('f', ''))) if k else (None, '')

    def acquires_here(self, f, t):
        """Root of the lock this call takes itself, or None."""
        k, p = self.callee(t)
        if not k or not t[2] or t[2][0][0] not in ('cp', 'mv'):
            return None
        a = t[2][0][1]
        ty = f.types[f.body['l'][a[0]][0]]['s'] if not a[1] else ''
        if ACQ.search(p) or (p.endswith('into_iter') and re.match(r'&.*Dash(Map|Set)<', ty)):
            return self.root(f, a)
        return None

    def closures(self, f, t):
        """Closures and coroutines of the workspace given to a call."""
        out = []
        for a in t[2]:
            if a[0] in ('cp', 'mv') and not a[1][1]:
                ty = f.types[f.body['l'][a[1][0]][0]]
                if ty.get('k') in ('closure', 'coroutine') and ty['d'] in self.w.fns:
                    out.append(ty['d'])
            elif a[0] == 'k' and 'f' in a[1] and (a[1].get('ri') or a[1].get('fi')) in self.w.fns:
                out.append(a[1].get('ri') or a[1].get('fi'))
        return out

    def subst(self, f, t, gid, roots):
        out = set()
        for r in roots:
            if r[0] == 'param' and r[1] == gid:
                n = r[2] - 1
                if n < len(t[2]) and t[2][n][0] in ('cp', 'mv'):
                    out.add(self.root(f, t[2][n][1]))
            elif r[0] == 'param':
                out.add(r)
            elif r[0] != 'local' or True:
                out.add(r)
        return out

    def acquired(self, f, t, own=True):
        """Roots of all locks a call may take."""
        out = set()
        r = self.acquires_here(f, t) if own else None
        if r:
            out.add(r)
        k, p = self.callee(t)
        gid = k and (k.get('ri') if k.get('ri') in self.w.fns else k.get('fi'))
        if gid in self.w.fns:
            out |= self.subst(f, t, gid, self.summary(gid))
        return out

    def in_closures(self, f, t):
        out = set()
        for g in self.closures(f, t):
            out |= self.summary(g)
        return out

    def summary(self, gid):
        s = self.sums.get(gid)
        if s is not None:
            return s
        self.sums[gid] = set()
        f = self.w.fns[gid]
        for _ in range(2):
            out = set()
            for b in f.body['b']:
                if b.get('c'):
                    continue
                t = b['t']
                if t[0] == 'call':
                    out |= self.acquired(f, t) | self.in_closures(f, t)
                for st in b['s']:
                    if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'coroutine' and st[2][1][1] in self.w.fns and st[2][1][1] != gid:
                        out |= self.summary(st[2][1][1])
            self.sums[gid] = {r for r in out if not (r[0] == 'local' and r[1] == gid)}
        return self.sums[gid]

    # ---- guards alive ---------------------------------------------------------------------------
    def base(self, f, l, depth=0):
        """The local a reference points to."""
        if depth > 12:
            return l
        ds = self.defs_of(f).get(l, [])
        if len(ds) == 1:
            r = ds[0]
            if r[0] == 'ref':
                return self.base(f, r[2][0], depth + 1)
            if r[0] == 'use' and r[1][0] in ('cp', 'mv') and self.tys(f, l).startswith('&'):
                return self.base(f, r[1][1][0], depth + 1)
        return l

    def flow(self, f):
        """[(block, call, {local: roots} alive before it)]"""
        n = len(f.body['b'])
        ins = [None] * n
        ins[0] = {}
        todo, calls = [0], {}
        while todo:
            b = todo.pop()
            cur = {k: set(v) for k, v in ins[b].items()}
            blk = f.body['b'][b]
            for st in blk['s']:
                if st[0] != '=':
                    continue
                self.assign(f, cur, st)
            t = blk['t']
            nxt = []
            if t[0] == 'call':
                calls[b] = (t, {k: set(v) for k, v in cur.items()})
                own = self.acquires_here(f, t)
                roots = {own} if own else set()
                for a in t[2]:
                    if a[0] in ('cp', 'mv'):
                        roots |= cur.get(self.base(f, a[1][0]), set())
                for a in t[2]:
                    if a[0] == 'mv':
                        cur.pop(a[1][0], None)
                d = t[3][0]
                if not t[3][1]:
                    cur.pop(d, None)
                if roots and self.guardy(f, d):
                    cur.setdefault(d, set()).update(roots)
                nxt = [t[4]] if isinstance(t[4], int) else []
            elif t[0] == 'drop':
                if not t[1][1]:
                    cur.pop(t[1][0], None)
                nxt = [t[2]]
            elif t[0] == 'switch':
                nxt = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == 'assert':
                nxt = [t[3]]
            elif t[0] == 'yield':
                nxt = [t[2]]
            elif t[0] == 'goto':
                nxt = [t[1]]
            else:
                nxt = [x for x in t[1:] if isinstance(x, int)][:2] if t[0] not in ('ret', 'unreachable', 'resume', 'cordrop') else []
            for x in nxt:
                if not isinstance(x, int) or x >= n or f.body['b'][x].get('c'):
                    continue
                if ins[x] is None:
                    ins[x] = {k: set(v) for k, v in cur.items()}
                    todo.append(x)
                else:
                    ch = False
                    for k, v in cur.items():
                        if not v <= ins[x].get(k, set()):
                            ins[x].setdefault(k, set()).update(v)
                            ch = True
                    if ch:
                        todo.append(x)
        return [(b, t, live) for b, (t, live) in sorted(calls.items())]

    def assign(self, f, cur, st):
        d, r = st[1], st[2]
        ops = []
        if r[0] == 'use':
            ops = [r[1]]
        elif r[0] == 'cast':
            ops = [r[2]]
        elif r[0] == 'agg':
            ops = list(r[2])
        roots = set()
        for o in ops:
            if o[0] == 'mv':
                x = cur.pop(o[1][0], None)
                if x:
                    roots |= x
        if not d[1]:
            cur.pop(d[0], None)
        if roots:
            cur.setdefault(d[0], set()).update(roots)

    # ---- verdicts -------------------------------------------------------------------------------
    def problems(self, f):
        """[(kind, message, line)], and the edges held -> taken."""
        out, edges, ncalls = [], set(), 0
        for line, kept in f.saved:
            for t, l in kept:
                s = f.types[t]['s']
                if GUARD.search(s):
                    out.append(('await', 'holds %s while it waits' % short(s), l))
        for b, t, live in self.flow(f):
            k, p = self.callee(t)
            own = self.acquires_here(f, t)
            got = self.acquired(f, t)
            inner = self.in_closures(f, t)
            if not (got or inner or WAIT.search(p)):
                continue
            ncalls += 1
            held = set()
            for l, rs in live.items():
                moved = any(a[0] == 'mv' and a[1][0] == l for a in t[2])
                if not moved:
                    held |= rs
            during = set(held)
            for a in t[2]:
                if a[0] in ('cp', 'mv'):
                    during |= live.get(self.base(f, a[1][0]), set())
            if own:
                during.add(own)
            if WAIT.search(p) and held:
                out.append(('wait', 'waits in %s while it holds %s' % (p, names(held)), t[5]))
            hit = (got & held) | (inner & during)
            if hit:
                out.append(('nested', 'takes %s in %s while it already holds it' % (names(hit), p), t[5]))
            for h in held:
                for g in got:
                    edges.add((h, g, f.loc(t[5])))
            for h in during:
                for g in inner:
                    edges.add((h, g, f.loc(t[5])))
        return out, {e for e in edges if e[0] != e[1]}, ncalls


def short(s):
    return re.sub(r'\b\w+::', '', s)[:120]


def names(rs):
    return ', '.join(sorted('%s' % (r[1] if r[0] == 'field' else 'local _%s' % r[-1]) for r in rs))


def cycles(edges):
    """Cycles of length two or more between locks that are not local to one function."""
    g = {}
    for a, b, at in edges:
        if a[0] in ('field', 'static') and b[0] in ('field', 'static'):
            g.setdefault(a, {})[b] = at
    out = []
    for a in g:
        seen, todo = {}, [(a, [])]
        while todo:
            x, path = todo.pop()
            for y, at in g.get(x, {}).items():
                if y == a:
                    out.append((a, path + [(x, y, at)]))
                elif y not in seen:
                    seen[y] = 1
                    todo.append((y, path + [(x, y, at)]))
    return out
