"""Lock-scope dataflow over the MIR of every function, closure and async body of the shipped crates. (1) No value of a guard type
is among what the compiler keeps alive across an await. (2) Where a guard is alive, no call (itself, through workspace
functions, or through closures handed to it) takes the same lock again, and none blocks the thread. (3) Locks
of shared state are always taken in one order (no cycle). (4) The thread is blocked on a future only outside async code: in
synchronous entry points of the Python binding or on a thread of its own. Guards are followed through moves, iterators and drops; a lock is identified by the field it
lives in. The analysis is first tried on a sample with good and bad functions of each kind, all of which it has to tell apart."""
import re

from .. import facts as F
from ..locks import Locks, cycles, names, WAIT
from ..mir import World
from .common import *


def sample():
    w = World(F.sample('locks'), ['locks'])
    L = Locks(w)
    bad, edges = set(), set()
    for f in w.fns.values():
        ps, es, _ = L.problems(f)
        edges |= es
        m = re.search(r'State::(\w+)', f.path)
        if m and ps:
            bad.add(m.group(1))
    for a, path in cycles(edges):
        bad |= {'bad_order_1', 'bad_order_2'}
    want = {m.group(1) for f in w.fns.values() for m in [re.search(r'State::(bad_\w+)', f.path)] if m}
    if bad != want:
        raise Undecided('on the sample: missed %s, wrong %s' % (sorted(want - bad), sorted(bad - want)))
    return '%d bad functions told from the good ones' % len(bad)


def check(c):
    w = c.w
    c.rule('self-test', 'sample of good and bad uses', sample)
    if c.rules['self-test']['undecided']:
        return
    L = Locks(w)
    edges, sites = set(), 0
    for f in sorted(w.fns.values(), key=lambda f: f.id):
        def one():
            nonlocal edges, sites
            ps, es, n = L.problems(f)
            edges |= es
            sites += n
            if ps:
                raise Bad('%s %s' % (f.path, ps[0][1]), f.loc(ps[0][2]), ['%s: %s (%s)' % (k, m, f.loc(l)) for k, m, l in ps])
            return '%s: %d places that take locks' % (f.path, n) if n else None
        c.rule('await' if f.saved else 'nested', f.id, one)

    def order():
        cs = cycles(edges)
        if cs:
            a, path = cs[0]
            raise Bad('locks are taken in both orders: ' + '; '.join('%s then %s at %s' % (names({x}), names({y}), at) for x, y, at in path), path[0][2])
        return '%d pairs held together' % len(edges)
    c.rule('order', 'one order of locks', order)

    # ---- blocking the thread
    async_reach = set()
    todo = [f.id for f in w.fns.values() if f.kind == 'coroutine' and f.crate != 'hudi_python']
    spawned = set()
    for f in w.fns.values():
        for _, t, k, _ in w.calls(f):
            if k and re.search(r'thread::(functions::)?(spawn|Builder::spawn\w*)$|thread::scoped::Scope::spawn$|spawn_blocking$', L.callee(t)[1]):
                spawned |= set(L.closures(f, t))
    while todo:
        x = todo.pop()
        if x in async_reach or x not in w.fns or x in spawned:
            continue
        async_reach.add(x)
        todo += list(w.referenced(w.fns[x]) - spawned)
    n = 0
    for f in sorted(w.fns.values(), key=lambda f: f.id):
        for _, t, k, cl in w.calls(f):
            p = L.callee(t)[1]
            if cl or not k or not p.endswith('::block_on'):
                continue
            n += 1

            def blk():
                g = f
                chain = set()
                while g is not None:
                    chain.add(g.id)
                    g = w.fns.get(g.parent)
                if chain & spawned:
                    return '%s on a thread of its own' % f.path
                if f.id in async_reach:
                    raise Bad('%s blocks a thread that runs async code' % f.path, f.loc(t[5]))
                if f.crate == 'hudi_python':
                    return '%s: synchronous entry point' % f.path
                raise Undecided('%s may be called by async code' % f.loc(t[5]))
            c.rule('blocking', '%s#%d' % (f.id, n), blk)

    def sees():
        if sites < 3:
            raise Undecided('only %d places that take locks' % sites)
        return '%d places take locks, %d async bodies' % (sites, sum(1 for f in w.fns.values() if f.saved))
    c.rule('self-test', 'locks are visible', sees)
    c.floor('await', 60)
    c.floor('nested', 500)
    c.floor('blocking', 10)
