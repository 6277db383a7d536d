"""Abstract interpretation of every public query, the builder, the log reader, the Avro decoder and the DataFusion provider on
well-formed and malformed tables (file names, timeline files, commit metadata, properties, log blocks, storage that fails at
each operation) and arguments. Whatever the result is, no path may reach a panic: a failed assertion of the compiler (bounds,
overflow, division), unwrap, expect, an index or slice operation out of range, a panicking library call. Loops and streams
must end. The scenarios of the other properties are interpreted again with that judge, and the panicking constructs of all
functions reachable from the public interface are listed with the scenarios' coverage of them."""
import importlib
import multiprocessing as mp
import os
import re


from .. import check as CK
from ..mir import strip_generics
from .common import *
import time as clock

MODULES = ['c24', 'm13b', 'm13c', 'c28', 'c16', 'c26', 'c27', 'c12', 'c21', 'c10', 'c22', 'c23', 'c18', 'c04', 'c03', 'c06', 'c14', 'c05', 'c02', 'c01', 'c20', 'c09', 'c30', 'c08', 'c11', 'c07', 'c29', 'c31', 'm13a']
SETTLED = {'url::Url::parse', 'hudi_core::storage::util::parse_uri'}


class Panics(CK.Ctx):
    """Runs the scenarios of another module; the only question is whether a path panics."""

    def __init__(self, w, module, tier):
        self.w, self.module = w, module
        self.pid, self.tier, self.strict = 'C13', tier, False
        self.rules, self.problems, self.undecided, self.samples, self.assumptions = {}, [], [], [], []
        self.fns, self.unmodeled, self.steps, self.paths, self.floors = set(), {}, 0, 0, []
        self.blocks = set()
        self._on = False

    def note_engine(self, e):
        CK.Ctx.note_engine(self, e)
        self.blocks |= e.visited

    def outcomes(self, rule, key, run, judge, allow=(), panics=True, least=1, where=None):
        self._on = True
        try:
            CK.Ctx.outcomes(self, self.module, '%s: %s' % (rule, key), run, ends, allow, True, 0, where)
        finally:
            self._on = False

    def rule(self, rule, key, fn):
        if self._on:
            CK.Ctx.rule(self, rule, key, fn)

    def panic_ok(self, s, fn):
        """A path on which a function of the text of the base path alone fails although it did not fail when the table was opened."""
        return any(w[0] == 'fault' and val and w[1].v in SETTLED for w, val in s.facts.trail if isinstance(w, tuple))

    def also(self, module, *rules):
        pass

    def floor(self, rule, n):
        pass

    def ok(self, *a, **k):
        if self._on:
            CK.Ctx.ok(self, *a, **k)

    def bad(self, *a, **k):
        if self._on:
            CK.Ctx.bad(self, *a, **k)

    def undec(self, *a, **k):
        if self._on:
            CK.Ctx.undec(self, *a, **k)


def ends(s, v):
    """A stream that polls no more than 0 of its futures at a time never ends."""
    for ev in s.events():
        if ev[0] == 'buffer' and ev[1] == C(0):
            return 'does not end: a stream that runs 0 futures at a time, %s' % ev[2].path
    return None


def work(a):
    w, m, tier = W[0], a, TIER[0]
    t = clock.time()
    c = Panics(w, m, tier)
    err = None
    try:
        importlib.import_module('hf.props.' + m).check(c)
    except Exception as ex:
        err = '%s: %s' % (type(ex).__name__, ex)
    return m, c.rules, c.problems, c.undecided, c.samples, c.fns, c.unmodeled, c.steps, c.paths, c.blocks, err, clock.time() - t


W, TIER = [None], ['quick']


def check(c):
    W[0], TIER[0] = c.w, c.tier
    visited = set()
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        for m, rules, problems, undecided, samples, fns, unm, steps, paths, blocks, err, secs in pool.imap_unordered(work, MODULES, 1):
            for r, n in rules.items():
                c.rules[r] = n
            c.problems += problems
            c.undecided += undecided
            c.samples += samples[:1]
            c.fns |= fns
            c.steps += steps
            c.paths += paths
            for k, v in unm.items():
                c.unmodeled[k] = c.unmodeled.get(k, 0) + v
            visited |= blocks
            if os.environ.get('C13_TIMES'):
                print(m, '%.1f s' % secs, rules)
            if err:
                c.undec(m, 'scenarios', err)
    sites(c, visited)


PANIC = re.compile(r'::(unwrap|expect|unwrap_err|expect_err|index|index_mut|split_at|split_off|copy_from_slice|swap_remove|split_to)$|^(core|std|alloc)::panicking|^std::rt::panic')


def sites(c, visited):
    """The panicking constructs of the functions the scenarios reached, and whether a scenario reached the construct itself."""
    n = seen = 0
    left = []
    for f in c.w.fns.values():
        if not f.body or f.crate == 'hudi' or f.id not in c.fns:
            continue
        for i, b in enumerate(f.body['b']):
            if b.get('c'):
                continue
            t = b['t']
            k = t[1][1] if t[0] == 'call' and t[1][0] == 'k' else None
            if t[0] == 'assert' or k and 'f' in k and PANIC.search(strip_generics(k['f'])):
                n += 1
                if (f.id, i) in visited:
                    seen += 1
                else:
                    left.append('%s %s' % (f.path, f.loc(t[5] if t[0] == 'call' else t[-1] if isinstance(t[-1], int) else f.line)))
    c.ok('sites', '%d panicking constructs in the functions reached' % n, '%d of them interpreted; the rest not reached by any scenario: %s' % (seen, '; '.join(left[:40])))
    c.samples.insert(0, c.samples.pop())
    if os.environ.get('C13_TIMES'):
        print(n, seen, *left, sep='\n')
