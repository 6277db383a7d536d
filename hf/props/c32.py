"""Query over the compiler's HIR of every crate shipped (hudi_core, hudi_datafusion, hudi, the Python binding): unsafe blocks,
unsafe functions and impls, foreign modules, unions and mutable statics whose span lies in the workspace's own code or in a
macro the workspace defines; code written by macros of other crates (pyo3, derive) is theirs. A second query looks for the
keyword in the tokens of all source files, so that code not compiled for this platform or feature set is covered too. Both
queries expect nothing, so each is first tried on samples in which it has to find something."""
import os

from .. import facts as F
from .. import rustlex
from .common import *

SAMPLE = '''
// unsafe
/* unsafe /* unsafe */ */
fn a() { let s = "unsafe"; let r = r#"unsafe " unsafe"#; let c = 'u'; let l: &'static str = s; }
#![forbid(unsafe_code)]
unsafe fn b() {}
fn c<'unsafe_>() { unsafe { b() } }
'''


def keyword(text):
    return [line for k, s, line in rustlex.lex(text) if k == 'word' and s == 'unsafe']


def check(c):
    w = c.w

    def lexer():
        if keyword(SAMPLE) != [6, 7]:
            raise Undecided('the lexer finds %s' % keyword(SAMPLE))
    c.rule('self-test', 'keyword query', lexer)

    def seen():
        n = sum(1 for u in w.unsafe if u['expansion'] and u['macro_crate'] not in ('',))
        if n < 10:
            raise Undecided('the HIR query sees only %d unsafe uses of expanded macros (pyo3 writes many)' % n)
        return '%d unsafe uses written by macros of other crates are visible to the query' % n
    c.rule('self-test', 'HIR query', seen)
    own = [u for u in w.unsafe if not u['expansion'] or u['macro_crate'] == '?' or u['macro_crate'].startswith('hudi') or u['macro_crate'] == '_internal']
    for k in F.CRATES:
        def crate():
            us = [u for u in own if u['crate'] == k]
            if us:
                u = us[0]
                raise Bad('unsafe %s in %s' % (u['kind'], u['in']), '%s:%s' % tuple(u['span']), ['%s %s:%s' % (x['in'], *x['span']) for x in us[:20]])
            return '%d functions' % sum(1 for f in w.fns.values() if f.crate == k)
        c.rule('hir', k, crate)
    n = 0
    for top in ('crates', 'python'):
        for f in F._files(os.path.join(F.REPO, top), ('.rs',)):
            rel = f[len(F.REPO) + 1:]
            if '/tests/' in rel or '/benches/' in rel or '/examples/' in rel:
                continue
            n += 1

            def file():
                at = keyword(open(f, encoding='utf-8', errors='replace').read())
                if at:
                    raise Bad('the keyword unsafe is used', '%s:%d' % (rel, at[0]), ['lines %s' % at])
            c.rule('source', rel, file)
    c.floor('source', 40)
    c.floor('hir', 4)
