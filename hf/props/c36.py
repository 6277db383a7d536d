"""Abstract interpretation of the reading of an instant's metadata (Timeline::get_instant_metadata_in_json) for every action, state
and timestamp width: the answer is the content of the one file of .hoodie that belongs to that time, action and state, byte for
byte and for texts of unknown content, among the files of the other actions, states and times; a file that is not there, cannot be
read or is not text is an error and never an empty or another file's content."""
from .tables import *
from ..val import T

FILES = {('Commit', 'Completed'): '.commit', ('Commit', 'Inflight'): '.inflight', ('Commit', 'Requested'): '.commit.requested',
         ('DeltaCommit', 'Completed'): '.deltacommit', ('DeltaCommit', 'Inflight'): '.deltacommit.inflight', ('DeltaCommit', 'Requested'): '.deltacommit.requested',
         ('ReplaceCommit', 'Completed'): '.replacecommit', ('ReplaceCommit', 'Inflight'): '.replacecommit.inflight', ('ReplaceCommit', 'Requested'): '.replacecommit.requested'}


def badtext(s):
    return any(isinstance(k, tuple) and k[0] == 'var' and isinstance(k[1], T) and k[1].op == 'utf8' and n == 1 for k, n in s.facts.trail)


def inner(v):
    """The bytes that a text was decoded from."""
    while isinstance(v, T) and v.op in ('utf8', 'f', 'v'):
        v = v.args[0]
    return v


def check(c):
    w = c.w
    t1, t2, s1 = ts('t1'), ts('t2'), ts('s1', 14)
    TXT = word('content', S.ALNUM + '{}":, ')
    texts = [('text', TXT), ('text with line ends', cat('{\n', TXT, '\n}\n')), ('blanks around', cat('  ', TXT, ' \n')), ('empty', C('')), ('an empty object', C('{}')), ('an object', T('json', jval({'operationType': 'UPSERT', 'n': 7})))]

    def run_(a, b, t, body=None, fail=False, gone=False):
        data = {cat('.hoodie/', t, x): C('other') for x in FILES.values() if x != FILES[a, b]}
        data.update({cat('.hoodie/', t2, x): C('another time') for x in FILES.values()})
        if body is not None:
            data[cat('.hoodie/', t, FILES[a, b])] = body
        sc = Scene(w, data=data, fail=fail)
        return sc.e, sc.run('Timeline::get_instant_metadata_in_json', [sc.timeline([sc.instant(t, a, b)]), sc.instant(t, a, b)])

    for (a, b), suf in FILES.items():
        for t, tn in ((t1, 'milliseconds'), (s1, 'seconds')):
            for name, body in texts:
                def j(s, v):
                    if is_err(v):
                        return None if badtext(s) else ('the metadata is refused: %s' % v.fs[0], v)
                    got = inner(unwrap(v))
                    return None if got == body else ('the metadata is %s instead of the file\'s %s' % (got, body), v)
                c.outcomes('metadata', '%s %s, %s: %s' % (a, b, tn, name), lambda: run_(a, b, t, body), j)

            def jf(s, v):
                bad = any(isinstance(k, tuple) and k[0] == 'var' and isinstance(k[1], T) and k[1].op == 'io' and n == 1 for k, n in s.facts.trail)
                if bad and not is_err(v):
                    return 'the file cannot be read and its metadata is %s' % unwrap(v), v
                if not bad and is_err(v) and not badtext(s):
                    return 'the metadata is refused: %s' % v.fs[0], v
                return None
            c.outcomes('failure', '%s %s, %s' % (a, b, tn), lambda: run_(a, b, t, TXT, fail=True), jf, least=2)
    c.floor('metadata', 80)
    c.floor('failure', 18)
