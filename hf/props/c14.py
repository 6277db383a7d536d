"""Abstract interpretation of TableBuilder::build for every subset of the sources of an option (properties file, specific
options, generic options, global configuration file; for storage options: specific, generic, environment), with values of
unknown content: the table that results, its timeline and its file system view have to hold the value of the first source.
Also interpreted: the with_* methods of the builder, the splitting of options by prefix, the parsing of properties, and
reader options, which override the table's options in the reader and leave the table as it is."""
import itertools

from .tables import *
from .c16 import GOOD, build, builder, text_of, build_scene

V = {n: word('v_' + n, ALNUM) for n in ('props', 'hudi', 'generic', 'global', 'storage', 'other', 'env', 'option', 'table')}


def get(m, k):
    k = C(k) if isinstance(k, str) else k
    if isinstance(m, Adt) and m.field('raw_options') is not None:
        m = m.field('raw_options')
    if isinstance(m, Adt):
        xs = [f for f in m.fs if isinstance(f, M)]
        m = xs[0] if len(xs) == 1 else m
    need(isinstance(m, M), 'options %s' % m)
    r = [v for x, v in m.items if x == k]
    need(len(r) < 2, 'key twice')
    return r[0] if r else None


def places(t):
    """Where a table keeps its options."""
    return {'table': fld(t, 'hudi_configs'), 'timeline': fld(t, 'timeline', 'hudi_configs'), 'file system view': fld(t, 'file_system_view', 'hudi_configs')}


def subsets(xs):
    for n in range(len(xs) + 1):
        yield from itertools.combinations(xs, n)


def check(c):
    w = c.w

    def opened(f):
        def j(s, v):
            if is_err(v):
                return 'the table cannot be opened: %s' % v.fs[0], v
            return f(s, unwrap(v))
        return j

    # ---- Hudi options
    for key in ('hoodie.table.recordkey.fields', 'hoodie.custom', 'hoodie.table.keygenerator.class', 'hoodie.database.name'):
        for src in subsets(('props', 'hudi', 'generic', 'global')):
            def run():
                sc, rs = build(w, {**GOOD, **({key: V['props']} if 'props' in src else {})},
                               hudi={key: V['hudi']} if 'hudi' in src else {}, options={key: V['generic']} if 'generic' in src else {},
                               conf_file={key: V['global']} if 'global' in src else None)
                return sc.e, rs

            def j(s, t):
                want = V[src[0]] if src else None
                for n, o in places(t).items():
                    if get(o, key) != want:
                        return 'the %s has %s=%s, not %s (given by %s)' % (n, key, get(o, key), want, ', '.join(src)), get(o, key) or NONE
                return None
            c.outcomes('precedence', '%s given by %s' % (key, ', '.join(src) or 'nobody'), run, opened(j))

    # an empty text is a value: the source of it wins as any other
    for key in ('hoodie.custom', 'hoodie.table.recordkey.fields'):
        for src in subsets(('props', 'hudi', 'generic', 'global')):
            for at in src:
                def run():
                    x = {**V, at: C('')}
                    sc, rs = build(w, {**GOOD, **({key: x['props']} if 'props' in src else {})},
                                   hudi={key: x['hudi']} if 'hudi' in src else {}, options={key: x['generic']} if 'generic' in src else {},
                                   conf_file={key: x['global']} if 'global' in src else None)
                    return sc.e, rs

                def j(s, t):
                    want = {**V, at: C('')}[src[0]]
                    for n, o in places(t).items():
                        if get(o, key) != want:
                            return 'the %s has %s=%s, not %s (given by %s, empty by %s)' % (n, key, get(o, key), want, ', '.join(src), at), get(o, key) or NONE
                    return None
                c.outcomes('precedence', '%s given by %s, empty by %s' % (key, ', '.join(src), at), run, opened(j))

    # ---- different keys from every source: none is lost, none leaks
    def run_all():
        sc, rs = build(w, {**GOOD, 'hoodie.p': V['props'], 'plain.p': V['props']}, hudi={'hoodie.h': V['hudi']},
                       options={'hoodie.g': V['generic'], 'aws.g': V['other'], 'hoodieg': V['other'], 'Hoodie.g': V['other']},
                       storage={'aws.s': V['storage']}, conf_file={'hoodie.f': V['global'], 'plain.f': V['global']},
                       env={'AWS_E': V['env'], 'HOME': V['env'], 'HOODIE_X': V['env']})
        return sc.e, rs

    def j_all(s, t):
        for n, o in places(t).items():
            for k, x in (('hoodie.p', 'props'), ('hoodie.h', 'hudi'), ('hoodie.g', 'generic'), ('hoodie.f', 'global')):
                if get(o, k) != V[x]:
                    return 'the %s has %s=%s' % (n, k, get(o, k)), get(o, k) or NONE
            for k in ('aws.g', 'hoodieg', 'Hoodie.g', 'aws.s', 'aws_e', 'plain.f'):
                if get(o, k) is not None:
                    return 'the %s has %s' % (n, k), get(o, k)
        st = fld(t, 'storage_options')
        for k, x in (('aws.g', 'other'), ('hoodieg', 'other'), ('Hoodie.g', 'other'), ('aws.s', 'storage'), ('aws_e', 'env')):
            if get(st, k) != V[x]:
                return 'the storage has %s=%s' % (k, get(st, k)), get(st, k) or NONE
        for k in ('hoodie.g', 'hoodie.h', 'hoodie.p', 'hoodie.f', 'home', 'hoodie_x', 'plain.f'):
            if get(st, k) is not None:
                return 'the storage has %s' % k, get(st, k)
        return None
    c.outcomes('all', 'distinct keys', run_all, opened(j_all))

    # keys of any name behind their prefix
    K = word('k', ALNUM + '._-')
    HK, PK = cat('hoodie.zz-', K), cat('zz-', K)

    def run_any():
        sc, rs = build(w, GOOD, options={HK: V['generic'], PK: V['other']})
        return sc.e, rs

    def j_any(s, t):
        for n, o in places(t).items():
            if get(o, HK) != V['generic']:
                return 'the %s has %s=%s' % (n, HK, get(o, HK)), get(o, HK) or NONE
            if get(o, PK) is not None:
                return 'the %s has %s' % (n, PK), get(o, PK)
        st = fld(t, 'storage_options')
        if get(st, PK) != V['other']:
            return 'the storage has %s=%s' % (PK, get(st, PK)), get(st, PK) or NONE
        if get(st, HK) is not None:
            return 'the storage has %s' % HK, get(st, HK)
        return None
    c.outcomes('all', 'any key', run_any, opened(j_any))

    # ---- storage options
    for env in ('AWS_KEY', 'AZURE_KEY', 'GOOGLE_KEY'):
        for src in subsets(('storage', 'other', 'env')):
            k = env.lower()

            def run():
                sc, rs = build(w, GOOD, storage={k: V['storage']} if 'storage' in src else {}, options={k: V['other']} if 'other' in src else {},
                               env={env: V['env']} if 'env' in src else {})
                return sc.e, rs

            def j(s, t):
                want = V[src[0]] if src else None
                o = get(fld(t, 'storage_options'), k)
                if o != want:
                    return 'the storage has %s=%s, not %s' % (k, o, want), o or NONE
                for ev in s.events():
                    if ev[0] == 'storage' and ev[1] == 'new' and get(ev[2][0], k) != want:
                        return 'storage is created with %s=%s, not %s' % (k, get(ev[2][0], k), want), get(ev[2][0], k) or NONE
                return None
            c.outcomes('storage', '%s given by %s' % (k, ', '.join(src) or 'nobody'), run, opened(j))

    # every variable of a cloud provider, and nothing else of the environment
    ENV = ['AWS_ACCESS_KEY_ID', 'AWS_SECRET_ACCESS_KEY', 'AWS_SESSION_TOKEN', 'AWS_DEFAULT_REGION', 'AWS_ENDPOINT_URL', 'AWS_WEB_IDENTITY_TOKEN_FILE', 'AWS_CONTAINER_CREDENTIALS_RELATIVE_URI', 'AWS_ALLOW_HTTP',
           'AWS_', 'AWS_X_1', 'AZURE_STORAGE_ACCOUNT_NAME', 'AZURE_STORAGE_ACCOUNT_KEY', 'AZURE_CLIENT_ID', 'AZURE_FEDERATED_TOKEN_FILE', 'AZURE_AUTHORITY_HOST', 'GOOGLE_SERVICE_ACCOUNT', 'GOOGLE_SERVICE_ACCOUNT_KEY',
           'GOOGLE_APPLICATION_CREDENTIALS', 'GOOGLE_BUCKET']
    NOT = ['PATH', 'HOME', 'MY_AWS_KEY', 'XAWS_KEY', 'AWSKEY', 'AZUREX', 'GOOGLEX', 'HADOOP_CONF_DIR', 'HOODIE_ENV_X', 'GCS_X']
    for empty in (False, True):
        def run():
            sc, rs = build(w, GOOD, env={k: C('') if empty else word('e%d' % i, ALNUM) for i, k in enumerate(ENV + NOT)})
            return sc.e, rs

        def j(s, t):
            st = fld(t, 'storage_options')
            for i, k in enumerate(ENV):
                if get(st, k.lower()) != (C('') if empty else word('e%d' % i, ALNUM)):
                    return 'the storage has %s=%s' % (k.lower(), get(st, k.lower())), get(st, k.lower()) or NONE
            for k in NOT:
                if get(st, k.lower()) is not None or get(st, k) is not None:
                    return 'the storage has %s' % k, st
            return None
        c.outcomes('storage', 'environment%s' % (' of empty values' if empty else ''), run, opened(j))

    # ---- base path
    for src in subsets(('props', 'hudi', 'generic', 'global')):
        def run():
            U = word('uri', ALNUM)
            k = 'hoodie.base.path'
            sc, rs = build(w, {**GOOD, **({k: V['props']} if 'props' in src else {})}, uri=U, hudi={k: V['hudi']} if 'hudi' in src else {},
                           options={k: V['generic']} if 'generic' in src else {}, conf_file={k: V['global']} if 'global' in src else None)
            return sc.e, rs

        def j(s, t):
            U = word('uri', ALNUM)
            for n, o in places(t).items():
                if get(o, 'hoodie.base.path') != U:
                    return 'the %s has base path %s' % (n, get(o, 'hoodie.base.path')), get(o, 'hoodie.base.path') or NONE
            return None
        c.outcomes('base path', 'also given by %s' % (', '.join(src) or 'nobody'), run, opened(j))

    # ---- builder methods
    for field, m in (('hudi_options', 'with_hudi_option'), ('storage_options', 'with_storage_option'), ('options', 'with_option')):
        for plural in (False, True):
            def run():
                sc = Scene(w)
                b = builder(sc, 'u', {'hoodie.a': 'h', 'hoodie.b': 'h'}, {'hoodie.a': 's', 'hoodie.b': 's'}, {'hoodie.a': 'o', 'hoodie.b': 'o'})
                f = c.method('TableBuilder', m + ('s' if plural else ''))
                args = [b, L([Tup((C('hoodie.a'), V['option'])), Tup((C('hoodie.c'), V['option']))])] if plural else [b, C('hoodie.a'), V['option']]
                return sc.e, sc.run(f, args)

            def j(s, v):
                for fl, old in (('hudi_options', 'h'), ('storage_options', 's'), ('options', 'o')):
                    want = {'hoodie.a': C(old), 'hoodie.b': C(old), 'hoodie.c': None}
                    if fl == field:
                        want['hoodie.a'] = V['option']
                        if plural:
                            want['hoodie.c'] = V['option']
                    for k, x in want.items():
                        if get(fld(v, fl), k) != x:
                            return '%s has %s=%s, not %s' % (fl, k, get(fld(v, fl), k), x), v
                return None
            c.outcomes('builder', m + ('s' if plural else ''), run, j)

    # ---- properties files
    a, b = V['props'], V['hudi']
    FILES = [
        ('plain', '=', [C('hoodie.a='), a, C('\nhoodie.b='), b, C('\n')], {'hoodie.a': a, 'hoodie.b': b}),
        ('no newline at the end', '=', [C('hoodie.a='), a, C('\nhoodie.b='), b], {'hoodie.a': a, 'hoodie.b': b}),
        ('comments and blank lines', '=', [C('#c=d\n\n  \n # e=f\nhoodie.a='), a, C('\n#\n')], {'hoodie.a': a}),
        ('equals sign in the value', '=', [C('hoodie.a='), a, C('='), b, C('=\n')], {'hoodie.a': cat(a, '=', b, '=')}),
        ('spaces', '=', [C('  hoodie.a  =  '), a, C('  \n')], {'hoodie.a': a}),
        ('carriage returns', '=', [C('hoodie.a='), a, C('\r\nhoodie.b='), b, C('\r\n')], {'hoodie.a': a, 'hoodie.b': b}),
        ('no value', '=', [C('hoodie.a=\nhoodie.b\n')], {'hoodie.a': C(''), 'hoodie.b': C('')}),
        ('hash in the value', '=', [C('hoodie.a='), a, C('#'), b, C('\n')], {'hoodie.a': cat(a, '#', b)}),
        ('last one counts', '=', [C('hoodie.a='), a, C('\nhoodie.a='), b, C('\n')], {'hoodie.a': b}),
        ('empty', '=', [C('')], {}),
        ('space in the value', '=', [C('hoodie.a='), a, C(' '), b, C('\n')], {'hoodie.a': cat(a, ' ', b)}),
        ('separated by a space', ' \t=', [C('hoodie.a '), a, C('\nhoodie.b='), b, C('\n')], {'hoodie.a': a, 'hoodie.b': b}),
        ('separated by a tab', ' \t=', [C('hoodie.a\t'), a, C('\n')], {'hoodie.a': a}),
        ('separated by spaces', ' \t=', [C('hoodie.a   '), a, C('\n')], {'hoodie.a': a}),
    ]
    for name, sep, txt, want in FILES:
        def run():
            sc = Scene(w)
            return sc.e, sc.run('hudi_core::config::util::parse_data_for_options', [mk(txt), C(sep)])

        def j(s, v):
            if is_err(v):
                return 'fails: %s' % v.fs[0], v
            m = unwrap(v)
            need(isinstance(m, M), 'options')
            if {k: x for k, x in m.items} != {C(k): x for k, x in want.items()}:
                return 'is read as %s' % m, v
            return None
        c.outcomes('properties', name, run, j)

    # ---- options of one read
    for k, hudi in (('hoodie.read.use.read_optimized.mode', True), ('hoodie.custom', True), ('aws.x', False), ('hoodieX', False)):
        for src in subsets(('option', 'table')):
            def run():
                conf = {**GOOD, 'hoodie.base.path': 'file:///t', 'hoodie.keep': V['props']}
                if hudi and 'table' in src:
                    conf[k] = V['table']
                sc = Scene(w, conf=conf)
                st, t = sc.table([])
                stg = {'aws.keep': V['storage']}
                if not hudi and 'table' in src:
                    stg[k] = V['table']
                t = sc.struct('table::Table', {}, {'hudi_configs': fld(t, 'hudi_configs'), 'timeline': fld(t, 'timeline'),
                                                   'file_system_view': fld(t, 'file_system_view'), 'storage_options': omap(stg)})
                return sc.e, sc.run(c.method('Table', 'create_file_group_reader_with_options'),
                                    [t, L([Tup((C(k), V['option']))] if 'option' in src else [])], st)

            def j(s, v):
                if is_err(v):
                    return 'fails: %s' % v.fs[0], v
                r = unwrap(v)
                conf, stg = fld(r, 'hudi_configs'), fld(r, 'storage')
                need(isinstance(stg, T) and stg.op == 'storage' and len(stg.args) > 2, 'storage of the reader')
                want = V[src[0]] if src else None
                ins, outs = (conf, stg.args[1]) if hudi else (stg.args[1], conf)
                if get(ins, k) != want:
                    return '%s is %s, not %s' % (k, get(ins, k), want), get(ins, k) or NONE
                if get(outs, k) is not None:
                    return '%s is among the %s options' % (k, 'storage' if hudi else 'Hudi'), outs
                for o in (conf, stg.args[2]):
                    if get(o, 'hoodie.keep') != V['props'] or get(o, 'hoodie.base.path') != C('file:///t'):
                        return 'the reader loses options of the table', o
                    if get(o, k) != (want if hudi else None):
                        return 'the storage of the reader has %s=%s' % (k, get(o, k)), o
                if get(stg.args[1], 'aws.keep') != V['storage']:
                    return 'the reader loses storage options of the table', stg
                return None
            c.outcomes('reader', '%s given by %s' % (k, ', '.join(src) or 'nobody'), run, j)
    for k, hudi in (('hoodie.custom', True), ('aws.x', False), ('hoodie.base.path', True)):
        def run():
            sc = Scene(w)
            return sc.e, sc.run(c.method('FileGroupReader', 'new_with_options'), [C('file:///t'), L([Tup((C(k), V['option']))])])

        def j(s, v):
            if is_err(v):
                return 'fails: %s' % v.fs[0], v
            r = unwrap(v)
            conf, stg = fld(r, 'hudi_configs'), fld(r, 'storage')
            need(isinstance(stg, T) and stg.op == 'storage' and len(stg.args) > 2, 'storage of the reader')
            if get(conf if hudi else stg.args[1], k) != V['option'] or get(stg.args[1] if hudi else conf, k) is not None:
                return '%s is %s' % (k, get(conf if hudi else stg.args[1], k)), v
            if k != 'hoodie.base.path' and get(conf, 'hoodie.base.path') != C('file:///t'):
                return 'base path is %s' % get(conf, 'hoodie.base.path'), v
            return None
        c.outcomes('reader', 'new_with_options: %s' % k, run, j)
    # ---- the ways to open a table hand the location and every option to the builder
    U, KV = word('uri', ALNUM), {'hoodie.a': V['generic'], 'aws.x': V['other'], 'plain': V['option']}
    LOC = cat('file:///', U)

    def opening(path, args, entries=None):
        def run():
            sc = build_scene(w, GOOD)
            sc.e.cuts[CORE + 'table::builder::TableBuilder::build'] = lambda en, st, a, c: [(st, T('ready', ok(T('opened', en.deep(st, a[0])))))]
            sc.e.config_entries = entries
            return sc.e, sc.run(path() if callable(path) else path, args)
        return run

    def given(want):
        def j(s, v):
            if is_err(v):
                return 'fails: %s' % v.fs[0], v
            t = unwrap(v)
            while isinstance(t, Adt) and t.path.endswith('HudiDataSource'):
                t = fld(t, 'table')
            need(isinstance(t, T) and t.op == 'opened', 'table %s' % v)
            b = t.args[0]
            if fld(b, 'base_uri') != LOC:
                return 'the location is %s' % fld(b, 'base_uri'), v
            ms = [fld(b, n) for n in ('options', 'hudi_options', 'storage_options')]
            for k, x in want.items():
                got = [get(m, k) for m in ms if get(m, k) is not None]
                if x is None:
                    if got:
                        return '%s is %s' % (k, got[0]), v
                elif not got or any(y != x for y in got):
                    return '%s is %s, not %s' % (k, got[0] if got else 'missing', x), v
            return None
        return j
    pairs_ = L([Tup((C(k), v)) for k, v in KV.items()])
    c.outcomes('opening', 'Table::new', opening(lambda: c.method('Table', 'new'), [LOC]), given({}))
    c.outcomes('opening', 'Table::new_with_options', opening(lambda: c.method('Table', 'new_with_options'), [LOC, pairs_]), given(KV))
    c.outcomes('opening', 'HudiDataSource::new', opening(lambda: c.method('HudiDataSource', 'new'), [LOC]), given({}))
    c.outcomes('opening', 'HudiDataSource::new_with_options', opening(lambda: c.method('HudiDataSource', 'new_with_options'), [LOC, pairs_]), given(KV))
    for src in subsets(('command', 'session')):
        for empty in (None, NONE, some(C(''))):
            cmd_opts = {'k': V['option'], 'hoodie.a': V['hudi']} if 'command' in src else {'hoodie.a': V['hudi']}
            entries = [(C('k'), (some(V['generic']) if empty is None else empty) if 'session' in src else NONE), (C('s'), some(V['other']))]
            want = {'hoodie.a': V['hudi'], 's': V['other'], 'k': V['option'] if 'command' in src else V['generic'] if 'session' in src and empty is None else None}

            def run():
                from .c08 import Mk
                f = c.method('HudiTableFactory', 'create', 'TableProviderFactory')
                cmd = Mk(w).adt('CreateExternalTable', location=LOC, options=omap(cmd_opts))
                sc = Scene(w)
                fac = sc.struct('HudiTableFactory', {}, {})
                return opening(f, [fac, T('session'), cmd], entries)()
            c.outcomes('opening', 'CREATE EXTERNAL TABLE, option given by %s%s' % (', '.join(src) or 'nobody', '' if empty is None else ' (empty: %s)' % empty), run, given(want))
    c.floor('opening', 12)
    c.floor('precedence', 64)
    c.floor('storage', 24)
    c.floor('base path', 16)
    c.floor('properties', 14)
    c.floor('reader', 19)
