"""For every option of the three option enums, abstract interpretation of its key, parser and default on values of every
class (absent, every literal a value can be, malformed, unknown text): the kinds of value it can produce. For every lookup of
an option in the program (found in the compiled code by type), a dataflow from the lookup to the conversion of its result:
the kind converted to has to be the kind the option produces, and a lookup with fallback has to have one."""
from .tables import *
from ..mir import strip_generics

ENUMS = ('HudiTableConfig', 'HudiReadConfig', 'HudiInternalConfig')
VALUES = ['true', 'false', '0', '1', '-1', '7', '', 'x', 'a', 'a,b', 'a,b,c', ',', 'parquet', 'PARQUET', 'orc', 'utc', 'local', 'UTC', 'COPY_ON_WRITE', 'MERGE_ON_READ',
          'append_only', 'overwrite_with_latest', '99999999999999999999999', '1.5', 'TRUE', ' true', '20240101000000000']
ACCEPT = {'bool': {'Boolean'}, 'isize': {'Integer'}, 'usize': {'UInteger'}, 'alloc::string::String': {'String', 'Boolean', 'Integer', 'UInteger'},
          'alloc::vec::Vec<alloc::string::String>': {'List'}, 'url': {'String'}}
KEYS = {
    'hoodie.table.base.file.format': 'String', 'hoodie.base.path': 'String', 'hoodie.table.checksum': 'Integer', 'hoodie.database.name': 'String',
    'hoodie.datasource.write.drop.partition.columns': 'Boolean', 'hoodie.datasource.write.hive_style_partitioning': 'Boolean',
    'hoodie.datasource.write.partitionpath.urlencode': 'Boolean', 'hoodie.table.keygenerator.class': 'String', 'hoodie.table.partition.fields': 'List',
    'hoodie.table.precombine.field': 'String', 'hoodie.populate.meta.fields': 'Boolean', 'hoodie.table.recordkey.fields': 'List',
    'hoodie.table.record.merge.strategy': 'String', 'hoodie.table.name': 'String', 'hoodie.table.type': 'String', 'hoodie.table.version': 'Integer',
    'hoodie.timeline.layout.version': 'Integer', 'hoodie.table.timeline.timezone': 'String', 'hoodie.read.file_group.start_timestamp': 'String',
    'hoodie.read.file_group.end_timestamp': 'String', 'hoodie.read.input.partitions': 'UInteger', 'hoodie.read.listing.parallelism': 'UInteger',
    'hoodie.read.use.read_optimized.mode': 'Boolean', 'hoodie.internal.skip.config.validation': 'Boolean'}
SAFE = {'hoodie.table.base.file.format': C('parquet'), 'hoodie.datasource.write.drop.partition.columns': FALSE, 'hoodie.table.partition.fields': L([]),
        'hoodie.populate.meta.fields': TRUE, 'hoodie.table.timeline.timezone': C('utc'), 'hoodie.read.use.read_optimized.mode': FALSE,
        'hoodie.internal.skip.config.validation': FALSE}
LOOKUPS = ('get', 'get_or_default', 'try_get')


def last(p):
    return strip_generics(p).rsplit('::', 1)[-1]


class Flow:
    """Where the result of a call goes inside one body."""

    def __init__(self, w, f):
        self.w, self.f = w, f
        self.defs = {}
        for b in f.body['b']:
            for s in b['s']:
                if s[0] == '=' and not s[1][1]:
                    self.defs.setdefault(s[1][0], []).append(s[2])

    def source(self, o, n=0):
        """What an operand is: ('agg', rvalue head) | ('param', index) | None."""
        if o[0] == 'k':
            return ('const', o[1])
        if o[0] in ('cp', 'mv') and n < 8:
            l, pr = o[1]
            ds = self.defs.get(l, [])
            if not ds and 1 <= l <= self.f.body['n']:
                return ('param', l - 1)
            if len(ds) == 1:
                r = ds[0]
                if r[0] == 'agg':
                    return ('agg', r[1])
                if r[0] == 'use':
                    return self.source(r[1], n + 1)
                if r[0] == 'ref':
                    return self.source(('cp', r[2]), n + 1)
        return None

    def mentions(self, r, tainted):
        def op(o):
            return o[0] in ('cp', 'mv') and o[1][0] in tainted
        k = r[0]
        if k == 'use':
            return op(r[1])
        if k == 'cast':
            return op(r[2])
        if k == 'ref':
            return r[2][0] in tainted
        if k == 'agg':
            return any(op(o) for o in r[2])
        return False

    def ty(self, l):
        return self.f.types[self.f.body['l'][l][0]]['s']

    def to_type(self, k):
        """The type a call converts a configuration value to."""
        p = strip_generics(k['f'])
        if p.endswith('HudiConfigValue::to_url'):
            return 'url'
        if p.endswith('HudiConfigValue::to'):
            return self.f.types[k['ga'][-1]]['s']
        return None

    def conversions(self, local):
        """[(type, line)] the value in this local is converted to, and whether it leaves the body otherwise."""
        tainted, out, esc = {local}, [], []
        hold = lambda l: 'HudiConfigValue' in self.ty(l)
        changed = True
        while changed:
            changed = False
            for b in self.f.body['b']:
                for s in b['s']:
                    if s[0] == '=' and self.mentions(s[2], tainted) and s[1][0] not in tainted and hold(s[1][0]):
                        tainted.add(s[1][0])
                        changed = True
                t = b['t']
                if t[0] != 'call':
                    continue
                if not any(o[0] in ('cp', 'mv') and o[1][0] in tainted for o in t[2]):
                    continue
                k = t[1][1] if t[1][0] == 'k' else {}
                ty = self.to_type(k) if 'f' in k else None
                if ty:
                    out.append((ty, t[5]))
                    continue
                if 'f' in k and last(k['f']) in ('into', 'from') and 'HudiConfigValue' not in self.ty(t[3][0]):
                    out.append((self.ty(t[3][0]), t[5]))
                    continue
                for o in t[2]:
                    if o[0] == 'k' and 'f' in o[1]:
                        y = self.to_type(o[1])
                        if y:
                            out.append((y, t[5]))
                    src = self.source(o)
                    if src and src[0] == 'agg' and src[1][0] == 'closure' and src[1][1] in self.w.fns:
                        g = Flow(self.w, self.w.fns[src[1][1]])
                        for _, t2, k2, _ in self.w.calls(g.f):
                            if k2 and 'f' in k2:
                                y = g.to_type(k2)
                                if y:
                                    out.append((y, t2[5]))
                    elif o[0] == 'k' and isinstance(o[1], dict) and 't' in o[1]:
                        tt = self.f.types[o[1]['t']]
                        if tt.get('k') == 'closure' and tt['d'] in self.w.fns:
                            g = Flow(self.w, self.w.fns[tt['d']])
                            for _, t2, k2, _ in self.w.calls(g.f):
                                if k2 and 'f' in k2:
                                    y = g.to_type(k2)
                                    if y:
                                        out.append((y, t2[5]))
                if not t[3][1] and hold(t[3][0]) and t[3][0] not in tainted:
                    tainted.add(t[3][0])
                    changed = True
        return sorted(set(out)), 0 in tainted


def check(c):
    w = c.w
    kinds, defaults, keys = {}, {}, {}

    def parse(en, var, fn, m):
        sc = Scene(w)
        a = w.adt(en)
        vi = [i for i, v in enumerate(a['v']) if v['n'] == var][0]
        f = c.method(en, fn, 'ConfigParser') if w.method(en, fn, 'ConfigParser') else w.fn('hudi_core::config::ConfigParser::' + fn)
        need(f is not None, fn)
        me = Adt(a['d'], vi, var, ())
        rs = sc.run(f, [me] + ([omap(m)] if m is not None else []))
        return sc.e, rs

    for en in ENUMS:
        a = w.adt(en)
        for v in (a['v'] if a else ()):
            var = v['n']

            def key():
                sc = Scene(w)
                vi = [i for i, x in enumerate(a['v']) if x['n'] == var][0]
                rs = sc.run(c.method(en, 'as_ref', 'AsRef'), [Adt(a['d'], vi, var, ())])
                need(len(rs) == 1 and isinstance(sc.e.deep(*rs[0]), C), 'key')
                k = sc.e.deep(*rs[0]).v
                keys[en, var] = k
                o = [x for x, y in keys.items() if y == k and x != (en, var)]
                if o:
                    raise Bad('has the key %s of %s::%s' % (k, *o[0]))
                if not k.startswith('hoodie.'):
                    raise Bad('has the key %s, which is not a Hudi option' % k)
                sc2 = Scene(w)
                f = w.method(en, 'fmt', 'Display')
                return k
            c.rule('keys', '%s::%s' % (en, var), key)
            k = keys.get((en, var))
            if k is None:
                c.undec('kinds', '%s::%s' % (en, var), 'no key')
                continue
            ks = kinds.setdefault((en, var), set())
            for val in [None] + VALUES + [word('anything', S.ALNUM)]:
                def j(s, r):
                    if is_ok(r):
                        x = variant(unwrap(r))
                        need(x is not None, 'value %s' % r)
                        ks.add(x)
                        if k in KEYS and x != KEYS[k]:
                            return 'is read as %s, not %s' % (x, KEYS[k]), r
                        if val is None:
                            return 'has a value although it is absent', r
                        if x == 'Boolean' and isinstance(val, str) and (val not in ('true', 'false') or unwrap(r).fs[0] != C(val == 'true')):
                            return '"%s" is read as %s' % (val, r), r
                        if x in ('Integer', 'UInteger') and isinstance(val, str) and (not val.lstrip('-').isdigit() or unwrap(r).fs[0] != C(int(val))):
                            return '"%s" is read as %s' % (val, r), r
                        if x == 'List' and isinstance(val, str) and ',,' not in val and val not in ('', ',') and unwrap(r).fs[0] != L([C(y) for y in val.split(',')]):
                            return '"%s" is read as %s' % (val, r), r
                    elif is_err(r) and isinstance(val, str):
                        kd = KEYS.get(k)
                        if (kd == 'Boolean' and val in ('true', 'false')) or (kd == 'Integer' and val in ('0', '1', '-1', '7')) or (kd == 'UInteger' and val in ('0', '1', '7')) or (kd == 'List' and val in ('a', 'a,b')):
                            return '"%s" is refused: %s' % (val, r), r
                    return None
                c.outcomes('kinds', '%s = %s' % (k, val), lambda: parse(en, var, 'parse_value', {k: val} if val is not None else {}), j)

            def jd(s, r):
                if r == NONE:
                    defaults[en, var] = None
                    if k in SAFE:
                        return 'has no default', r
                    return None
                x = unwrap(r)
                need(isinstance(x, Adt) and x.fs, 'default %s' % r)
                defaults[en, var] = x
                if k in KEYS and x.vn != KEYS[k]:
                    return 'has a default of kind %s, values are %s' % (x.vn, KEYS[k]), r
                if ks and x.vn not in ks:
                    return 'has a default of kind %s, values are %s' % (x.vn, '/'.join(ks)), r
                if k in SAFE and x.fs[0] != SAFE[k]:
                    return 'defaults to %s, not %s' % (x.fs[0], SAFE[k]), r
                ks.add(x.vn)
                return None
            c.outcomes('defaults', k, lambda: parse(en, var, 'default_value', None), jd)
    for k in KEYS:
        c.rule('published', k, lambda: 'an option has it' if k in keys.values() else bad_('no option has the key %s' % k))

    # ---- lookups
    found = {}
    for f in w.fns.values():
        fl = None
        for n, t, k, cleanup in w.calls(f):
            if not k or 'f' not in k:
                continue
            p = strip_generics(k['f'])
            if not (p.endswith('HudiConfigs::get') or p.endswith('HudiConfigs::get_or_default') or p.endswith('HudiConfigs::try_get')):
                continue
            fl = fl or Flow(w, f)
            found.setdefault((f.path, t[5], last(p)), []).append((f, fl, t, last(p)))

    def options(f, fl, o, n=0):
        """The options an operand can stand for: [(enum, variant)]."""
        s = fl.source(o)
        if s and s[0] == 'agg' and s[1][0] == 'adt':
            return [(strip_generics(s[1][1]).rsplit('::', 1)[-1], s[1][2])]
        if s and s[0] == 'param' and n < 3:
            out = []
            for g in w.fns.values():
                for _, t, k, _ in w.calls(g):
                    if k and (k.get('ri') == f.id or k.get('fi') == f.id) and s[1] < len(t[2]):
                        out += options(g, Flow(w, g), t[2][s[1]], n + 1)
            need(out, 'callers of %s' % f.path)
            return out
        raise Undecided('which option %s looks up' % f.path)

    for (path_, line, m), sites in sorted(found.items()):
        for f, fl, t, m in sites:
            where = f.loc(line)

            def rule():
                opts = options(f, fl, t[2][1])
                conv, leaves = fl.conversions(t[3][0])
                need(conv or leaves or not t[3][1], 'what %s is converted to' % opts)
                for o in opts:
                    ks = kinds.get(o)
                    need(ks, 'kinds of %s' % (o,))
                    for ty, ln in conv:
                        need(ty in ACCEPT, 'conversion to %s' % ty)
                        if ks - ACCEPT[ty]:
                            raise Bad('%s::%s is %s, which is converted to %s' % (*o, '/'.join(sorted(ks)), ty), f.loc(ln))
                    if m == 'get_or_default':
                        k = keys[o]
                        for mp in ({}, {k: 'no such value'}):
                            e, rs = parse(o[0], o[1], 'parse_value_or_default', mp)
                            for s, fn, ln, why, stack in e.panics:
                                if s.alternatives():
                                    raise Bad('%s::%s is looked up with a fallback and has none' % o, where)
                            for s, r in rs:
                                x = variant(e.deep(s, r))
                                for ty, ln in conv:
                                    if x not in ACCEPT[ty]:
                                        raise Bad('the fallback of %s::%s is %s, which is converted to %s' % (*o, x, ty), where)
                return '%s as %s' % (', '.join('%s::%s' % o for o in opts), ', '.join(t for t, _ in conv) or 'passed on')
            c.rule('lookups', '%s %s:%d' % (path_, m, line), rule)
    c.floor('lookups', 20)
    c.floor('kinds', 24 * 20)
    c.floor('keys', 24)
    c.also('c16', 'options')

def bad_(m):
    raise Bad(m)
