"""Runs the checks of one property:  python3 -m hf.check C01 [--tier quick|thorough] [--strict]

A property is decided by rules; a rule has instances (obligations). Each instance ends as
  ok         the rule holds there on every path the analysis followed,
  bad        a construct of the source breaks the rule: a violation (or a listed known finding),
  undecided  the analysis met code it has no description of: reported, never an alarm.
"""
import glob
import importlib
import json
import os
import sys
import time
import traceback

from . import ai
from .ai import Undecided, LT, EQ, GT, ANY
from .mir import World
from .val import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Bad(Exception):
    """Raised by a rule where it is broken."""

    def __init__(self, msg, where=None, detail=None):
        Exception.__init__(self, msg)
        self.msg, self.where, self.detail = msg, where, detail or []


def text(v, n=400):
    s = str(v)
    return s if len(s) <= n else s[:n] + '…'


class Ctx:
    def __init__(self, pid, tier='quick', strict=False):
        self.pid, self.tier, self.strict = pid, tier, strict
        self.w = World()
        self.rules = {}
        self.problems = []
        self.undecided = []
        self.samples = []
        self.assumptions = []
        self.fns, self.unmodeled = set(), {}
        self.steps = self.paths = 0
        self.floors = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- recording ------------------------------------------------------------------------
    def _r(self, rule):
        return self.rules.setdefault(rule, {'instances': 0, 'ok': 0, 'bad': 0, 'undecided': 0})

    def ok(self, rule, key, note=None):
        r = self._r(rule)
        r['instances'] += 1
        r['ok'] += 1
        if sum(1 for s in self.samples if s['rule'] == rule) < 2:
            self.samples.append({'rule': rule, 'instance': key, 'result': 'ok', **({'note': note} if note else {})})

    def bad(self, rule, key, msg, where=None, detail=None):
        r = self._r(rule)
        r['instances'] += 1
        r['bad'] += 1
        if not any(p['rule'] == rule and p['key'] == key and p['what'] == msg for p in self.problems):
            self.problems.append({'rule': rule, 'key': key, 'what': msg, 'where': where, 'detail': detail or []})

    def undec(self, rule, key, why):
        r = self._r(rule)
        r['instances'] += 1
        r['undecided'] += 1
        self.undecided.append({'rule': rule, 'instance': key, 'why': text(why, 300)})

    def rule(self, rule, key, fn):
        """One instance decided by fn(): returns a note, raises Bad or Undecided."""
        try:
            note = fn()
        except Bad as b:
            self.bad(rule, key, b.msg, b.where, b.detail)
        except Undecided as u:
            self.undec(rule, key, str(u))
        except RecursionError:
            self.undec(rule, key, 'too deep')
        except Exception as ex:
            if self.strict:
                traceback.print_exc()
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.undec(rule, key, '%s: %s (%s:%d)' % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))
        else:
            self.ok(rule, key, note if isinstance(note, str) else None)

    def unreached(self, msg, where):
        """A construct no scenario reached: a violation only when every scenario was followed to its end."""
        if self.undecided:
            raise Undecided('%s; not all scenarios were followed to their end' % msg)
        raise Bad(msg, where)

    def floor(self, rule, n):
        """The number of instances confirmed by hand; fewer means the rule no longer sees what it is about."""
        self.floors.append((rule, n))

    # ---- scenarios ------------------------------------------------------------------------
    def note_engine(self, e):
        self.fns |= e.analysed
        self.steps += e.steps
        for k, v in e.unmodeled.items():
            self.unmodeled[k] = self.unmodeled.get(k, 0) + v

    def outcomes(self, rule, key, run, judge, allow=(), panics=True, least=1, where=None):
        """run() -> (engine, [(state, value)]). judge(state, value) returns None or what is wrong with that outcome.
        An outcome that depends on a call the analysis cannot see into is never a violation."""
        def go():
            e, rs = run()
            self.note_engine(e)
            self.paths += len(rs)
            unk = None
            bads = []
            for s, v in alternatives(rs):
                v = e.deep(s, v)
                m = judge(s, v)
                if m is None:
                    continue
                u = unknown(e, s, (v, m[1:]) if isinstance(m, tuple) else v, allow)
                if isinstance(m, tuple):
                    m = m[0]
                if u or s.loose:
                    unk = unk or 'depends on %s' % (u or 'joined paths')
                else:
                    bads.append((m, s, v))
            if panics:
                for s, fn, line, why, stack in e.panics:
                    if not s.alternatives() or self.panic_ok(s, fn):
                        continue
                    u = unknown(e, s, None, allow)
                    if u:
                        unk = unk or 'panic depends on %s' % u
                    else:
                        bads.append(('panics at %s (%s): %s' % (fn.loc(line), fn.path, text(why, 120)), s, None))
            if bads:
                m, s, v = bads[0]
                raise Bad(m, where or origin(s), trail(s) + (['outcome: ' + text(v, 1500)] if v is not None else []))
            if unk:
                raise Undecided(unk)
            if e.truncated:
                raise Undecided('paths not followed to the end: %s' % (e.truncated[:2],))
            if len(rs) < least:
                raise Undecided('%d outcomes, at least %d expected' % (len(rs), least))
            return '%d outcomes' % len(rs)
        self.rule(rule, key, go)

    def also(self, module, *rules):
        """Instances of the rules of another property's module that this property covers as well."""
        importlib.import_module('hf.props.' + module).check(Part(self, module, rules))

    def panic_ok(self, s, fn):
        return False

    # ---- anchors --------------------------------------------------------------------------
    def method(self, ty, name, trait=None):
        c = self.w.method(ty, name, trait)
        if not c:
            raise Undecided('no method %s::%s' % (ty, name))
        return c[0]


class Part(Ctx):
    """Runs the chosen rules of another module, recorded under the name of that module."""

    def __init__(self, to, module, rules):
        self.to, self.module, self.rules_ = to, module, rules
        for k, v in to.__dict__.items():
            setattr(self, k, v)

    def name(self, rule):
        return '%s %s' % (self.module.upper(), rule)

    def __getattribute__(self, n):
        if n in ('steps', 'paths'):
            return getattr(object.__getattribute__(self, 'to'), n)
        return object.__getattribute__(self, n)

    def __setattr__(self, n, v):
        if n in ('steps', 'paths') and 'to' in self.__dict__:
            setattr(self.to, n, v)
        else:
            object.__setattr__(self, n, v)

    def outcomes(self, rule, *a, **k):
        if rule in self.rules_:
            self.to.outcomes(self.name(rule), *a, **k)

    def rule(self, rule, *a, **k):
        if rule in self.rules_:
            self.to.rule(self.name(rule), *a, **k)

    def ok(self, rule, *a, **k):
        if rule in self.rules_:
            self.to.ok(self.name(rule), *a, **k)

    def bad(self, rule, *a, **k):
        if rule in self.rules_:
            self.to.bad(self.name(rule), *a, **k)

    def undec(self, rule, *a, **k):
        if rule in self.rules_:
            self.to.undec(self.name(rule), *a, **k)

    def floor(self, rule, n):
        if rule in self.rules_:
            self.to.floor(self.name(rule), n)

    def also(self, module, *rules):
        pass


def alternatives(rs):
    for s, v in rs:
        for x in s.alternatives():
            yield x, v


BYTES = ('be', 'raw', 'rep', 'vec', 'short', 'allof')


def unknown(e, s, v, allow=()):
    """A call without description that the outcome depends on."""
    def look(x):
        for t in subterms(x):
            if isinstance(t, T) and (t.op in e.unmodeled or t.op in ('cparam', 'await', 'uninit')):
                if not any(t.op.endswith(a) for a in allow):
                    return t.op
            if isinstance(t, T) and t.op in ('idx', 'slice') and t.args and isinstance(t.args[0], T) and t.args[0].op in BYTES:
                return 'some bytes of %s' % t.args[0].op
        return None

    def flat(x):
        if isinstance(x, tuple):
            for y in x:
                yield from flat(y)
        elif isinstance(x, V):
            yield x
    for x in flat(v):
        r = look(x)
        if r:
            return r
    for (what, val) in (s.facts.trail if s is not None else ()):
        for x in flat(what if isinstance(what, tuple) else (what,)):
            r = look(x)
            if r:
                return r
    return None


def trail(s):
    out = []
    for what, val in s.facts.trail:
        at = ai.WHERE.get((what, val))
        out.append('%s assuming %s' % ('%s (%s)' % (at[0].loc(at[1]), at[0].path) if at else '-', text(say(what, val), 300)))
    return out[-40:]


def say(what, val):
    if isinstance(what, tuple) and len(what) == 3 and what[0] == 'cmp':
        return '%s %s %s' % (what[1], {1: '<', 2: '==', 4: '>', 3: '<=', 6: '>=', 5: '!=', 7: '?'}.get(val, val), what[2])
    return '%s is %s' % (what, val)


def origin(s):
    for what, val in reversed(s.facts.trail):
        at = ai.WHERE.get((what, val))
        if at:
            return '%s (%s)' % (at[0].loc(at[1]), at[0].path)
    return None


def run(pid, tier='quick', strict=False, quiet=False):
    t0 = time.time()
    c = Ctx(pid, tier, strict)
    m = importlib.import_module('hf.props.' + pid.lower())
    for f in glob.glob(os.path.join(EVID, pid + '.violation*.json')):
        os.remove(f)
    try:
        m.check(c)
    except Exception as ex:
        if strict:
            raise
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        c.undec('module', 'check', '%s: %s (%s:%d)' % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))
    for rule, n in c.floors:
        got = c.rules.get(rule, {}).get('instances', 0)
        if got < n:
            c.undec(rule, 'count', '%d instances, %d expected' % (got, n))
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else []
    sup = {(k['rule'], k['key']): k for k in known if k.get('property') == pid and k.get('status', 'open') == 'open'}
    os.makedirs(EVID, exist_ok=True)
    viol, seen = [], []
    for p in c.problems:
        k = sup.get((p['rule'], p['key']))
        if k is not None:
            seen.append((p, k))
        else:
            viol.append(p)
    for p, k in seen:
        print('KNOWN-FINDING: property=%s %s [%s / %s]' % (pid, k.get('what', p['what']), p['rule'], p['key']))
    for n, p in enumerate(viol[:20]):
        path = os.path.join('evidence', '%s.violation%d.json' % (pid, n))
        json.dump({'property': pid, **p}, open(os.path.join(VERIF, path), 'w'), indent=1)
        print('%s: %s / %s: %s' % (p['where'] or '-', p['rule'], p['key'], text(p['what'], 600)))
        for d in p['detail'][-8:]:
            print('    ' + text(d, 400))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if not quiet:
        for u in c.undecided[:40]:
            print('undecided: %s / %s: %s' % (u['rule'], u['instance'], u['why']))
    tot = {k: sum(r[k] for r in c.rules.values()) for k in ('instances', 'ok', 'bad', 'undecided')}
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': ' '.join((m.__doc__ or '').split()),
            'obligations': tot['instances'], 'discharged': tot['ok'], 'undecided': tot['undecided'],
            'known_findings': len(seen), 'rules': c.rules,
            'functions_in_program': len(c.w.fns), 'functions_analysed': len(c.fns),
            'analysed': sorted({c.w.fns[i].path for i in c.fns if i in c.w.fns and c.w.fns[i].kind != 'closure'})[:150],
            'abstract_steps': c.steps, 'abstract_paths': c.paths,
            'calls_not_described': dict(sorted(c.unmodeled.items(), key=lambda x: -x[1])[:25]),
            'undecided_instances': c.undecided[:30],
            'samples': c.samples[:24],
        },
        'assumptions': getattr(m, 'ASSUMES', []) + c.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev['coverage']['analysed'] = ev['coverage']['analysed'][:40]
        ev['coverage']['samples'] = ev['coverage']['samples'][:6]
        ev['coverage']['undecided_instances'] = ev['coverage']['undecided_instances'][:8]
        s = json.dumps(ev, indent=1)
    open(os.path.join(EVID, pid + '.json'), 'w').write(s)
    print('%s: %d obligations, %d hold, %d violated, %d known, %d undecided (%.1f s)' % (
        pid, tot['instances'], tot['ok'], len(viol), len(seen), tot['undecided'], time.time() - t0))
    return 1 if viol else 0


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--strict', action='store_true')
    a = ap.parse_args()
    try:
        # the module under its own name: properties raise its Bad, not that of __main__
        r = importlib.import_module('hf.check').run(a.pid, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.strict)
    except SystemExit:
        raise
    sys.exit(r)


if __name__ == '__main__':
    main()
