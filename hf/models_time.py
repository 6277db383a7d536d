"""Models of chrono on known texts: naive times and instants are nanoseconds since the epoch. The process time zone is that
of the scenario, e.local: a function of the local time in seconds to the list of UTC offsets it can have (none, one or two,
earlier instant first), and e.local_at: the offset at an instant."""
import datetime

from .val import *
from .models import model, one, MODELS
from .ai import Undecided

NS = 10 ** 9
EPOCH = datetime.datetime(1970, 1, 1)
LR = 'chrono::offset::LocalResult'


def mname(c):
    return c.k['f'].rsplit('::', 1)[-1]


def dt(n):
    return T('dt', C(n))


def naive(n):
    return T('naive', C(n))


def nanos(x):
    return x.args[0].v if isinstance(x, T) and x.op in ('dt', 'naive', 'ndate', 'ntime', 'timedelta') and isinstance(x.args[0], C) else None


def civil(y, mo, d, h=0, mi=0, s=0, ns=0):
    try:
        x = datetime.datetime(y, mo, d, h, mi, 59 if s == 60 else s)
    except (ValueError, OverflowError):
        return None
    n = (x - EPOCH).days * 86400 + (x - EPOCH).seconds
    if not 0 <= ns < 2 * NS:
        return None
    return (n + (1 if s == 60 else 0)) * NS + ns


def scan(text, fmt):
    """Fields of a text in a strftime format as chrono reads it, or None; raises Undecided for formats not described."""
    f, i, k = {}, 0, 0
    W = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'y': 2, 'j': 3}
    while k < len(fmt):
        ch = fmt[k]
        if ch != '%':
            if ch.isspace():
                while i < len(text) and text[i].isspace():
                    i += 1
            elif i < len(text) and text[i] == ch:
                i += 1
            else:
                return None
            k += 1
            continue
        k += 1
        sp = fmt[k]
        if sp in 'FT' :
            return scan(text, fmt[:k - 1] + {'F': '%Y-%m-%d', 'T': '%H:%M:%S'}[sp] + fmt[k + 1:]) if not f else undescribed(fmt)
        if sp in '369' and fmt[k + 1:k + 2] == 'f':
            n = int(sp)
            d = text[i:i + n]
            if len(d) != n or not (d.isascii() and d.isdigit()):
                return None
            f['f'] = int(d) * 10 ** (9 - n)
            i, k = i + n, k + 2
            continue
        if sp == '.' and fmt[k + 1:k + 2] == 'f' or sp == 'f':
            dot = sp == '.'
            k += 2 if dot else 1
            if dot:
                if i >= len(text) or text[i] != '.':
                    f['f'] = 0
                    continue
                i += 1
            j = i
            while j < len(text) and text[j].isascii() and text[j].isdigit() and (dot or j < i + 9):
                j += 1
            if j == i:
                return None
            d = text[i:j]
            f['f'] = int(d[:9]) * 10 ** (9 - len(d[:9])) if dot else int(d)
            i = j
            continue
        if sp not in W:
            undescribed(fmt)
        while i < len(text) and text[i].isspace():
            i += 1
        neg = False
        wd = W[sp]
        if sp == 'Y' and i < len(text) and text[i] in '+-':
            neg = text[i] == '-'
            i += 1
            wd = 99
        j = i
        while j < len(text) and j < i + wd and text[j].isascii() and text[j].isdigit():
            j += 1
        if j == i:
            return None
        f[sp] = -int(text[i:j]) if neg else int(text[i:j])
        i = j
        k += 1
    return f if i == len(text) else None


def undescribed(fmt):
    raise Undecided('date format %r' % fmt)


def text_of(e, st, x):
    v = e.deep(st, x)
    return v.v if isinstance(v, C) and isinstance(v.v, str) else None


@model('NaiveDateTime::parse_from_str', 'NaiveDate::parse_from_str', 'NaiveTime::parse_from_str', 'NaiveDateTime::parse_and_remainder')
def _parse(e, st, a, c):
    x, fmt = text_of(e, st, a[0]), text_of(e, st, a[1])
    if x is None or fmt is None or mname(c) != 'parse_from_str':
        return None
    kind = c.k['f'].rsplit('::', 2)[-2]
    f = scan(x, fmt)
    bad = [(st, err(T('chrono-error', C(x), C(fmt))))]
    if f is None:
        return bad
    if 'y' in f:
        return None
    date = all(k in f for k in 'Ymd')
    clock = all(k in f for k in 'HM')
    if kind != 'NaiveTime' and not date or kind != 'NaiveDate' and not clock:
        return bad
    if kind == 'NaiveTime':
        n = civil(1970, 1, 1, f['H'], f['M'], f.get('S', 0), f.get('f', 0))
    elif kind == 'NaiveDate':
        n = civil(f['Y'], f['m'], f['d'])
    else:
        n = civil(f['Y'], f['m'], f['d'], f['H'], f['M'], f.get('S', 0), f.get('f', 0))
    if n is None:
        return bad
    return one(st, ok(T({'NaiveTime': 'ntime', 'NaiveDate': 'ndate'}.get(kind, 'naive'), C(n))))


def ints(e, st, xs):
    out = [e.deep(st, x) for x in xs]
    return [x.v for x in out] if all(isinstance(x, C) and isinstance(x.v, int) for x in out) else None


@model('NaiveDate::from_ymd_opt')
def _ymd(e, st, a, c):
    v = ints(e, st, a)
    if v is None:
        return None
    n = civil(*v)
    return one(st, NONE if n is None else some(T('ndate', C(n))))


@model('NaiveTime::from_hms_opt', 'NaiveTime::from_hms_milli_opt', 'NaiveTime::from_hms_micro_opt', 'NaiveTime::from_hms_nano_opt')
def _hms(e, st, a, c):
    v = ints(e, st, a)
    if v is None:
        return None
    n = civil(1970, 1, 1, *v[:3], *[x * {'from_hms_milli_opt': 10 ** 6, 'from_hms_micro_opt': 1000}.get(mname(c), 1) for x in v[3:]])
    return one(st, NONE if n is None else some(T('ntime', C(n))))


@model('NaiveDate::and_hms_opt', 'NaiveDate::and_hms_milli_opt', 'NaiveDate::and_hms_micro_opt', 'NaiveDate::and_hms_nano_opt')
def _and_hms(e, st, a, c):
    d, v = nanos(e.deep(st, a[0])), ints(e, st, a[1:])
    if d is None or v is None:
        return None
    n = civil(1970, 1, 1, *v[:3], *[x * {'and_hms_milli_opt': 10 ** 6, 'and_hms_micro_opt': 1000}.get(mname(c), 1) for x in v[3:]])
    return one(st, NONE if n is None else some(naive(d + n)))


@model('NaiveDateTime::new', 'NaiveDate::and_time')
def _newdt(e, st, a, c):
    d, n = nanos(e.deep(st, a[0])), nanos(e.deep(st, a[1]))
    return one(st, naive(d + n)) if d is not None and n is not None else None


@model('Timelike::with_nanosecond', 'DateTime::with_nanosecond', 'NaiveDateTime::with_nanosecond', 'NaiveTime::with_nanosecond')
def _withns(e, st, a, c):
    x, v = e.deep(st, a[0]), ints(e, st, a[1:])
    n = nanos(x)
    if n is None or v is None:
        return None
    return one(st, NONE if not 0 <= v[0] < 2 * NS else some(T(x.op, C(n // NS * NS + v[0]))))


@model('DateTime::from_naive_utc_and_offset', 'DateTime::from_utc', 'NaiveDateTime::and_utc', 'TimeZone::from_utc_datetime')
def _fromutc(e, st, a, c):
    xs = [nanos(e.deep(st, x)) for x in a]
    xs = [x for x in xs if x is not None]
    return one(st, dt(xs[0])) if len(xs) == 1 else None


@model('TimeZone::from_local_datetime', 'NaiveDateTime::and_local_timezone')
def _local(e, st, a, c):
    x, z = (a[1], a[0]) if mname(c) == 'from_local_datetime' else (a[0], a[1])
    n, z = nanos(e.deep(st, x)), zone(e.deep(st, z))
    if n is None or z is None:
        return None
    if z == 'Utc':
        offs = [0]
    else:
        if getattr(e, 'local', None) is None:
            return None
        offs = e.local(n // NS)
    xs = tuple(dt(n - o * NS) for o in offs)
    return one(st, Adt(LR, 2, 'None', ()) if not xs else Adt(LR, len(xs) - 1, 'Single' if len(xs) == 1 else 'Ambiguous', xs, ('0', '1')[:len(xs)]))


def zone(z):
    s = str(z).rsplit('::', 1)[-1]
    return s if s in ('Utc', 'Local') else None


@model('LocalResult::single', 'LocalResult::earliest', 'LocalResult::latest', 'LocalResult::unwrap')
def _lr(e, st, a, c):
    r = e.deep(st, a[0])
    if not isinstance(r, Adt) or r.path != LR:
        return None
    m = mname(c)
    if m == 'unwrap':
        if r.vn == 'Single':
            return one(st, r.fs[0])
        return None
    if not r.fs or m == 'single' and len(r.fs) > 1:
        return one(st, NONE)
    return one(st, some(r.fs[-1 if m == 'latest' else 0]))


@model('TimeDelta::milliseconds', 'TimeDelta::seconds', 'TimeDelta::microseconds', 'TimeDelta::nanoseconds', 'TimeDelta::minutes', 'TimeDelta::hours',
       'TimeDelta::try_milliseconds', 'TimeDelta::try_seconds', 'TimeDelta::try_minutes', 'TimeDelta::try_hours')
def _delta(e, st, a, c):
    v = ints(e, st, a)
    if v is None:
        return None
    m = mname(c)
    k = m.split('_')[-1]
    x = T('timedelta', C(v[0] * {'milliseconds': 10 ** 6, 'seconds': NS, 'microseconds': 1000, 'nanoseconds': 1, 'minutes': 60 * NS, 'hours': 3600 * NS}[k]))
    return one(st, some(x) if m.startswith('try') else x)


@model('NaiveDateTime::checked_add_signed', 'NaiveDateTime::checked_sub_signed', 'DateTime::checked_add_signed', 'DateTime::checked_sub_signed')
def _addd(e, st, a, c):
    x, y = e.deep(st, a[0]), e.deep(st, a[1])
    n, d = nanos(x), nanos(y)
    if n is None or d is None:
        return None
    return one(st, some(T(x.op, C(n + (d if 'add' in mname(c) else -d)))))


def wrap(names, f):
    """Puts a model before whatever describes these functions otherwise."""
    for n in names:
        old = MODELS.get(n)

        def g(e, st, a, c, old=old):
            r = f(e, st, a, c)
            return r if r is not None else old(e, st, a, c) if old else None
        if old is not None and getattr(old, 'first', False):
            g.first = True
        MODELS[n] = g


def arith(e, st, a, c):
    x, y = e.d(st, a[0]), e.d(st, a[1])
    n, d = nanos(x), nanos(y)
    if n is None or d is None:
        return None
    m = mname(c)
    if isinstance(y, T) and y.op == 'timedelta':
        return one(st, T(x.op, C(n + (d if m == 'add' else -d))))
    if m == 'sub':
        return one(st, T('timedelta', C(n - d)))
    return None


wrap(['Add::add', 'Sub::sub'], arith)


def parts(e, st, a, c):
    x = e.deep(st, a[0])
    n = nanos(x)
    if n is None:
        return None
    m = mname(c)
    r = {'timestamp_millis': n // 10 ** 6, 'timestamp': n // NS, 'timestamp_micros': n // 1000, 'timestamp_nanos': n, 'timestamp_subsec_millis': n % NS // 10 ** 6,
         'timestamp_subsec_micros': n % NS // 1000, 'timestamp_subsec_nanos': n % NS, 'num_milliseconds': n // 10 ** 6, 'num_seconds': n // NS}.get(m)
    if r is not None:
        return one(st, C(r))
    if m == 'timestamp_nanos_opt':
        return one(st, some(C(n)))
    if m in ('to_utc', 'with_timezone') and x.op == 'dt':
        return one(st, x)
    if m == 'naive_utc':
        return one(st, naive(n))
    if m in ('naive_local', 'date_naive'):
        return None
    if m == 'date':
        return one(st, T('ndate', C(n // (86400 * NS) * 86400 * NS)))
    return None


wrap(['DateTime::' + m for m in ('timestamp_millis', 'timestamp', 'timestamp_micros', 'timestamp_nanos', 'timestamp_nanos_opt', 'timestamp_subsec_millis', 'timestamp_subsec_micros',
                                 'timestamp_subsec_nanos', 'to_utc', 'with_timezone', 'naive_utc')] +
     ['TimeDelta::num_milliseconds', 'TimeDelta::num_seconds', 'NaiveDateTime::date', 'NaiveDateTime::timestamp_millis', 'NaiveDateTime::timestamp'], parts)


@model('DateTime::from_timestamp_millis', 'DateTime::from_timestamp', 'DateTime::from_timestamp_micros', 'DateTime::from_timestamp_nanos')
def _fromts(e, st, a, c):
    v = ints(e, st, a)
    if v is None:
        return None
    m = mname(c)
    if m == 'from_timestamp':
        return one(st, some(dt(v[0] * NS + v[1])))
    if m == 'from_timestamp_nanos':
        return one(st, dt(v[0]))
    return one(st, some(dt(v[0] * {'from_timestamp_millis': 10 ** 6}.get(m, 1000))))


@model('Utc::now', 'Local::now', 'SystemTime::now')
def _now(e, st, a, c):
    """The time of the call: any time at all."""
    return one(st, T('now'))
