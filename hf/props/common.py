"""Helpers shared by the property modules."""
from ..scen import *
from ..val import *
from ..ai import Undecided, LT, EQ, GT, ANY, Engine, St
from ..check import Bad
from .. import strs as S

META = '.hoodie'


def fld(v, *names):
    for n in names:
        if not isinstance(v, Adt):
            return None
        v = v.field(n)
    return v


def unwrap(v):
    """The value of Ok / Some."""
    while isinstance(v, Adt) and v.path in (RES, OPT) and v.vi == (0 if v.path == RES else 1):
        v = v.fs[0]
    return v


def variant(v):
    return v.vn if isinstance(v, Adt) else None


def items(v):
    if isinstance(v, (L, It, Tup)):
        return list(v.items)
    if isinstance(v, M):
        return [k for k, _ in v.items]
    return None


def need(cond, msg):
    if not cond:
        raise Undecided(msg)


def before(s, a, b, mask=LT | EQ):
    """Whether the state knows a <= b (or the given ordering)."""
    return not (s.facts.get_cmp(a, b) & ~mask & ANY)


def tm(t, tz='utc'):
    return T('time', t, C(tz))
