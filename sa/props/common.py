from values import *
import terms
from terms import Unknown
from values import *
from prog import *
import prog
import models as M
from models import lt, le, eqf, fmin, fmax, add, sub, mul, div, is_some, is_ref
from engine import Engine, _Poison
import zones


def never(c, rule, site, cond, detail=""):
    """cond must be impossible, with linear reasoning over the integers"""
    if cond is DF or cond is DBOT:
        return c.ob(rule, site, True)
    x = zones.possible(cond)
    return c.ob(rule, site, x is None, "%s when %s" % (detail, (x or "")[:300]))
