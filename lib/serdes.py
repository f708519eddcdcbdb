"""Deserializing from and serializing to abstract `serde_yaml::Value`s: the derived and hand-written serde code, and
serde_yaml's own `Value` (de)serializer, are interpreted as they are compiled; only the content is abstract."""
import models
from absint import Interp, Inconclusive, State, RES, OPT

VAL = "serde_yaml::value::Value"
NUM = "serde_yaml::number::Number"
NN = "serde_yaml::number::N"
MAP = "serde_yaml::mapping::Mapping"


class U:
    """A symbolic integer or float of the given serde_yaml number kind (0 PosInt, 1 NegInt, 2 Float)."""
    def __init__(self, kind, term):
        self.kind, self.term = kind, term


class Map(tuple):
    """Mapping content: a tuple of (key, content)."""


def value(c):
    if c is None:
        return ("agg", VAL, 0, ())
    if isinstance(c, bool):
        return ("agg", VAL, 1, (("c", 1 if c else 0),))
    if isinstance(c, U):
        return ("agg", VAL, 2, (("agg", NUM, 0, (("agg", NN, c.kind, (c.term,)),)),))
    if isinstance(c, int):
        return value(U(0 if c >= 0 else 1, ("c", c)))
    if isinstance(c, float):
        return value(U(2, models.fl(c)))
    if isinstance(c, str):
        return ("agg", VAL, 3, (("s", c),))
    if isinstance(c, list):
        return ("agg", VAL, 4, (("list", tuple(value(x) for x in c)),))
    if isinstance(c, (Map, dict)):
        es = tuple((value(k), value(v)) for k, v in (c.items() if isinstance(c, dict) else c))
        return ("agg", VAL, 5, (("agg", MAP, 0, (("map", "i", es),)),))
    if isinstance(c, tuple) and c and c[0] == "bool":
        return ("agg", VAL, 1, (c[1],))
    if isinstance(c, tuple):
        return ("agg", VAL, 3, (c,))          # a string term
    raise TypeError(c)


def run(F, adt, kind, v, st=None, budget=400000):
    """(interp, [(verdict, value, state)]) of deserializing content v into adt, or serializing the value v."""
    inst = F.insts[F.serde[adt, kind]]
    I = Interp(F, budget=budget)
    if kind == "de":
        args = [v]
    elif kind == "deref":
        args = [("rv", v)]
    elif kind == "destr":
        args = [("agg", "serde::de::value::StrDeserializer", 0, (v, ("agg", "core::marker::PhantomData", 0, ())))]
    else:
        args = [("rv", v), ("agg", "serde_yaml::value::ser::Serializer", 0, ())]
    out = []
    for r, s in I.run(inst, args, st):
        if r[0] == "agg" and r[1] == RES:
            out.append(("ok" if r[2] == 0 else "err", r[3][0], s))
        else:
            out.append(("?", r, s))
    return I, out


def show(v, d=0):
    """Readable rendering of an abstract value."""
    if d > 12:
        return "…"
    k = v[0]
    if k == "rv":
        return show(v[1], d)
    if k == "c":
        return str(v[1])
    if k == "s":
        return repr(v[1])
    if k == "agg":
        n = v[1].rsplit("::", 1)[-1]
        return "%s.%d(%s)" % (n, v[2], ", ".join(show(x, d + 1) for x in v[3]))
    if k == "list":
        return "[%s]" % ", ".join(show(x, d + 1) for x in v[1])
    if k == "map":
        return "{%s}" % ", ".join("%s: %s" % (show(a, d + 1), show(b, d + 1)) for a, b in v[2])
    return str(v)[:160]
