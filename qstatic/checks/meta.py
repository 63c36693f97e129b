"""comparison of a resulting signal's metadata with that of the signal it was made from (C04, C06)"""
from .common import *
from ..params import getter_attr
from ..values import unit_str


def tags(s, name):
    d = set(s.dp)
    return {x[len(name) + 1:] for x in d if x.startswith(name + ".")}


def arg_attrs(r, name):
    """attribute summaries of the signal argument"""
    a = r.final.get(name)
    return a


def compare(src, out, name, expect=None):
    """yields (attribute, what) for every piece of metadata of the argument `src` that `out` does not carry.
    expect: attribute -> attribute or parameter it has to come from instead"""
    expect = expect or {}
    if out.cls != src.cls:
        yield "class", "is a %s, not a %s" % (str(out.cls).split(".")[-1], str(src.cls).split(".")[-1])
        return
    for k, a in sorted(src.attrs.items()):
        b = (out.attrs or {}).get(k)
        if k in expect:
            want = expect[k]
            if b is None:
                yield k, "is lost"
                continue
            ref = src.attrs.get(want)
            t = tags(b, name)
            if ref is not None:
                if want not in t:
                    yield k, "does not come from %s%s" % (want, " but from %s" % ", ".join(sorted(t)) if t else "")
                elif b.f is not None and ref.f is not None and None not in (b.f.unit, ref.f.unit) and b.f.unit != ref.f.unit:
                    yield k, "has the unit %s, not %s" % (unit_str(b.f.unit), unit_str(ref.f.unit))
            elif want not in b.dp:
                yield k, "does not come from the argument '%s'" % want
            elif b.f is not None and a.f is not None and None not in (b.f.unit, a.f.unit) and b.f.unit != a.f.unit:
                yield k, "has the unit %s, not %s" % (unit_str(b.f.unit), unit_str(a.f.unit))
            continue
        if b is None:
            yield k, "is lost"
            continue
        if a.k == "const":
            if b.k != "const" or b.c != a.c:
                if b.k == "const":
                    yield k, "is %r, not %r" % (b.c, a.c)
                elif tags(b, name) - {k}:
                    yield k, "is taken from %s" % ", ".join(sorted(tags(b, name) - {k}))
            continue
        if a.k == "top" or b.k in ("top", "union"):
            continue
        t = tags(b, name)
        if b.k == "const" and b.c is None:
            yield k, "is lost (None)"
        elif k not in t:
            yield k, "is not the one of the signal%s" % (" but taken from %s" % ", ".join(sorted(t)) if t else "")
        elif a.k == "inst" and b.k == "inst" and a.cls != b.cls:
            yield k, "changes from %s to %s" % (a.cls, b.cls)
        elif a.f is not None and b.f is not None and None not in (a.f.unit, b.f.unit) and a.f.unit != b.f.unit:
            yield k, "changes its unit from %s to %s" % (unit_str(a.f.unit), unit_str(b.f.unit))
        elif a.f is not None and b.f is not None and None not in (a.f.deg, b.f.deg) and a.f.deg != b.f.deg and "Z" not in (a.f.deg, b.f.deg):
            yield k, "is computed from the received field"
        elif a.f is not None and b.f is not None and None not in (a.f.shape, b.f.shape) and len(a.f.shape) != len(b.f.shape):
            yield k, "changes its dimensions"
        elif a.k != b.k and "const" not in (a.k, b.k) and {a.k, b.k} != {"num", "inst"}:
            yield k, "changes from %s to %s" % (a.k, b.k)


def signals(v, path="result"):
    """(path, summary) of the signal objects returned (not their attributes)"""
    for p, s in v.walk(path):
        if s.k == "inst" and s.cls and s.cls.startswith("qampy.signals."):
            yield p, s
