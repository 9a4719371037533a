"""What classes register: bound methods, properties and constants, read from the tree of the registering functions."""
import re
from .ir import walk


def uncast(e):
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e["e"]
    return e


def text(e):
    e = uncast(e)
    return e.get("v") if isinstance(e, dict) and e.get("k") == "str" else None


def constant(prog, e):
    """value of a literal, enumerator or negated literal, else None"""
    e = uncast(e)
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k in ("int", "real", "float", "bool", "char") and e.get("v") is not None:
        v = e["v"]
        return float({"true": 1, "false": 0}.get(v, v)) if not isinstance(v, bool) else float(v)
    if k == "un" and e.get("op") == "-":
        v = constant(prog, e["e"])
        return None if v is None else -v
    if k in ("enum", "econst", "var") and e.get("v") is not None:
        return float(e["v"])
    if k == "ctor" and len(e.get("a", [])) == 1:
        return constant(prog, e["a"][0])
    return None


class Bound:
    def __init__(self, name, args, fn, sig, defs, loc):
        self.name, self.args, self.fn, self.sig, self.defs, self.loc = name, args, fn, sig, defs, loc
        self.ndef = len(defs)


class Reg:
    """one class's registrations"""

    def __init__(self, cls, fd):
        self.cls, self.fd = cls, fd
        self.methods, self.props, self.consts, self.odd = [], [], [], []


def nodes(prog, fd, seen):
    """the function's nodes and those of the functions it calls"""
    if (fd["f"], fd["sig"]) in seen:
        return
    seen.add((fd["f"], fd["sig"]))
    for x in walk(fd.get("body") or {}):
        yield fd, x
        if x.get("k") in ("call", "mcall") and (x.get("f"), x.get("sig")) in prog.fn:
            yield from nodes(prog, prog.fn[(x["f"], x["sig"])], seen)


def registrations(prog):
    out = {}
    for (q, s), fd in sorted(prog.fn.items()):
        if not q.endswith("::_bind_methods") or q.startswith(("ClassDB", "vp_")):
            continue
        r = out.setdefault(fd["cls"], Reg(fd["cls"], fd))
        for f, x in nodes(prog, fd, set()):
            if x.get("k") not in ("call", "mcall"):
                continue
            loc = "%s:%s" % (f["file"], x["l"])
            n = x["f"]
            if n.startswith("ClassDB::bind_method"):
                m = uncast(x["a"][0])
                while isinstance(m, dict) and m.get("k") == "ctor" and len(m["a"]) == 1:
                    m = uncast(m["a"][0])
                t = uncast(x["a"][1])
                if isinstance(t, dict) and t.get("k") == "un":
                    t = uncast(t["e"])
                if not (isinstance(m, dict) and m.get("k") == "call" and m["f"].startswith("vp_method")) or t.get("k") != "fn":
                    r.odd.append(loc)
                    continue
                a = [text(y) for y in m["a"]]
                r.methods.append(Bound(a[0], a[1:], t["f"], t["sig"], x["a"][2:], loc))
            elif n.startswith("vp_property"):
                a = [text(y) for y in x["a"]]
                k = re.match(r'\s*Variant::(\w+)\s*,\s*"([^"]*)"(.*)', a[0] or "")
                hint = re.findall(r'"([^"]*)"', k.group(3)) if k else []
                r.props.append((k.group(2) if k else None, k.group(1) if k else None, hint[0] if hint else "", a[1], a[2], loc))
            elif n == "vp_constant":
                r.consts.append((text(x["a"][0]), loc))
    return out


def plain(t):
    t = re.sub(r"\bconst\b|&|\bclass\b|\bstruct\b", "", t)
    return " ".join(t.split()).strip()


KIND = {"OBJECT": lambda t: t.startswith("Ref<"), "REAL": lambda t: t in ("float", "double"), "INT": lambda t: t in ("int", "unsigned int", "long", "unsigned long", "short", "long long") or "::" in t,
        "BOOL": lambda t: t == "bool", "STRING": lambda t: t == "String", "ARRAY": lambda t: t == "Array", "POOL_REAL_ARRAY": lambda t: t == "PoolVector<float>" or t == "PoolRealArray",
        "POOL_INT_ARRAY": lambda t: t == "PoolVector<int>" or t == "PoolIntArray", "VECTOR2I": lambda t: t == "Vector2i" or t == "Size2i", "VECTOR3I": lambda t: t == "Vector3i" or t == "Size3i"}


def issues(prog, regs, count):
    """(key, message, location)"""
    out = []
    for c, r in sorted(regs.items()):
        def bad(what, msg, loc):
            out.append(("%s|%s" % (c, what), "%s: %s" % (c, msg), loc))
        names = {}
        for m in r.methods:
            count("bound_methods")
            fd = prog.fn.get((m.fn, m.sig))
            own = m.fn.split("::")[-1]
            if m.name in names:
                bad("twice:" + m.name, "the method %s is bound twice" % m.name, m.loc)
            names[m.name] = m
            if m.name != own and m.name + "_bind" != own and "_" + m.name != own and not own.startswith(m.name + "_"):
                bad("name:" + m.name, "the name %s is bound to the function %s" % (m.name, own), m.loc)
            if m.fn.rsplit("::", 1)[0] != c and not derives(prog, c, m.fn.rsplit("::", 1)[0]):
                bad("class:" + m.name, "the name %s is bound to a function of another class" % m.name, m.loc)
            if fd is None:
                count("bound_functions_without_body")
                continue
            ps = [p["n"] for p in fd["ps"]]
            if len(ps) < len(m.args):
                bad("args:" + m.name, "%s takes %d arguments but %d are named" % (m.name, len(ps), len(m.args)), m.loc)
            pn = [x[2:] if x.startswith("p_") else x for x in ps]
            for i, a in enumerate(m.args[: len(pn)]):
                b = a[2:] if a and a.startswith("p_") else a
                if b != pn[i] and b in pn:
                    bad("order:" + m.name, "argument %d of %s is named %s, which is its argument %d" % (i + 1, m.name, a, pn.index(b) + 1), m.loc)
                    break
            if len(set(m.args)) != len(m.args):
                bad("dupargs:" + m.name, "two arguments of %s have the same name" % m.name, m.loc)
            if m.ndef > len(ps):
                bad("defaults:" + m.name, "%s has %d default values for %d arguments" % (m.name, m.ndef, len(ps)), m.loc)
            for p, d in zip(fd["ps"][::-1], m.defs[::-1]):
                if p.get("def") is None:
                    continue
                a, b = constant(prog, p["def"]), constant(prog, d)
                if a is None or b is None:
                    count("default_values_not_constant")
                    continue
                count("default_values")
                if abs(a - b) > 1e-9 * max(1, abs(a)):
                    bad("default:%s:%s" % (m.name, p["n"]), "%s of %s defaults to %g when bound and to %g otherwise" % (p["n"], m.name, b, a), m.loc)
        pn = set()
        for n, kind, hint, s, g, loc in r.props:
            count("properties")
            if n in pn:
                bad("property:%s" % n, "the property %s is added twice" % n, loc)
            pn.add(n)
            if s and s not in names:
                bad("property:%s" % n, "the setter %s of the property %s is not bound" % (s, n), loc)
            if g and g not in names:
                bad("property:%s" % n, "the getter %s of the property %s is not bound" % (g, n), loc)
            if s and s not in ("set_%s" % n, "%s_set" % n) or g and g not in ("get_%s" % n, "%s_get" % n, "is_%s" % n, "has_%s" % n, str(n)):
                bad("property:%s" % n, "the property %s is read by %s and written by %s" % (n, g, s), loc)
            fs, fg = names.get(s), names.get(g)
            fs, fg = fs and prog.fn.get((fs.fn, fs.sig)), fg and prog.fn.get((fg.fn, fg.sig))
            if fs and fg and len(fs["ps"]) == 1 and plain(fs["ps"][0]["t"]) != plain(fg["ret"]):
                bad("property:%s" % n, "the property %s is written as %s and read as %s" % (n, plain(fs["ps"][0]["t"]), plain(fg["ret"])), loc)
            if fg and kind in KIND:
                t = plain(fg["ret"])
                if not KIND[kind](t):
                    bad("property:%s" % n, "the property %s is declared %s but holds %s" % (n, kind, t), loc)
                elif kind == "OBJECT" and hint.startswith("MLPP") and t != "Ref<%s>" % hint:
                    bad("property:%s" % n, "the property %s is declared %s but holds %s" % (n, hint, t), loc)
        cn = {}
        for n, loc in r.consts:
            count("constants")
            if n in cn:
                bad("constant:" + n, "the constant %s is bound twice" % n, loc)
            cn[n] = loc
        # an enumeration of the class is exposed whole or not at all
        for e, d in sorted(prog.enum.items()):
            if e.rsplit("::", 1)[0] != c:
                continue
            m = [x["n"] for x in d["c"]]
            if not any(x in cn for x in m):
                continue
            count("enumerations")
            for x in m:
                if x not in cn and not x.endswith(("_MAX", "_COUNT")):
                    bad("constant:" + x, "the enumerator %s is not exposed while others of %s are" % (x, e.split("::")[-1]), "%s:%s" % (r.fd["file"], r.fd["l"]))
    return out


def derives(prog, c, b):
    while c in prog.rec:
        if c == b:
            return True
        bs = prog.rec[c].get("b") or prog.rec[c].get("bases") or []
        if not bs:
            return False
        c = bs[0] if isinstance(bs[0], str) else bs[0].get("n")
    return False
