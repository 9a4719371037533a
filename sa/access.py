"""Settings: what is set (or given at construction) is what is read back, nothing else moves,
and no object starts with an indeterminate value."""
import collections
import re
from .summ import *
from . import spec as SP
from .analyse import Result

NOT_SETTING = {"initialized"}


def classes(prog, containers=False):
    by = collections.defaultdict(dict)
    for (q, sig), fd in prog.fn.items():
        if fd.get("cls") and (containers or fd["cls"] not in CONT) and not fd.get("static"):
            by[fd["cls"]].setdefault(q.split("::")[-1], []).append(fd)
    return by


def getters(ms):
    """setting name -> its reader"""
    r = {}
    for m, fs in sorted(ms.items()):
        for fd in fs:
            if not fd["ps"] and fd["ret"] != "void" and not fd.get("ctor"):
                x = re.fullmatch(r"(?:get|is)_(\w+)", m)
                if x and not m.startswith("get_class") and x.group(1) not in NOT_SETTING:
                    r[x.group(1)] = fd
    return r


def pairs(ms):
    gs = getters(ms)
    r = []
    for m, fs in sorted(ms.items()):
        if m.startswith("set_") and m[4:] in gs and len(fs) == 1 and len(fs[0]["ps"]) == 1:
            r.append((m[4:], fs[0], gs[m[4:]]))
    return r, gs


def reading(R, v):
    """comparable form of a value a reader returned"""
    if isinstance(v, P):
        c = container_out(R, v)
        return (v, c)
    return (v, None)


def same(R, a, b):
    """None when two readings agree, else 'differs' / 'unknown'"""
    (v, c), (w, d) = a, b
    if isinstance(v, T) and isinstance(w, T):
        return _terms([("value", v, w, [])])
    if isinstance(v, P) and isinstance(w, P):
        if _targets(v) == _targets(w) is not None and (c is None or d is None or c.cell is d.cell):
            return None
        if c is not None and d is not None and c.cls == d.cls and c.cell is not None and d.cell is not None:
            ps = [("size %d" % i, x, y, []) for i, (x, y) in enumerate(zip(c.dims, d.dims))]
            cell = d.cell
            for x, y in zip(d.vs, c.vs):
                cell = subst(cell, {x: y}) if x is not y else cell
            ps.append(("content", c.cell, cell, [(x, ZERO, z) for x, z in zip(c.vs, c.dims)]))
            return _terms(ps)
        if _targets(v) is not None and _targets(w) is not None:
            return "another object"
        return "unknown"
    if isinstance(v, Struct) and isinstance(w, Struct) and v.cls == w.cls:
        for k in v.f:
            if k in w.f:
                x = same(R, (v.f[k], None), (w.f[k], None))
                if x:
                    return x
        return None
    if v is w:
        return None
    return "unknown"


def _targets(p):
    r = []
    for c, t in p.alts:
        if c is FALSE:
            continue
        r.append((c, t))
    return r if all(t is None or t[0] in ("l", "b") for _, t in r) else None


def _terms(ps):
    if any(x.unk or y.unk for _, x, y, _ in ps):
        return "unknown"
    if all(x is y for _, x, y, _ in ps):
        return None
    for l, x, y, _ in ps:
        if x is not y and (SP.has_uninit(x) != SP.has_uninit(y)):
            return "an indeterminate value"
    dims = []
    v = SP.decide(ps, dims)
    if v.v in ("eq", "sampled"):
        return None
    return v.why if v.v == "ne" else "unknown"


def round_trip(prog, setter, getter, others):
    """run the setter on an arbitrary object, then every reader"""
    res = Result(setter["f"])
    sh = Shapes()
    R = Run(prog)
    ops = {}
    this = model_obj(R, sh, setter["cls"], "", ops)
    p = setter["ps"][0]
    a = operand(R, sh, ptype(p["t"]), "A", p["t"])
    want = reading(R, a)
    before = {}
    for n, g in others.items():
        try:
            before[n] = reading(R, R.call(g, this, []))
        except Give:
            pass
    cells = dict(R.st.cells)
    R.call(setter, this, [a])
    got = reading(R, R.call(getter, this, []))
    name = setter["f"].split("::")[-1][4:]
    d = same(R, want, got)
    res.verdicts["read back"] = "unknown" if d == "unknown" else "ne" if d else "eq"
    if d == "unknown":
        res.notes.append("what %s returns afterwards was not decided" % getter["f"])
    elif d:
        res.add("formula", setter["f"], "value set is not the value read back by %s (%s)" % (getter["f"].split("::")[-1], d), setter["file"], setter["l"])
    aft = reading(R, a)
    if aft[1] is not None:
        d = same(R, want, aft)
        if d and d != "unknown":
            res.add("operand", setter["f"], "changes the object it is given (%s)" % d, setter["file"], setter["l"])
    for n, b in before.items():
        if n == name:
            continue
        try:
            now = reading(R, R.call(others[n], this, []))
        except Give:
            continue
        d = same(R, b, now)
        res.verdicts["other " + n] = "unknown" if d == "unknown" else "ne" if d else "eq"
        if d and d != "unknown":
            res.add("operand", setter["f"], "changes what %s returns (%s)" % (others[n]["f"].split("::")[-1], d), setter["file"], setter["l"])
    return res


def indeterminate(prog, R, v, path, seen, out, depth=0):
    """scalar parts of a value whose content is indeterminate"""
    if isinstance(v, T):
        if not v.unk and (SP.has_uninit(v) or v.op == "f" and v.args[0] == "b:uninit"):
            out.append(path)
    elif isinstance(v, Struct):
        for k, x in v.f.items():
            indeterminate(prog, R, x, path + "." + k if path else k, seen, out, depth + 1)
    elif isinstance(v, P) and depth < 6:
        for c, t in v.alts:
            if t == ("u", "uninit") and c is not FALSE:
                out.append(path)
            if t is not None and t[0] == "l" and (t[1], t[2]) not in seen:
                seen.add((t[1], t[2]))
                indeterminate(prog, R, R.eng.read(R.st, t), path, seen, out, depth + 1)


def constructed(prog, fd, gs):
    """run a constructor on arbitrary arguments; readers give the arguments back, nothing is indeterminate"""
    res = Result(fd["f"] + ("(%d)" % len(fd["ps"]) if fd["ps"] else "()"))
    sh = Shapes()
    R = Run(prog)
    c = R.eng.new_cell(R.st, R.eng.raw_struct(R.st, fd["cls"]))
    this = ptr(("l", c, ()))
    vals = [operand(R, sh, ptype(p["t"]), nm, p["t"]) for nm, p in zip(names(fd), fd["ps"])]
    want = [reading(R, v) for v in vals]
    R.call(fd, this, vals)
    bad = []
    indeterminate(prog, R, R.st.cells[c], "", set(), bad)
    res.verdicts["definite"] = "ne" if bad else "eq"
    if bad:
        res.add("formula", res.name, "leaves %s indeterminate" % ", ".join(sorted(set(bad))), fd["file"], fd["l"])
    for p, w in zip(fd["ps"], want):
        n = re.sub(r"^p_?", "", p.get("n") or "").lower()
        if n in gs:
            d = same(R, w, reading(R, R.call(gs[n], this, [])))
            res.verdicts["keeps " + n] = "unknown" if d == "unknown" else "ne" if d else "eq"
            if d == "unknown":
                res.notes.append("what %s returns after construction was not decided" % gs[n]["f"])
            elif d:
                res.add("formula", res.name, "%s given to the constructor is not what %s returns (%s)" % (p["n"], gs[n]["f"].split("::")[-1], d), fd["file"], fd["l"])
        elif isinstance(R.st.cells[c], Struct):
            # no reader: the member of the same name is what the model works with
            f = R.st.cells[c].f.get("_" + re.sub(r"^p_", "", p.get("n") or ""))
            if isinstance(f, T) and isinstance(w[0], T) and f.s == "i" and w[0].s == "r":
                w = (fn("trunc", w[0]), None)            # kept as the whole number its type holds
            if f is not None and type(f) is type(w[0]):
                d = same(R, w, reading(R, f))
                res.verdicts["keeps " + n] = "unknown" if d == "unknown" else "ne" if d else "eq"
                if d and d != "unknown":
                    res.add("formula", res.name, "%s given to the constructor is not the setting the model works with (%s)" % (p["n"], d), fd["file"], fd["l"])
    return res
