"""Objects used before they were set up: every public operation right after the default constructor (and after only the data
was given) keeps away from references that do not exist yet."""
from .analyse import *
from .analyse import not_covered
from .engine import ptr
from .model import Run
from .summ import operand, ptype

# what the object framework provides, not operations of the class
FRAMEWORK = ("get_class", "_notification", "_setv", "_getv", "inherits", "is_class", "_bind", "_initialize", "get_type", "get_save_class",
             "get_parent", "_is_class", "initialize_class", "get_inherit", "get_category", "_get_property")


def framework(k):
    return k[0].split("::")[1].startswith(FRAMEWORK)


def classes(prog):
    """class -> its default constructor"""
    out = {}
    for k, f in prog.fn.items():
        if f.get("ctor") and not f["ps"] and f.get("cls", "").startswith("MLPP") and "::" not in f["cls"] and f["cls"] not in CONT:
            out[f["cls"]] = k
    return out


def operations(prog, cls):
    return sorted(k for k, f in prog.fn.items() if f.get("body") and f.get("cls") in cls and f.get("acc") == "public" and not f.get("ctor")
                  and not f.get("dtor") and not f.get("static") and not framework(k))


def data_setters(prog, c):
    """the operations that only hand an object over"""
    return sorted(k for k, f in prog.fn.items() if f.get("body") and f.get("cls") == c and f.get("acc") == "public" and k[0].split("::")[1].startswith("set_")
                  and len(f["ps"]) == 1 and "Ref<" in f["ps"][0]["t"])


def argument(prog, R, sh, cls, nm, q):
    """an operand; objects of the library are default constructed ones"""
    k = ptype(q["t"])
    if k in cls and "Ref<" in q["t"]:
        c = R.eng.new_cell(R.st, R.eng.raw_struct(R.st, k))
        v = ptr(("l", c, ()))
        R.call(prog.fn[cls[k]], v, [])
        return v
    return operand(R, sh, k, nm, q["t"])


def judge(job):
    prog, ck, k, before, tl = job
    f = prog.fn[k]
    cls = classes(prog)
    r = Result(k[0] + k[1])
    r.obl = {}
    try:
        with limit(tl):
            sh = Shapes()
            R = Run(prog)
            S = Summary()
            c = R.eng.new_cell(R.st, R.eng.raw_struct(R.st, f["cls"]))
            this = ptr(("l", c, ()))
            cargs = [argument(prog, R, sh, cls, "C%d" % i, q) for i, q in enumerate(prog.fn[ck]["ps"])]
            R.call(prog.fn[ck], this, cargs)
            S.R = R
            S.fd = f
            S.sh = sh
            S.ops = {"M": this, **{"C%d" % i: v for i, v in enumerate(cargs)}}
            for i, b in enumerate(before):
                g = prog.fn[b]
                if not g["ps"]:
                    R.call(g, this, [])
                    continue
                v = argument(prog, R, sh, cls, "D%d" % i, g["ps"][0])
                S.ops["D%d" % i] = v
                R.call(g, this, [v])
            vals = []
            for nm, q in zip(names(f), f["ps"]):
                v = argument(prog, R, sh, cls, nm, q)
                vals.append(v)
                S.ops[nm] = v
            n0 = len(R.eng.obls)
            S.cells0 = dict(R.st.cells)
            S.ret = R.call(f, this, vals)
            S.facts = R.st.facts
            S.eng = R.eng
            S.out = {}
            # storage of the containers themselves is another matter: references and elements of lists of layers are judged here
            R.eng.obls = [o for o in R.eng.obls[n0:] if (o.kind == "null" and o.what != "index") or (o.kind == "bounds" and o.what == "container index")]
            r.inc = not_covered(S)
            check_obligations(S, r, kinds=("null", "bounds"))
    except Give as e:
        r.ok = False
        r.notes.append("not analysed: %s" % e)
    except RecursionError:
        r.ok = False
        r.notes.append("not analysed: depth")
    return k, bool(before), r


def jobs(prog, tier):
    """(constructor, operation, calls made in between, time limit)"""
    cls = classes(prog)
    ops = operations(prog, cls)
    out = []
    tl = 60 if tier == "quick" else 300
    withdata = {}
    for q, f in prog.fn.items():
        if f.get("ctor") and f.get("cls") in cls and any("Ref<" in x["t"] for x in f["ps"]):
            withdata.setdefault(f["cls"], []).append(q)
    for k in ops:
        c = prog.fn[k]["cls"]
        out.append((cls[c], k, (), tl))
        ds = tuple(data_setters(prog, c))
        ini = tuple(q for q in ops if q[0] == c + "::initialize")
        if k not in ds:
            if ds:
                out.append((cls[c], k, ds, tl))
            if ini:
                out.append((cls[c], k, ds + ini, tl))
        out += [(q, k, (), tl) for q in sorted(withdata.get(c, []))]
    return out
