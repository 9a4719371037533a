"""Integer divisions: no argument, setting or size makes a divisor zero."""
from .analyse import *
from .analyse import not_covered
from .engine import Engine


def _plain(e):
    while e["k"] == "cast":
        e = e["e"]
    return e


def _nodes(n):
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for v in n.values():
            yield from _nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from _nodes(v)


def divisions(n):
    """lines of the integer divisions with a divisor that is not a plain non-zero number"""
    out = set()
    for x in _nodes(n):
        if x["k"] in ("bin", "asg") and x.get("op") in ("/", "%", "/=", "%=") and is_int(x.get("t", "")) and not is_real(x.get("clt", "")):
            b = _plain(x["b"])
            if not (b["k"] == "int" and int(b["v"]) != 0):
                out.add(x["l"])
    return out


def calls(n, keys):
    return {(x["f"], x["sig"]) for x in _nodes(n) if x["k"] in ("call", "mcall") and (x.get("f"), x.get("sig")) in keys}


def public(f):
    return f.get("cls") and f.get("acc") == "public"


def judge(job):
    """one function: its own divisions and those of the helpers in `also` reached through it"""
    prog, k, also, tl = job
    fd = prog.fn[k]
    res = Result(fd["f"] + fd["sig"])
    body = dict(fd["body"])
    sts = body["b"]
    # nothing after the last statement with a division can matter to one
    last = max(i for i, s in enumerate(sts) if divisions(s) or calls(s, also))
    body["b"] = sts[: last + 1]
    want = {(fd["f"], l) for l in divisions(fd["body"])}
    for a in also:
        want |= {(a[0], l) for l in divisions(prog.fn[a]["body"])}
    own = {(fd["f"], l) for l in divisions(fd["body"])}
    f2 = dict(fd, body=body)
    got = {}
    Engine.first_pass = True
    try:
        with limit(tl):
            model = fd.get("cls") and not fd.get("static") and fd["cls"] not in CONT
            S = run_once(prog, f2, Shapes(), receiver=True if model else None)
            S.sh = Shapes()
            for o in S.eng.obls:
                if o.kind != "div" or (o.fn, o.line) not in want:
                    continue
                at = (o.fn, o.line)
                if o.cond is TRUE or o.pc is FALSE:
                    got.setdefault(at, "ok")
                    continue
                w = find_witness(S, [o.pc] + list(o.facts), o.cond, o.loops, lowsize=0)
                if w in ("unknown", None):
                    if got.get(at) != "ne":
                        got[at] = "unknown"
                        res.notes.append("divisor at %s:%s not decided" % (o.file, o.line))
                elif got.get(at) != "ne":
                    got[at] = "ne"
                    res.add("div", o.fn, "divides an integer by zero%s with %s" % ("" if o.fn == fd["f"] else " (called from %s)" % fd["f"], w), o.file, o.line)
    except Give as e:
        res.ok = False
        res.notes.append("not analysed: %s" % e)
    except RecursionError:
        res.ok = False
        res.notes.append("not analysed: depth")
    finally:
        Engine.first_pass = False
    for at in own - set(got):
        got[at] = "unknown"
        res.notes.append("division at line %s not reached" % at[1])
    res.verdicts = {"%s:%s" % at: v for at, v in sorted(got.items())}
    return k, res


def sites(prog):
    return sorted(k for k, f in prog.fn.items() if f.get("body") and divisions(f["body"]))


def callers(prog, ks):
    """public functions reaching `ks`, with the helpers on the way"""
    ks = set(ks)
    roots = {}
    todo = set(ks)
    seen = set(ks)
    while todo:
        new = set()
        for k, f in prog.fn.items():
            if f.get("body") and k not in seen:
                if calls(f["body"], todo):
                    if public(f):
                        roots[k] = True
                    else:
                        new.add(k)
                    if not public(f):
                        seen.add(k)
        todo = new
    return sorted(roots), seen
