"""Judging one function: its closed form against the specification row, the storage and
pointer obligations of its body, and its behaviour on operands it has to reject."""
import re
import time
import traceback
from .summ import *
from .spec import *
from . import spec as SP

CATS = ("formula", "operand", "storage", "bounds", "null", "reject", "atomic", "excess", "own")


class Issue:
    __slots__ = ("cat", "fn", "msg", "file", "line")

    def __init__(self, cat, fn, msg, file, line):
        self.cat, self.fn, self.msg, self.file, self.line = cat, fn, msg, file, line

    def key(self):
        return "%s|%s" % (self.fn, self.cat)

    def __repr__(self):
        return "[%s] %s at %s:%s: %s" % (self.cat, self.fn, self.file, self.line, self.msg)


class Result:
    """per-function outcome; picklable"""

    def __init__(self, name):
        self.name = name
        self.issues = []
        self.verdicts = {}      # clause -> eq | sampled | unknown
        self.notes = []
        self.obl = {}           # kind -> [proved, total]
        self.wall = 0.0
        self.ok = True          # analysed at all

    def add(self, cat, fn, msg, file, line):
        self.issues.append(Issue(cat, fn, msg, file, line))


def is_container(p):
    return ptype(p["t"]) in CONT


def ref_params(fd):
    return [(nm, p) for nm, p in zip(names(fd), fd["ps"]) if is_Ref(p["t"]) and ptype(p["t"]) in CONT]


def req_pairs(S, req):
    """equality requirements between size names, other requirement expressions"""
    import re
    eqs, rest = [], []
    for r in req:
        m = re.fullmatch(r"([nzhw](?:[A-Z]|_\w+))\s*==\s*([nzhw](?:[A-Z]|_\w+))", r)
        if m:
            eqs.append(m.groups())
        else:
            rest.append(r)
    return eqs, rest


def accepted(prog, fd, row, **kw):
    """summary under the specified requirements (plus the ones the function itself imposes)"""
    sh = Shapes()
    eqs, rest = req_pairs(None, row.req + row.pre if row else [])
    for a, b in eqs:
        sh.unify(a, b)
    own = set()
    known = []
    QUOT.clear()
    SP.DERIVED.clear()
    if row and row.quots:
        D = Summary()
        D.sh, D.ops, D.fd, D.R = sh, {}, fd, Run(prog)
        for x in row.quots:
            for nm in set(re.findall(r"\b[nzhw]_\w+|\b[nzhw][A-Z]\b", " ".join(x))):
                dim(sh.find(nm))
        known = SP.set_quots(D, row)
    if row and row.pins:
        D = Summary()
        D.sh, D.ops, D.fd, D.R = sh, {}, fd, Run(prog)
        for x in row.pins:
            for nm in x[:1] + tuple(re.findall(r"\b[nzhw]_\w+|\b[nzhw][A-Z]\b", x[1])):
                if re.fullmatch(r"[nzhw](_\w+|[A-Z])", nm):
                    dim(sh.find(nm))
        set_pins(D, row.pins)

    def setup(R, S):
        S.sh = sh
        c = Ctx(S)
        for f in [c.expr(r) for r in rest] + known:
            for x in conjuncts(f):
                R.st.assume(x)
                own.add(x)

    for _ in range(4):
        S = run_once(prog, fd, sh, setup=setup, **kw)
        S.sh = sh
        if row is not None:
            break
        ch = False
        for a, b in size_eqs(S.facts):
            ch |= sh.unify(a, b)
        if not ch:
            break
    S.assumed = own
    return S


def intparams(fd):
    return [(nm, p) for nm, p in zip(names(fd), fd["ps"]) if is_int(ptype(p["t"]))]


def int_choices(S, lo=-2, hi=5):
    """values for integer parameters: small ones and values around every size symbol"""
    r = {}
    for nm, p in zip(names(S.fd), S.fd["ps"]):
        t = ptype(p["t"])
        if is_int(t):
            r[nm] = list(range(lo, hi + 1))
        elif t in S.R.prog.enum:
            r[nm] = [int(c["v"]) for c in S.R.prog.enum[t]["c"]]
        elif t in SIMPLE:
            for n, s in SIMPLE[t]:
                if s == "i":
                    r["%s.%s" % (nm, n)] = list(range(lo, hi + 1))
    return r


def dimnames(S):
    return sorted(S.R.dims)


def check_formula(S, row, res):
    """outputs equal the specification for every size and content (under the requirements)"""
    fd = S.fd
    c = Ctx(S)
    reqs = []
    _, rest = req_pairs(S, row.req + row.pre)
    for r in rest:
        reqs.append(c.expr(r))
    c.define(row.lets)
    pairs = []
    seen = set(row.free) | {"." + x for x in row.free}
    ints = int_choices(S, 0, 5)
    for name, dims, vs, rhs in row.outs:
        seen.add(name)
        if not dims:
            if name == "ret" and rhs.strip().startswith("&"):
                got = S.ret
                if isinstance(got, Struct) and got.cls == "$fn":
                    res.verdicts["ret"] = "eq" if got.f["f"] == rhs.strip()[1:] else "ne"
                    if got.f["f"] != rhs.strip()[1:]:
                        res.add("formula", fd["f"], "return value: the table selects %s where %s belongs" % (got.f["f"], rhs.strip()[1:]), fd["file"], fd["l"])
                else:
                    res.verdicts["ret"] = "ne" if isinstance(got, P) and all(t is None for _, t in got.alts) else "unknown"
                    if res.verdicts["ret"] == "ne":
                        res.add("formula", fd["f"], "return value: the table selects nothing where %s belongs" % rhs.strip()[1:], fd["file"], fd["l"])
                continue
            if name == "ret":
                want = c.expr(rhs)
                got = S.ret
                if not isinstance(got, T):
                    res.verdicts["ret"] = "unknown"
                    res.notes.append("return value not scalar in closed form")
                    continue
                pairs.append(("return value", want, got, []))
                continue
            if name in S.parts:
                pairs.append((name, c.expr(rhs), S.parts[name], []))
                continue
            if "." + name in S.ops:
                seen.add("." + name)
                got = field_now(S, name)
                if not isinstance(got, T):
                    res.verdicts[name] = "unknown"
                    res.notes.append("field %s not scalar in closed form" % name)
                    continue
                pairs.append((name, c.expr(rhs), got, []))
                continue
            raise SpecError("output without sizes: " + row.text)
        if name == "ret" and isinstance(S.ret, P):
            nul = lor(*[c0 for c0, tg in S.ret.alts if tg is None])
            if nul is not FALSE:
                w = find_witness(S, reqs, lnot(nul), ())
                if w is not None and w != "unknown":
                    res.verdicts["ret"] = "ne"
                    res.add("formula", fd["f"], "ret content: null is returned for valid operands (%s)" % w, fd["file"], fd["l"])
                    continue
        o = S.out.get(name)
        if o is None:
            o = vec_out(S, name)
        if o is None:
            res.verdicts[name] = "unknown"
            res.notes.append("%s: no closed form for the produced container" % name)
            continue
        wd = [c.expr(d) for d in dims]
        for k, (w, g) in enumerate(zip(wd, o.dims)):
            pairs.append(("%s size %d" % (name, k), w, g, []))
        if rhs.strip() == "any":
            continue
        # content over the specified index space
        qs = tuple(bv(ZERO, d, "q") for d in wd)
        old = dict(c.env)
        for v, q in zip(vs, qs):
            c.env[v] = q
        want = c.expr(rhs)
        c.env = old
        if o.cell is None:
            res.verdicts[name] = "unknown"
            res.notes.append("%s: content not in closed form" % name)
            continue
        got = subst(o.cell, dict(zip(o.vs, qs)))
        pairs.append(("%s content" % name, want, got, [(q, ZERO, d) for q, d in zip(qs, wd)]))
        tot = ONE
        for d in wd:
            tot = mul(tot, d)
        if o.n is not None:
            pairs.append(("%s storage length" % name, tot, o.n, []))
    rng = sorted(set(re.findall(r"\brnd([0-9]+)\b", row.text)))
    for k in rng:               # a drawn sample is any of the samples
        w = S.R.eng.draw_range.get(c.name("rnd" + k))
        if w is not None:
            pairs.append(("lowest sample drawn", ZERO, w[0], []))
            pairs.append(("highest sample drawn", c.expr("h_input_set-1"), w[1], []))
    groups = {"formula": [p for p in pairs if "storage" not in p[0]], "storage": [p for p in pairs if "storage" in p[0]]}
    un = []
    for name, o in S.out.items():
        if name in seen or name == "ret":
            continue
        src = S.ops.get(name)
        un.append((name, o))
    op = []
    for name, o in un:
        o0 = S.out0.get(name)
        if o0 is None:
            continue
        for k, (w, g) in enumerate(zip(o0.dims, o.dims)):
            op.append(("operand %s size %d" % (name, k), w, g, []))
        if o.cell is not None and o0.cell is not None:
            got = subst(o.cell, dict(zip(o.vs, o0.vs)))
            op.append(("operand %s content" % name, o0.cell, got, [(q, ZERO, d) for q, d in zip(o0.vs, o0.dims)]))
            if o.n is not None and o0.n is not None:
                op.append(("operand %s storage length" % name, o0.n, o.n, []))
    for name in S.out0:
        if name not in S.out and name not in seen and name in S.fields:
            res.notes.append("field %s: no closed form afterwards" % name)
    for name in S.fields:
        if "." + name not in seen and "." + name in S.ops:
            a, b = S.ops["." + name], field_now(S, name)
            if isinstance(a, T) and isinstance(b, T):
                op.append(("state %s" % name, a, b, []))
    groups["operand"] = op
    for g, ps in groups.items():
        if not ps:
            continue
        v = decide(ps, dimnames(S), ints, reqs)
        res.verdicts[g] = v.v
        if v.v == "ne":
            res.add(g, fd["f"], v.why, fd["file"], fd["l"])
        elif v.v == "unknown":
            res.notes.append("%s: %s" % (g, v.why))


def vec_out(S, name):
    v = S.ret if name == "ret" else None
    if isinstance(v, P) and len(v.alts) == 1 and v.alts[0][1] and v.alts[0][1][0] == "l":
        v = S.R.eng.read(S.R.st, v.alts[0][1])
    if not (isinstance(v, Struct) and v.cls == "$vec"):
        return None
    r = Out()
    r.cls = "$vec"
    r.dims = (v.f["n"],)
    r.vs = (bv(ZERO, v.f["n"], "q"),)
    r.n = None
    r.cell = None
    d = v.f.get("data")
    if isinstance(d, P) and d.alts and d.alts[-1][1] is not None and d.alts[-1][1][0] == "b":
        b = S.R.eng.buf(S.R.st, d.alts[-1][1][1])
        if isinstance(b, Buf):
            b = S.R.eng.as_rank(b, 1) if hasattr(S.R.eng, "as_rank") and b.dims is not None and len(b.dims) != 1 else b
            if b is not None and b.dims is not None and len(b.dims) == 1:
                r.cell = sel(b.arr, *r.vs)
    return r


def loop_env(loops):
    return [(t, lo, hi) for t, lo, hi in loops]


def find_witness(S, need, absent, loops, seed=3, tries=2500, lo=-2, hi=4, lowsize=1, unks=False):
    """small values of sizes, integer parameters and running loop counters under which every
    formula of `need` holds and `absent` fails: evidence that the obligation is violated.
    Only closed forms are valued (no unknowns), so a witness is conclusive."""
    import random
    if any(t.unk for t in need) or (absent is not None and absent.unk):
        return "unknown"
    if any(h is None for _, _, h in loops):
        return "unknown"
    rnd = random.Random(seed)
    dims = dimnames(S)
    ch = int_choices(S, lo, hi)
    th = {}
    for t in list(need) + ([absent] if absent is not None else []):
        SP.thresholds(t, th, set())
    for n in list(ch):
        for c in th.get(n, ()):
            if abs(c) < 1000:
                ch[n] = ch[n] + [c - 1, c, c + 1]
    bad = 0
    for k in range(tries):
        top = 2 if k % 3 == 0 else 4
        iv = {d: rnd.randint(lowsize, top) for d in dims}
        for d in dims:
            cs = [c for c in th.get(d, ()) if 0 < c < 300]
            if cs and rnd.random() < 0.3:
                iv[d] = max(lowsize, rnd.choice(cs) + rnd.choice((-1, 0, 1)))
        for n, vals in ch.items():
            iv[n] = rnd.choice(vals)
        v = algebra.Val((seed, k), iv, ("mix", "pos", "big")[k % 3])
        v.fuel = 30000
        env = {}
        try:
            ok = True
            for t, l, h in loops:
                a, b = int(v.ev(l, env)), int(v.ev(h, env))
                if b <= a:
                    ok = False
                    break
                x = rnd.randint(a, b - 1) if rnd.random() < 0.6 else rnd.choice((a, b - 1))
                env[t] = x
                if t.op == "v":
                    v.ints[t.args[0]] = x
            if not ok:
                continue
            if not all(v.ev(f, env) for f in need):
                continue
            if absent is None or not v.ev(absent, env):
                return "sizes/arguments " + SP._iv({n: x for n, x in iv.items()}) + (" loop counters %s" % [env[t] for t, _, _ in loops] if loops else "")
        except algebra.NoValue:
            continue
        except algebra.Unknown as e:
            return "unknown"
        except algebra.Uninit:
            bad += 1
            if bad > 200:
                return "unknown"
    return None


def check_obligations(S, res, kinds=("bounds", "null"), cat=None, tag=""):
    done = set()
    assumed = getattr(S, "assumed", ())
    for o in S.eng.obls:
        if o.kind not in kinds:
            continue
        r = res.obl.setdefault(o.kind, [0, 0])
        r[1] += 1
        if o.cond is TRUE or o.pc is FALSE:
            r[0] += 1
            continue
        key = (o.fn, o.line, o.kind)
        if key in done:
            continue
        need = [o.pc] + [f for f in o.facts] + list(assumed)
        w = find_witness(S, need, o.cond, o.loops)
        if w == "unknown" or w is None:
            res.notes.append("%s%s access at %s:%s (%s) not decided" % (tag, o.kind, o.file, o.line, o.what))
            continue
        done.add(key)
        if o.kind == "null":
            res.add("null", S.fd["f"], "%sdereferences a null reference (%s, in %s) with %s" % (tag, o.what, o.fn, w), o.file, o.line)
        else:
            res.add(cat or "bounds", S.fd["f"], "%saccess outside the storage (%s, in %s) with %s" % (tag, o.what, o.fn, w), o.file, o.line)


def check_owned(S, res, of=""):
    """each storage block is released at most once and not used afterwards; at exit it is released or
    held by exactly one container, and no container holds a released one"""
    eng, st = S.eng, S.R.st
    obs = [(o.pc, o.facts, o.cond, o.loops, o.what, o.fn, o.file, o.line) for o in eng.obls if o.kind == "own" or of and o.kind == "null" and o.what == "index"]
    held = {}
    this = S.this.alts[0][1][1] if isinstance(S.this, P) else None
    for c, v in st.cells.items():
        if isinstance(v, Struct) and isinstance(v.f.get("_data"), P):
            if S.fd.get("dtor") and c == this:
                continue
            for cnd, tg in v.f["_data"].alts:
                if tg and tg[0] == "b" and tg[1] in eng.live:
                    held.setdefault(tg[1], []).append((cnd, c, tg[2]))
    at = (S.fd["f"], S.fd["file"], S.fd["l"])
    for b, k in eng.live.items():
        live = st.cells.get(k, FALSE)
        hs = held.get(b, [])
        obs.append((TRUE, st.facts, lor(lnot(live), *[h[0] for h in hs]), (), "neither released nor held by a container at the end", *at))
        for cnd, c, off in hs:
            obs.append((TRUE, st.facts, lor(lnot(cnd), live), (), "still held after its release at the end", *at))
            obs.append((TRUE, st.facts, lor(lnot(cnd), eq(off, ZERO)), (), "held by a pointer into it at the end", *at))
        for i in range(len(hs)):
            for j in range(i):
                if hs[i][1] != hs[j][1]:
                    obs.append((TRUE, st.facts, lnot(land(hs[i][0], hs[j][0])), (), "held by two containers at the end", *at))
    r = res.obl.setdefault("own", [0, 0])
    seen = set()
    for pc, facts, cond, loops, what, fn, file, line in obs:
        r[1] += 1
        if cond is TRUE or pc is FALSE:
            r[0] += 1
            continue
        w = find_witness(S, [pc] + list(facts), cond, loops)
        if w == "unknown":
            res.notes.append("own %s:%s (%s) not decided" % (file, line, what))
        elif w is None:
            r[0] += 1
            r.append(1)
        elif (what, line) not in seen:
            seen.add((what, line))
            res.add("own", S.fd["f"], "storage%s %s (in %s) with %s" % (of, what, fn, w), file, line)
    res.obl["own"] = r[:2]


def snapshot(S):
    S.out0 = {}
    cur = S.R.st.cells
    S.R.st.cells = dict(S.cells0)
    for k, v in S.ops.items():
        if isinstance(v, P):
            c = container_out(S.R, v)
            if c is not None:
                S.out0[k] = c
    S.R.st.cells = cur


def reject_formula(S):
    """list of (condition, loops) under which the call is rejected; rejections inside reductions of
    running loops quantify over the counter"""
    return [(land(full, c), loops, f, ln) for full, c, f, ln, loops, top in S.eng.rejects if c is not FALSE]


def check_rejects(prog, fd, row, res, **kw):
    """the function rejects exactly the operands that break the requirements"""
    sh = Shapes()
    S = run_once(prog, fd, sh, **kw)
    S.sh = sh
    c = Ctx(S)
    if not row.req:
        req = TRUE
    else:
        req = land(*[c.expr(r) for r in row.req])
    pre = land(*[c.expr(r) for r in row.pre])
    rej = reject_formula(S)
    res.nrej = len(rej)
    import random
    rnd = random.Random(11)
    dims = dimnames(S)
    ch = int_choices(S, -2, 5)
    th = {}
    SP.thresholds(req, th, set())
    for cnd, _, _, _ in rej:
        SP.thresholds(cnd, th, set())
    if req.unk or any(c0.unk for c0, _, _, _ in rej):
        # unknown guards: only conclude from the decided ones
        res.notes.append("a rejection condition is not in closed form")
    n = miss = 0
    for k in range(1200):
        iv = {d: rnd.randint(1, 3) for d in dims}
        same = rnd.random()
        if same < 0.6 and dims:
            x = rnd.randint(1, 3)
            for d in dims:
                if rnd.random() < 0.75:
                    iv[d] = x
        if rnd.random() < 0.35:
            # satisfy the equality requirements
            for a, b in req_pairs(S, row.req)[0]:
                if a in iv and b in iv:
                    iv[b] = iv[a]
        for d in dims:
            cs = [x for x in th.get(d, ()) if 0 < x < 300]
            if cs and rnd.random() < 0.2:
                iv[d] = max(1, rnd.choice(cs) + rnd.choice((-1, 0, 1)))
        for nm, vals in ch.items():
            iv[nm] = rnd.choice(vals + [x for x in th.get(nm, ()) if abs(x) < 1000])
        v = algebra.Val((5, k), iv, ("mix", "pos", "big")[k % 3])
        v.fuel = 30000
        try:
            if not v(pre):
                continue
            w = bool(v(req))
        except (algebra.NoValue, algebra.Unknown, algebra.Uninit):
            continue
        got = False
        unsure = False
        by = None
        for cnd, loops, f, ln in rej:
            try:
                if loops:
                    if any(h is None for _, _, h in loops):
                        unsure = True
                        continue
                    hit = _exists(v, loops, 0, {}, cnd)
                else:
                    hit = bool(v(cnd))
            except algebra.NoValue:
                continue
            except (algebra.Unknown, algebra.Uninit):
                unsure = True
                continue
            if hit:
                got = True
                by = (f, ln)
                break
        if unsure and not got:
            continue
        n += 1
        if w and got:
            res.add("excess", fd["f"], "valid operands are rejected (%s) by the check at %s:%d" % (SP._iv(iv), by[0], by[1]), fd["file"], by[1])
            return S
        if not w and not got:
            res.add("reject", fd["f"], "operands breaking `%s` are accepted: %s" % (", ".join(row.req), SP._iv(iv)), fd["file"], fd["l"])
            return S
    res.reject_points = n
    res.verdicts["reject"] = "sampled" if n > 50 else "unknown"
    return S


def check_served(S, row, res):
    """no check met on the way turns away operands that fulfil the requirements"""
    c = Ctx(S)
    reqs = [c.expr(r) for r in req_pairs(S, row.req + row.pre)[1]]
    if any(r.unk for r in reqs):
        return
    seen = set()
    for full, cnd, f, ln, loops, top in S.eng.rejects:
        if cnd is FALSE or full is FALSE or full.unk or cnd.unk or (f, ln) in seen:
            continue
        w = find_witness(S, reqs + [full, cnd], None, loops, tries=1 if full is TRUE and cnd is TRUE and not reqs and not loops else 200)
        if w not in (None, "unknown"):
            seen.add((f, ln))
            res.verdicts["served"] = "ne"
            res.add("formula", S.fd["f"], "valid operands are rejected (%s) by the check in %s at line %s" % (w, f, ln), S.fd["file"], S.fd["l"])


def _exists(v, loops, i, env, cnd):
    if i == len(loops):
        return bool(v.ev(cnd, env))
    t, lo, hi = loops[i]
    for x in range(int(v.ev(lo, env)), int(v.ev(hi, env))):
        env[t] = x
        if t.op == "v":
            v.ints[t.args[0]] = x
        if _exists(v, loops, i + 1, env, cnd):
            return True
    return False


def check_atomic(S, res, nonnull=True):
    """at every rejection the operands still have their initial size and content"""
    fd = S.fd
    snapshot(S)
    R = S.R
    cur = R.st.cells
    n = 0
    for (full, cnd, f, ln, loops, top), cells in zip(S.eng.rejects, S.eng.reject_cells):
        if cnd is FALSE or full is FALSE:
            continue
        R.st.cells = dict(cells)
        pairs = []
        for k, v in S.ops.items():
            o0 = S.out0.get(k)
            if o0 is None:
                continue
            try:
                o = container_out(R, v)
            except Give:
                o = None
            if o is None:
                continue
            for j, (w, g) in enumerate(zip(o0.dims, o.dims)):
                pairs.append(("size %d of %s when the call is rejected at line %d" % (j, k, ln), w, g, []))
            if o.cell is not None and o0.cell is not None:
                got = subst(o.cell, dict(zip(o.vs, o0.vs)))
                pairs.append(("content of %s when the call is rejected at line %d" % (k, ln), o0.cell, got, [(q, ZERO, d) for q, d in zip(o0.vs, o0.dims)]))
        R.st.cells = cur
        n += 1
        if all(a is b for _, a, b, _ in pairs):
            continue
        if loops:
            res.notes.append("rejection at line %d inside a loop: atomicity not decided" % ln)
            continue
        v = decide(pairs, dimnames(S), int_choices(S, -2, 5), [full, cnd])
        if v.v == "ne":
            res.add("atomic", fd["f"], v.why, fd["file"], ln)
            break
    res.atomic_points = getattr(res, "atomic_points", 0) + n


def check_null(prog, fd, res, skip=(), **kw):
    """a null container operand is rejected before it is used, and nothing has changed by then"""
    for nm, p in ref_params(fd):
        if nm in skip:
            continue
        sh = Shapes()
        try:
            S = run_null(prog, fd, sh, nm, **kw)
        except Give as e:
            res.notes.append("null %s: %s" % (nm, e))
            continue
        bad = None
        und = 0
        for o in S.eng.obls:
            if o.kind != "null" or o.cond is TRUE or o.pc is FALSE:
                continue
            if not getattr(o, "nullable", True):
                continue
            w = find_witness(S, [o.pc] + list(o.facts), o.cond, o.loops)
            if w in ("unknown", None):
                und += 1
                continue
            bad = o
            break
        if bad is not None and not_covered(S):
            res.notes.append("null %s: not decided (%s)" % (nm, not_covered(S)[0]))
            continue
        res.obl.setdefault("nullrun", [0, 0])[1] += 1
        if bad is not None:
            res.add("null", fd["f"], "operand %s = null is dereferenced (%s, in %s)" % (pname(fd, nm), bad.what, bad.fn), bad.file, bad.line or fd["l"])
        elif und:
            res.notes.append("null %s: %d undecided" % (nm, und))
        else:
            res.obl["nullrun"][0] += 1
            check_atomic(S, res)


def pname(fd, nm):
    for n, p in zip(names(fd), fd["ps"]):
        if n == nm:
            return p["n"]
    return nm


def run_null(prog, fd, sh, which, **kw):
    def nulled(R, S):
        pass

    R = Run(prog, kw.get("intr"), kw.get("opaque"))
    S = Summary()
    S.R, S.fd, S.sh = R, fd, sh
    S.ops = {}
    this = None
    if fd.get("cls") and not fd.get("static"):
        this = operand(R, sh, fd["cls"], "M", "*") if fd["cls"] in CONT else R.new(fd["cls"])
        S.ops["M"] = this
    vals = []
    for nm, p in zip(names(fd), fd["ps"]):
        v = NULL if nm == which else operand(R, sh, ptype(p["t"]), nm, p["t"])
        vals.append(v)
        if nm != which:
            S.ops[nm] = v
    S.cells0 = dict(R.st.cells)
    S.ret = R.call(fd, this, vals)
    S.facts = R.st.facts
    S.eng = R.eng
    S.out = {}
    return S


def not_covered(S):
    """constructs outside the analysed fragment met by this run (a write through null or a call
    that never returns normally is a result, not a gap)"""
    return [x for x in S.eng.incomplete if not x.startswith(("store through unknown", "no normal return"))]


def demote(res, n0, why):
    """results that rest on an over-approximated construct are not verdicts"""
    for i in res.issues[n0:]:
        res.notes.append("not decided (%s): %s" % (why[0], i))
    del res.issues[n0:]
    for k in res.verdicts:
        if res.verdicts[k] == "ne":
            res.verdicts[k] = "unknown"
    res.notes += ["incomplete: %s" % x for x in why[:3]]


def analyse(prog, fd, row, parts, tlimit=20, **kw):
    res = Result(fd["f"] + fd["sig"])
    res.loc = prog.loc(fd)
    t0 = time.time()
    try:
        with limit(tlimit):
            if parts & {"formula", "operand", "storage", "bounds"}:
                S = accepted(prog, fd, row, **kw)
                snapshot(S)
                part = not_covered(S)
                n0 = len(res.issues)
                if row is not None and row.outs is not None:
                    check_formula(S, row, res)
                    check_served(S, row, res)
                check_obligations(S, res)
                if part:
                    demote(res, n0, part)
            if parts & {"reject", "atomic", "excess"}:
                n0 = len(res.issues)
                if row is not None:
                    S = check_rejects(prog, fd, row, res, **kw)
                else:
                    sh = Shapes()
                    S = run_once(prog, fd, sh, **kw)
                    S.sh = sh
                check_atomic(S, res)
                part = not_covered(S)
                if part:
                    demote(res, n0, part)
            if "own" in parts:
                n0 = len(res.issues)
                sh = Shapes()
                S = run_once(prog, fd, sh, own=True, **kw)
                S.sh = sh
                check_owned(S, res)
                part = not_covered(S)
                if part:
                    demote(res, n0, part)
                if S.this is not None and fd["cls"] in CONT and not fd.get("ctor"):
                    n0 = len(res.issues)        # once more for a receiver that has no storage yet
                    sh = Shapes()
                    S = run_once(prog, fd, sh, own="empty", **kw)
                    S.sh = sh
                    check_owned(S, res, " of an empty container")
                    part = not_covered(S)
                    if part:
                        demote(res, n0, part)
            if "null" in parts:
                check_null(prog, fd, res, **kw)
    except Give as e:
        res.ok = False
        res.notes.append("not analysed: %s" % e)
    except SpecError as e:
        res.ok = False
        res.notes.append("SPEC: %s" % e)
    except RecursionError:
        res.ok = False
        res.notes.append("not analysed: depth")
    except Exception:
        res.ok = False
        res.notes.append("EXC " + " / ".join(traceback.format_exc().splitlines()[-4:]))
    res.wall = time.time() - t0
    return res
