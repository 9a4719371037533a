"""The properties and the rules that decide them."""
import fnmatch
import re
from . import ir, driver
from .ir import Broken
from .analyse import analyse, CATS
from .spec import Row
from .summ import CONT
from . import rows_core, rows_ml, rows_la, rows_model, rows_net, rows_misc, rows_num, rows_small

PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f

    return d


_P = None


def program():
    global _P
    if _P is None:
        _P = ir.library()
    return _P


def _one(job):
    text, name, sig, parts, tl, kw = job
    row = Row(text) if text else None
    fd = _P.fn[(name, sig)]
    r = analyse(_P, fd, row, set(parts), tl, **kw)
    return text, name, sig, r


def enumerators(t, prog=None):
    """enumerator names among a row's requirements become their values in the current tree"""
    a = t.split("|", 2)
    if len(a) < 3:
        return t
    val = {c["n"]: c["v"] for e in (prog or program()).enum.values() for c in e["c"]}
    a[1] = re.sub(r"\b[A-Z][A-Z0-9]*(?:_[A-Z0-9]+)+\b", lambda m: str(val.get(m.group(0), m.group(0))), a[1])
    return "|".join(a)


def find_rows(rep, rows):
    """resolve specification rows to functions of the current tree"""
    jobs = []
    missing = []
    for t in rows:
        t = enumerators(t)
        r = Row(t)
        fs = [f for f in program().get(r.name, r.nargs) if r.sig is None or r.sig in f["sig"]]
        if len(fs) != 1:
            missing.append(r.name)
            continue
        jobs.append((t, fs[0]["f"], fs[0]["sig"]))
    if len(missing) > max(3, len(rows) // 5):
        raise Broken("%d of %d specified operations not found, e.g. %s" % (len(missing), len(rows), missing[:5]))
    for m in missing:
        rep.undecided.append("operation %s not found" % m)
    return jobs


def run_rows(rep, jobs, parts, cats, tl=20, kw=None):
    """analyse, fold results into the report; only issues of the given categories count"""
    js = [(t, n, s, tuple(parts), tl, kw or {}) for t, n, s in jobs]
    res = driver.pmap(_one, js)
    okn = 0
    for text, name, sig, r in res:
        rep.count("functions_analysed" if r.ok else "functions_not_analysed")
        okn += r.ok
        for k, v in r.verdicts.items():
            if k in cats or k in ("ret",) or k == "reject" and "reject" in cats:
                rep.count({"eq": "clauses_by_normal_form", "sampled": "clauses_by_valuation_of_closed_forms", "unknown": "clauses_undecided", "ne": "clauses_refuted"}[v])
        for k, (a, b) in r.obl.items():
            if k == "own":
                rep.count("ownership_obligations", b)
                rep.count("ownership_discharged", a)
            if (k == "bounds" and "bounds" in cats) or (k in ("null", "nullrun") and "null" in cats):
                rep.count({"bounds": "bounds_obligations", "null": "null_obligations", "nullrun": "null_operand_analyses"}[k], b)
                rep.count({"bounds": "bounds_discharged", "null": "null_discharged", "nullrun": "null_operand_rejected"}[k], a)
        if hasattr(r, "nrej"):
            rep.count("rejection_sites", r.nrej)
        if hasattr(r, "atomic_points") and "atomic" in cats:
            rep.count("rejection_points_compared", r.atomic_points)
        for n in r.notes:
            if "bounds access" in n and "bounds" not in cats:
                continue
            rep.undecided.append("%s: %s" % (name, n))
        for i in r.issues:
            if i.cat in cats:
                key = "%s|%s" % (i.fn, i.cat)
                if i.cat == "null":
                    key += "|" + i.msg.split(" is dereferenced")[0].split(" (")[0].replace("operand ", "")
                elif i.cat in ("formula", "operand", "storage", "atomic"):
                    key += "|" + i.msg.split(":")[0].split(" when ")[0]
                rep.find(key, "%s: %s" % (i.fn, i.msg), "%s:%s" % (i.file, i.line))
        if text and len(rep.samples) < 8 and r.ok and r.verdicts:
            rep.sample("%s => %s" % (text, r.verdicts))
    if js and okn < len(js) * 0.6:
        raise Broken("only %d of %d functions could be analysed" % (okn, len(js)))
    return res


def methods_of(*classes, skip=(), special=False):
    out = []
    for (q, sig), fd in sorted(program().fn.items()):
        if fd.get("cls") in classes and (special or not fd.get("ctor") and not fd.get("dtor")) and "::operator" not in q and not any(fnmatch.fnmatch(q, s) for s in skip):
            out.append((None, q, sig))
    return out


def merge(jobs, extra):
    have = {(n, s) for _, n, s in jobs}
    return jobs + [j for j in extra if (j[1], j[2]) not in have]


# functions whose bodies are iterative numerical algorithms without closed form
HEAVY = ["*::eigen*", "*::svd*", "*::inverse*", "*::adjoint*", "*::pinverse*", "*::solve", "*::matrix_powern", "*::det", "*::detb", "*::_bind_methods", "*::get_class*", "*::*image*", "*::to_string", "*::gaussian_noise*", "*::create_gaussian_noise"]

HEAVY_LA = ["*::eig*", "*::svd*", "*::inverse*", "*::adjoint*", "*::pinverse*", "*::det*", "*::cofactor*", "*::gaussian_noise*", "*::gram_schmidt*", "*::qrd*", "*::chd*", "*::solve*", "*::lsp*", "*::linear_ind*", "*::null_space*", "*::positive_def*", "*::zero_eig*"]

VALUE = {"formula", "operand", "storage"}


@prop("C01")
def c01(rep, tier):
    rep.rules.append("every element-wise operation's stored content, for operands of any size and content, equals the operation named (closed form by gated value numbering and loop summarisation vs. specification)")
    jobs = find_rows(rep, rows_core.elementwise())
    run_rows(rep, jobs, {"formula"}, VALUE)


@prop("C02")
def c02(rep, tier):
    rep.rules.append("closed form of products, reductions, structural operations and factories equals the specification for every size and content")
    jobs = find_rows(rep, rows_core.products())
    run_rows(rep, jobs, {"formula"}, VALUE)


@prop("C03")
def c03(rep, tier):
    rep.rules.append("closed form of accessors, row/slice getters, setters, insertion, removal and conversions equals the specification for every index, size and content; all other cells keep their content")
    jobs = find_rows(rep, rows_core.accessors())
    run_rows(rep, jobs, {"formula"}, VALUE)


@prop("C04")
def c04(rep, tier):
    rep.rules.append("each load/store through a data pointer carries the obligation 0 <= index < allocated length under its path condition and each dereference the obligation non-null; allocated length equals the declared size after every operation")
    jobs = find_rows(rep, rows_core.all_rows())
    raw = [j for j in jobs if "*" in j[2]]                # length of a raw array is the caller's word
    run_rows(rep, jobs, {"formula"}, {"storage"}, tl=8)
    run_rows(rep, raw + [j for j in methods_of(*CONT, skip=HEAVY) if "*" not in j[2]], {"bounds"}, {"bounds"}, tl=8)


@prop("C05")
def c05(rep, tier):
    rep.rules.append("operands breaking the stated requirements reach a reporting rejection and valid ones do not; a null operand is rejected before any dereference; at every rejection all operands have their initial size and content")
    jobs = merge(find_rows(rep, rows_core.all_rows()), methods_of(*CONT, skip=HEAVY))
    run_rows(rep, jobs, {"reject", "null"}, {"reject", "excess", "null", "atomic"}, tl=8)


@prop("C06")
def c06(rep, tier):
    rep.rules.append("every release, reallocation and access of container storage carries the obligation that the block was not released before; when an operation, constructor or destructor ends, each block is either released or held by exactly one container, and no container holds a released one (a destroyed one holds none)")
    jobs = [j for j in methods_of(*CONT, skip=[h for h in HEAVY if "image" not in h], special=True) if "*" not in j[2] or "set_from_ptr" in j[1]]
    run_rows(rep, jobs, {"own"}, {"own"}, tl=8)


# ---------------------------------------------------------------- activation functions
def act_split(rows, frag):
    return [r for r in rows if frag(r.split("(")[0].split("::")[1])]


@prop("A01")
def a01(rep, tier):
    rep.rules.append("closed form of every scalar, vector and matrix form of an activation equals the activation's definition applied to each element (softmax: to each row), for every size and content")
    run_rows(rep, find_rows(rep, act_split(rows_ml.activation_rows(), lambda n: n[:-1].endswith("_norm") and "deriv" not in n)), {"formula"}, VALUE)


@prop("A02")
def a02(rep, tier):
    rep.rules.append("closed form of every derivative form equals the derivative of the activation's definition, element by element, for every size and content")
    run_rows(rep, find_rows(rep, act_split(rows_ml.activation_rows(), lambda n: "deriv" in n)), {"formula"}, VALUE)


@prop("A03")
def a03(rep, tier):
    rep.rules.append("for every enumerator and both modes, each dispatcher's closed form (call forms) or returned function (lookup forms) under selector == enumerator is the one the enumerator names")
    run_rows(rep, find_rows(rep, rows_ml.dispatch_rows(program())), {"formula"}, VALUE)


# ---------------------------------------------------------------- costs and regularisation
@prop("K01")
def k01(rep, tier):
    rep.rules.append("closed form of each loss equals its definition over all elements, for every size and content, vector and matrix forms alike")
    run_rows(rep, find_rows(rep, act_split(rows_ml.cost_rows(), lambda n: "deriv" not in n)), {"formula"}, VALUE)


@prop("K02")
def k02(rep, tier):
    rep.rules.append("closed form of each loss gradient equals the (per-sample) gradient of the loss definition at every element")
    run_rows(rep, find_rows(rep, act_split(rows_ml.cost_rows(), lambda n: "deriv" in n)), {"formula"}, VALUE)


@prop("K03")
def k03(rep, tier):
    rep.rules.append("for every loss identifier the evaluated form and the looked-up function are those the identifier names")
    run_rows(rep, find_rows(rep, rows_ml.cost_dispatch_rows(program())), {"formula"}, VALUE)


@prop("K04")
def k04(rep, tier):
    rep.rules.append("for every regularisation kind the closed forms of penalty, penalty gradient and regularised weights equal their definitions")
    run_rows(rep, find_rows(rep, rows_ml.reg_rows(program())), {"formula"}, VALUE)


# ---------------------------------------------------------------- linear algebra helpers
@prop("L01")
def l01(rep, tier):
    rep.rules.append("closed form of each helper equals its definition at every index, for every size and content")
    run_rows(rep, find_rows(rep, rows_la.linalg_rows()), {"formula"}, VALUE)


@prop("L02")
def l02(rep, tier):
    rep.rules.append("operand sizes breaking the stated relation reach a reporting rejection, fitting ones do not; every element access carries the obligation 0 <= index < size")
    run_rows(rep, find_rows(rep, rows_la.linalg_rows()), {"formula", "reject"}, {"reject", "excess"})
    run_rows(rep, methods_of("MLPPLinAlg", skip=HEAVY + HEAVY_LA), {"bounds"}, {"bounds"}, tl=8)


# ---------------------------------------------------------------- models, from an arbitrary object state
RECV = {"receiver": True}
NAMEDR = {"receiver": "named"}                # the contents finished loops leave are named


@prop("L03")
def l03(rep, tier):
    rep.rules.append("with the sizes given, recursion and loops unfold completely; the resulting closed form of the entries is compared with the definition")
    run_rows(rep, find_rows(rep, rows_small.rows(tier)), {"formula"}, VALUE, tl=60 if tier == "quick" else 300, kw={"unroll": 6})


@prop("M01")
def m01(rep, tier):
    rep.rules.append("closed form of each prediction call, from an arbitrary object state, equals link(w.x + b) for the state's weights and bias; every other field is unchanged")
    run_rows(rep, find_rows(rep, rows_model.predictions()), {"formula"}, VALUE, tl=60, kw=RECV)


@prop("M02")
def m02(rep, tier):
    rep.rules.append("closed form of weights, bias and cached predictions after one and two training epochs (and one epoch of two batches), from an arbitrary object state, equals the update rule's; every other field is unchanged")
    run_rows(rep, find_rows(rep, rows_model.glm_trainers(tier)), {"formula"}, VALUE, tl=100 if tier == "quick" else 400, kw=NAMEDR)


@prop("M03")
def m03(rep, tier):
    rep.rules.append("closed form of weights, bias and cached predictions after one and two steps of every optimiser, from an arbitrary object state, equals the optimiser's recurrence; every other field is unchanged")
    run_rows(rep, find_rows(rep, rows_model.linreg(tier)), {"formula"}, VALUE, tl=100 if tier == "quick" else 400, kw=NAMEDR)


@prop("M04")
def m04(rep, tier):
    rep.rules.append("closed form of predictions and of parameters after one and two training steps, from an arbitrary object state, equals the model's formula and update rule; every other field is unchanged")
    run_rows(rep, find_rows(rep, rows_model.expreg() + rows_model.softmaxreg() + rows_model.dualsvc()), {"formula"}, VALUE, tl=100 if tier == "quick" else 400, kw=NAMEDR)



@prop("M05")
def m05(rep, tier):
    rep.rules.append("closed form of every field after construction from data or initialisation: data and settings kept, counts recorded, weights and biases drawn with the sizes the data and settings prescribe")
    run_rows(rep, find_rows(rep, rows_model.ctor_rows()), {"formula"}, VALUE, tl=60, kw=NAMEDR)


SMALL = {"receiver": "named", "unroll": 6}


@prop("M06")
def m06(rep, tier):
    rep.rules.append("for each size given, closed form of assignments, centroids and cost after initialisation, one and two rounds of training and prediction, from an arbitrary object state, equals the definition's")
    run_rows(rep, find_rows(rep, rows_small.kmeans(tier)), {"formula"}, VALUE, tl=60 if tier == "quick" else 300, kw=SMALL)


@prop("M07")
def m07(rep, tier):
    rep.rules.append("for each size given, the class returned equals the most frequent one among the k samples first in order of distance, over an arbitrary object state")
    run_rows(rep, find_rows(rep, rows_small.knn(tier)), {"formula"}, VALUE, tl=100 if tier == "quick" else 400, kw=SMALL)


@prop("M08")
def m08(rep, tier):
    rep.rules.append("for each size given, closed form of weights, bias and cached predictions equals the solution of the normal equations / the Newton step, written with the explicit inverse")
    run_rows(rep, find_rows(rep, rows_small.solved()), {"formula"}, VALUE, tl=60 if tier == "quick" else 300, kw=SMALL)


@prop("M09")
def m09(rep, tier):
    rep.rules.append("closed form of the class returned equals the class of highest log prior plus log densities over an arbitrary object state of any size; for each number of samples given, closed form of priors, means, deviations and stored predictions after construction equals their definition")
    run_rows(rep, find_rows(rep, rows_small.bayes()), {"formula"}, VALUE, tl=200 if tier == "quick" else 500, kw=SMALL)


@prop("N01")
def n01(rep, tier):
    rep.rules.append("closed form of layer passes, predictions and costs of every network, for arbitrary weights, 0-2 (generative: 3-5) hidden layers of any width, equals the composition of the layers; weights and every other unlisted field are unchanged")
    rows = rows_net.predictions() + rows_net.layer_rows() + rows_net.layer_predictions() + rows_net.cost_rows() + rows_net.wgan_rows()
    run_rows(rep, find_rows(rep, rows), {"formula"}, VALUE, tl=100 if tier == "quick" else 400, kw=NAMEDR)


@prop("N02")
def n02(rep, tier):
    rep.rules.append("closed form of every layer's weights and biases and of the refreshed prediction after one and two training steps, from arbitrary weights, equals backpropagation at the weights that gave the error, followed by the optimiser's recurrence")
    rows = rows_net.training(tier) + rows_net.ann_training(tier) + rows_net.mann_training(tier) + rows_net.schedule_rows()
    run_rows(rep, find_rows(rep, rows), {"formula"}, VALUE, tl=150 if tier == "quick" else 400, kw=NAMEDR)


# ---------------------------------------------------------------- settings and construction
def _setting(job):
    kind, name, sig, other = job
    from . import access
    fd = _P.fn[(name, sig)]
    ms = access.classes(_P)[fd["cls"]]
    prs, gs = access.pairs(ms)
    try:
        if kind == "set":
            g = [g for n, s, g in prs if s is fd][0]
            r = access.round_trip(_P, fd, g, gs)
        else:
            r = access.constructed(_P, fd, gs)
        r.ok = True
    except Exception as e:                    # reported as undecided, and too many of them end the check
        r = access.Result(name)
        r.ok = False
        r.notes.append("not analysed (%s)" % (str(e) or type(e).__name__))
    return name, sig, r


def run_settings(rep, jobs):
    bad = 0
    for name, sig, r in driver.pmap(_setting, jobs):
        rep.count("functions_analysed" if r.ok else "functions_not_analysed")
        bad += not r.ok
        for v in r.verdicts.values():
            rep.count({"eq": "readings_equal", "unknown": "readings_undecided", "ne": "readings_refuted"}[v])
        for n in r.notes:
            rep.undecided.append("%s: %s" % (name, n))
        for i in r.issues:
            rep.find("%s|%s" % (i.fn, i.cat), "%s: %s" % (i.fn, i.msg), "%s:%s" % (i.file, i.line))
        if len(rep.samples) < 8 and r.ok:
            rep.sample("%s => %s" % (r.name, r.verdicts))
    if bad > len(jobs) * 0.4:
        raise Broken("only %d of %d functions could be analysed" % (len(jobs) - bad, len(jobs)))


@prop("S01")
def s01(rep, tier):
    rep.rules.append("for every setter with a reader: from an arbitrary object state, after set(x) the reader returns x, x itself keeps its content and every other reader returns what it returned before")
    from . import access
    jobs = []
    for c, ms in sorted(access.classes(program()).items()):
        for n, s, g in access.pairs(ms)[0]:
            jobs.append(("set", s["f"], s["sig"], None))
    if len(jobs) < 60:
        raise Broken("only %d setter/reader pairs found" % len(jobs))
    run_settings(rep, jobs)


@prop("S02")
def s02(rep, tier):
    rep.rules.append("for every constructor: no field that exists afterwards holds an indeterminate value, and each argument with a reader is what the reader returns")
    from . import access
    jobs = []
    for c, ms in sorted(access.classes(program(), True).items()):
        for fd in ms.get(c.split("::")[-1], []):
            if fd.get("ctor"):
                jobs.append(("ctor", fd["f"], fd["sig"], None))
    if len(jobs) < 40:
        raise Broken("only %d constructors found" % len(jobs))
    run_settings(rep, jobs)


# ---------------------------------------------------------------- statistics, images, transforms
@prop("T01")
def t01(rep, tier):
    rep.rules.append("closed form of every statistic equals its definition for every sample size and content; the straight line is the least-squares one")
    run_rows(rep, find_rows(rep, rows_misc.stat_rows()), {"formula"}, VALUE, tl=60, kw=NAMEDR)


@prop("T02")
def t02(rep, tier):
    rep.rules.append("for each sample size given, closed form of the result equals the order statistic written through the ranks of the elements; sorting itself is the platform's and replaced by an exchange sort")
    run_rows(rep, find_rows(rep, rows_small.order(tier)), {"formula"}, VALUE, tl=60 if tier == "quick" else 300, kw={"unroll": 6})
    run_rows(rep, find_rows(rep, rows_small.outliers()), {"formula"}, VALUE, tl=60 if tier == "quick" else 300, kw=SMALL)


@prop("D02")
def d02(rep, tier):
    rep.rules.append("closed form of every element of the prepared matrix equals its definition for every size and content")
    run_rows(rep, find_rows(rep, rows_small.scaling()), {"formula"}, VALUE, tl=60 if tier == "quick" else 300)


@prop("X01")
def x01(rep, tier):
    rep.rules.append("closed form of every convolution, pooling, filter and transform equals its definition for every image, kernel, stride and padding")
    run_rows(rep, find_rows(rep, rows_misc.conv_rows()), {"formula"}, VALUE, tl=150 if tier == "quick" else 400, kw=NAMEDR)


@prop("U01")
def u01(rep, tier):
    rep.rules.append("closed form of initialised weights (as draws of a stated distribution), scores and mini-batches equals their definition for every size and content")
    run_rows(rep, find_rows(rep, rows_misc.util_rows() + rows_misc.score_rows()), {"formula"}, VALUE, tl=60, kw=NAMEDR)
    run_rows(rep, find_rows(rep, rows_misc.score_small()), {"formula"}, VALUE, tl=60, kw=SMALL)


@prop("Y01")
def y01(rep, tier):
    rep.rules.append("closed form of every difference quotient, Taylor approximation and iteration step, over the supplied function as an uninterpreted function of its argument's values, equals its definition; the step's power exceeds the precision of the real type")
    h, bad = rows_num.steps(program())
    for nm, fd, msg in bad:
        rep.find("%s|step" % nm, "%s: %s" % (nm, msg), "%s:%s" % (fd["file"], fd["l"]) if fd else "")
    rep.count("steps_found", len(h))
    if len(h) == len(rows_num.QUOTIENTS):
        run_rows(rep, find_rows(rep, rows_num.rows(h)), {"formula"}, VALUE, tl=60, kw=NAMEDR)


# ---------------------------------------------------------------- crashes
def _div(job):
    from . import divs
    return divs.judge((_P,) + job)


@prop("D01")
def d01(rep, tier):
    rep.rules.append("each integer division or remainder with a divisor that is not a plain number carries the obligation divisor != 0 under its path condition, from any object state, arguments and sizes; helpers are judged at their public callers")
    from . import divs
    P = program()
    ks = divs.sites(P)
    if len(ks) < 20:
        raise Broken("only %d functions with integer divisions found" % len(ks))
    tl = 100 if tier == "quick" else 400

    def note(r):
        rep.count("functions_analysed" if r.ok else "functions_not_analysed")
        for v in r.verdicts.values():
            rep.count({"ok": "divisors_never_zero", "unknown": "divisors_undecided", "ne": "divisors_refuted"}[v])
        rep.undecided += ["%s: %s" % (r.name, n) for n in r.notes]
        if len(rep.samples) < 8 and r.verdicts:
            rep.sample("%s => %s" % (r.name, r.verdicts))

    again = []
    good = 0
    for k, r in driver.pmap(_div, [(k, (), tl) for k in ks]):
        if r.issues and not divs.public(P.fn[k]):
            again.append(k)                   # its callers may rule the divisor out
            continue
        good += r.ok
        note(r)
        for i in r.issues:
            rep.find("%s|%s" % (i.fn, i.cat), "%s: %s" % (i.fn, i.msg), "%s:%s" % (i.file, i.line))
    if again:
        roots, via = divs.callers(P, again)
        for k, r in driver.pmap(_div, [(k, tuple(sorted(via)), tl) for k in roots]):
            note(r)
            for i in r.issues:
                rep.find("%s|%s" % (i.fn, i.cat), "%s: %s" % (i.fn, i.msg), "%s:%s" % (i.file, i.line))
    if good < (len(ks) - len(again)) * 0.6:
        raise Broken("only %d of %d functions could be analysed" % (good, len(ks)))


# ---------------------------------------------------------------- registration with the engine
@prop("B01")
def b01(rep, tier):
    rep.rules.append("each registered name belongs to the function it names, each argument name stands at its argument, default values match, each property names its bound accessors and their type, an exposed enumeration is exposed whole")
    from . import bindings
    P = ir.bindings()
    regs = bindings.registrations(P)
    n = sum(len(r.methods) for r in regs.values())
    if len(regs) < 30 or n < 600:
        raise Broken("only %d bound methods in %d classes found" % (n, len(regs)))
    odd = [x for r in regs.values() for x in r.odd]
    if len(odd) > 20:
        raise Broken("%d registrations not understood" % len(odd))
    for x in odd:
        rep.undecided.append("registration at %s not understood" % x)
    for k, msg, loc in bindings.issues(P, regs, rep.count):
        rep.find(k, msg, loc)
    for c, r in sorted(regs.items())[:8]:
        rep.sample("%s: %d methods, %d properties, %d constants" % (c, len(r.methods), len(r.props), len(r.consts)))


# ---------------------------------------------------------------- objects used too early
def _fresh(job):
    from . import fresh
    return fresh.judge((_P,) + job)


@prop("R01")
def r01(rep, tier):
    rep.rules.append("every public operation is interpreted on an object just constructed (by default; by default and given its data; by default, given its data and initialised; from data): each dereference of a reference and each index into a list of layers carries the obligation that it exists")
    from . import fresh
    P = program()
    js = fresh.jobs(P, tier)
    if len(fresh.classes(P)) < 20 or len(js) < 800:
        raise Broken("only %d operations of %d classes found" % (len(js), len(fresh.classes(P))))
    bad = 0
    for k, data, r in driver.pmap(_fresh, js):
        rep.count("uses_analysed" if r.ok else "uses_not_analysed")
        bad += not r.ok
        for a, b in r.obl.values():
            rep.count("obligations", b)
            rep.count("obligations_discharged", a)
        rep.undecided += ["%s: %s" % (r.name, n) for n in r.notes]
        if len(rep.samples) < 8 and r.obl:
            rep.sample("%s => %s" % (r.name, r.obl))
        for i in r.issues:
            rep.find("%s|%s" % (i.fn, i.cat), "%s: %s" % (i.fn, i.msg), "%s:%s" % (i.file, i.line))
    if bad > len(js) * 0.2:
        raise Broken("%d of %d uses could not be analysed" % (bad, len(js)))
