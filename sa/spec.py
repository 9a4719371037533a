"""Specification language for container-valued functions and the comparison of a
specification with the closed form extracted from the source.

A row is
    Class::method(nargs[;signature fragment]) | requirements | outputs
where requirements are comma separated (`nA==nM`, `0<=A<nM`, `nM>=3`) and outputs are `;`
separated: `ret = expr`, `M[nM](i) = expr`, `ret[hM,wA](i,j) = expr`.  M is the receiver, A, B, ..
the parameters; nX / hX, wX / zX, hX, wX are the sizes of operand X.  Operands with no output row
must be left unchanged."""
import ast
import math
import re
from fractions import Fraction
from .summ import *
from . import algebra
from .terms import _lin

FUNCS = set("exp log log10 log2 sqrt sin cos tan tanh sinh cosh asin acos atan atan2 asinh acosh atanh erf floor ceil abs round max min pow trunc".split())


DERIVED = {}             # sizes whose value follows from others (named quotients)


def set_quots(S, row):
    """`%hP=(hA-B)//C+1`: the quotient is one symbol from here on; returns what is known of it"""
    r = []
    for n, x in row.quots:
        t = Ctx(S).expr(x)
        q = sub(t, ONE)
        if q.op != "idiv":
            raise SpecError("not a quotient plus one: " + x)
        a, b = q.args
        s = sym(S.sh.find(n), "i")
        DERIVED[S.sh.find(n)] = t
        low = sub(s, ONE)
        QUOT[(a, b)] = low
        rest = sub(a, mul(low, b))
        r += [le(ZERO, rest), le(add(rest, ONE), b)]
    return r


def set_pins(S, pins):
    """fix operands, fields and sizes; returns nothing, S.sh carries them"""
    for a, b in pins:
        if re.fullmatch(r"[nzhw](_\w+|[A-Z])", a) and re.fullmatch(r"[nzhw](_\w+|[A-Z])", b):
            S.sh.unify(a, b)
    for a, b in pins:
        if re.fullmatch(r"[nzhw](_\w+|[A-Z])", a) and re.fullmatch(r"[nzhw](_\w+|[A-Z])", b):
            continue
        if b in ("true", "false"):
            v = TRUE if b == "true" else FALSE
        elif b == "null":
            v = NULL
        elif re.fullmatch(r"-?[0-9]+", b):
            v = num(int(b))
        else:
            v = Ctx(S).expr(b)
        S.sh.pins[S.sh.find(a)] = v


class SpecError(Exception):
    pass


class Row:
    def __init__(self, text):
        self.text = text
        head, req, outs = [x.strip() for x in text.split("|", 2)]
        self.name, rest = head.split("(", 1)
        self.name = self.name.strip()
        rest = rest.rstrip(")")
        self.sig = None
        if ";" in rest:
            rest, self.sig = [x.strip() for x in rest.split(";", 1)]
        self.nargs = int(rest)
        allr = [x.strip() for x in req.split(",") if x.strip()]
        self.pins = [tuple(y.strip() for y in x[1:].split("=", 1)) for x in allr if x.startswith("!")]    # fixed operands
        self.quots = [tuple(y.strip() for y in x[1:].split("=", 1)) for x in allr if x.startswith("%")]  # named quotient plus one
        allr = [x for x in allr if x[0] not in "!%"]
        self.pre = [x[1:].strip() for x in allr if x.startswith("?")]    # assumed, rejection not demanded
        self.req = [x for x in allr if not x.startswith("?")]            # must be rejected when broken
        self.outs = [] if outs.strip() != "-" else None
        self.lets, self.free = [], set()
        for o in [] if self.outs is None else [x.strip() for x in outs.split(";") if x.strip()]:
            if o.startswith("~"):                                        # left unspecified
                self.free.add(o[1:].strip())
                continue
            lhs, rhs = [x.strip() for x in o.split("=", 1)]
            vs = ()
            if "(" in lhs:
                lhs, v = lhs.split("(", 1)
                vs = tuple(x.strip() for x in v.rstrip(")").split(","))
            dims = None
            if "[" in lhs:
                lhs, d = lhs.split("[", 1)
                dims = tuple(x.strip() for x in d.strip().rstrip("]").split(","))
            if lhs.startswith("let "):
                self.lets.append((lhs[4:].strip(), vs, rhs))
            else:
                self.outs.append((lhs.strip(), dims, vs, rhs))


class Ctx:
    """name resolution for expressions of one function"""

    def __init__(self, S):
        self.S = S
        self.env = {}
        self.ptypes = {nm: p for nm, p in zip(names(S.fd), S.fd["ps"])}

    def define(self, lets):
        """named intermediate values of a row: scalars and index functions"""
        for n, vs, rhs in lets:
            if not vs:
                self.env[n] = self.expr(rhs)
                continue
            e = ast.parse(rhs, mode="eval").body
            scope = dict(self.env)
            memo = {}

            def f(*idx, e=e, vs=vs, scope=scope, memo=memo):
                if algebra.NAMED and "$" not in memo:
                    memo["$"] = None
                    memo["$"] = algebra.name_of(memo["f"](*algebra.index_syms(len(vs))), len(vs), False)
                if memo.get("$") is not None:
                    return sel(memo["$"], *idx)
                if idx not in memo:
                    old, self.env = self.env, dict(scope, **dict(zip(vs, idx)))
                    memo[idx] = self.tr(e)
                    self.env = old
                return memo[idx]
            self.env[n] = memo["f"] = f
        return self

    def name(self, n):
        if n in self.env:
            return self.env[n]
        if n in self.S.sh.pins:
            return self.S.sh.pins[n]
        if n in self.ptypes:
            t = ptype(self.ptypes[n]["t"])
            if is_real(t):
                return sym(n, "r")
            if t == "bool":
                return sym(n, "b")
            if is_int(t) or t in self.S.R.prog.enum:
                return sym(n, "i")
        if re.fullmatch(r"rnd[0-9]+", n):
            d = self.S.R.eng.draws
            if int(n[3:]) > len(d):
                raise SpecError("only %d random draws" % len(d))
            return d[int(n[3:]) - 1]
        if "." + n in self.S.ops:
            return self.S.ops["." + n]
        if n == "pi":
            return num(Fraction(repr(3.1415926535897932384626433833)))
        if n == "INF":
            return INF
        r = self.S.sh.find(n)
        if n[0] in "nzhw" and (len(n) == 2 and n[1].isupper() or n[1] == "_"):
            p = self.S.sh.pins.get(r)
            return p if p is not None else sym(r, "i")
        raise SpecError("name %s in %s" % (n, self.S.fd["f"]))

    def expr(self, text):
        return self.tr(ast.parse(text.strip(), mode="eval").body)

    def tr(self, e):
        k = type(e).__name__
        if k == "Constant":
            if isinstance(e.value, bool):
                return num(e.value)
            if isinstance(e.value, int):
                return num(e.value)
            return num(Fraction(repr(e.value)))
        if k == "Name":
            return self.name(e.id)
        if k == "Attribute":
            return sym("%s.%s" % (e.value.id, e.attr), "i")
        if k == "BinOp":
            a, b = self.tr(e.left), self.tr(e.right)
            o = type(e.op).__name__
            if o == "Add":
                return add(a, b)
            if o == "Sub":
                return sub(a, b)
            if o == "Mult":
                return mul(a, b)
            if o == "Div":
                return rdiv(a, b)
            if o == "FloorDiv":
                return idiv(a, b)
            if o == "Mod":
                return imod(a, b)
            if o == "Pow":
                return fn("pow", a, b)
        if k == "UnaryOp":
            o = type(e.op).__name__
            a = self.tr(e.operand)
            return neg(a) if o == "USub" else lnot(a) if o == "Not" else a
        if k == "IfExp":
            return ite(self.tr(e.test), self.tr(e.body), self.tr(e.orelse))
        if k == "Compare":
            r = TRUE
            l = self.tr(e.left)
            for op, c in zip(e.ops, e.comparators):
                x = self.tr(c)
                o = type(op).__name__
                r = land(r, {"Lt": lambda: lt(l, x), "LtE": lambda: le(l, x), "Gt": lambda: lt(x, l), "GtE": lambda: le(x, l), "Eq": lambda: eq(l, x), "NotEq": lambda: lnot(eq(l, x))}[o]())
                l = x
            return r
        if k == "BoolOp":
            f = land if type(e.op).__name__ == "And" else lor
            return f(*[self.tr(x) for x in e.values])
        if k == "Subscript":
            nm = e.value.id
            idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            idx = [self.tr(x) for x in idx]
            if nm in self.env and callable(self.env[nm]):
                return self.env[nm](*idx)
            s = "r"
            if nm in self.ptypes:
                el = self.S.R.eng.seq_type(ptype(self.ptypes[nm]["t"]))
                if el and is_int(el.split(",")[0]):
                    s = "i"
            return sel(av(nm, len(idx), s), *idx)
        if k == "Call":
            f = e.func.id
            if f in ("sum", "prod", "rmax", "rmin", "argmax", "argmin", "first", "last", "any"):
                v = e.args[0].id
                lo, hi = self.tr(e.args[1]), self.tr(e.args[2])
                b = bv(lo, hi, "k")
                old = self.env.get(v)
                self.env[v] = b
                body = self.tr(e.args[3])
                init = self.tr(e.args[4]) if len(e.args) > 4 else None
                if old is None:
                    del self.env[v]
                else:
                    self.env[v] = old
                return reduce_(f, b, lo, hi, body, init)
            if f == "ite":
                return ite(*[self.tr(x) for x in e.args])
            if f in FUNCS:
                return fn(f, *[self.tr(x) for x in e.args])
            if f in self.env and callable(self.env[f]):
                return self.env[f](*[self.tr(x) for x in e.args])
            if f.startswith("u_"):
                # uninterpreted library function (e.g. u_Math__is_equal_approx)
                nm = f[2:].replace("__", "::")
                a = []
                for x in e.args:
                    if isinstance(x, ast.Call) and x.func.id == "vec":
                        # vec(k, n, body): the vector of n elements body(k)
                        n = self.tr(x.args[1])
                        v = x.args[0].id
                        b = bv(ZERO, n, "q")
                        old = self.env.get(v)
                        self.env[v] = b
                        a += [n, mk("lam", ((b,), self.tr(x.args[2])), "a")]
                        self.env.pop(v)
                        if old is not None:
                            self.env[v] = old
                    else:
                        a.append(self.tr(x))
                return mk("f", ("u:" + nm,) + tuple(a), "b" if "equal" in nm else "r")
            raise SpecError("call " + f)
        raise SpecError("expr " + k)


def thresholds(t, out, seen):
    """integer constants the size symbols are compared with, real constants values are compared with"""
    if t in seen:
        return
    seen.add(t)
    if t.op in ("le0", "eq0", "lt0"):
        x = t.args[0]
        c, its = _lin(x)
        if len(its) == 1:
            (a, v), = its.items()
            if a.op == "v" and a.s == "i":
                out.setdefault(a.args[0], set()).add(int(-Fraction(c) / v))
            elif a.s == "r":
                out.setdefault("$real", set()).add(float(-Fraction(c) / v))
            elif a.op == "*" and x.s != "r":
                # product of sizes against a constant
                out.setdefault("$prod", set()).add((a, int(-Fraction(c) / v)))
            elif a.op in ("bv", "idiv", "imod") and x.s != "r" and abs(Fraction(c) / v) > 3:
                out.setdefault("$all", set()).add(abs(int(Fraction(c) / v)) + 2)
        elif len(its) == 2 and x.s != "r" and all(k.op in ("v", "bv") for k in its):
            for k in its:
                if k.op == "v":
                    out.setdefault(k.args[0], set()).add(abs(int(c)) + 2)
        if len(its) > 1 and x.s != "r":
            if all(k.op == "v" for k in its):
                out.setdefault("$rel", set()).add((Fraction(c), tuple((k.args[0], Fraction(v)) for k, v in its.items())))
            elif abs(c) > 3 and not all(k.op in ("v", "bv") for k in its):
                out.setdefault("$all", set()).add(abs(int(c)) + 2)
    for a in subterms(t.args):
        thresholds(a, out, seen)


def subterms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from subterms(a)


def has_uninit(t, memo=None):
    return _has(t, lambda x: x.op == "av" and x.args[0].startswith("uninit"), {})


def has_unk(t):
    return t.unk


def _has(t, p, memo):
    r = memo.get(t)
    if r is None:
        r = memo[t] = p(t) or any(_has(a, p, memo) for a in subterms(t.args))
    return r


def size_plans(terms, dimnames, limit=40):
    """assignments of small values to the size symbols, including values around compared constants"""
    th = {}
    seen = set()
    for t in terms:
        thresholds(t, th, seen)
    plans = []
    k = len(dimnames)
    base = [[2, 3, 4, 5, 2, 3], [3, 2, 5, 4, 3, 2], [4, 4, 2, 3, 5, 2], [1, 2, 3, 1, 2, 4], [3, 1, 1, 2, 1, 3], [5, 3, 2, 2, 4, 1], [1] * 6, [2, 5, 3, 4, 1, 2]]
    for b in base:
        plans.append({d: b[i % 6] for i, d in enumerate(dimnames)})
    extra = []
    for d in dimnames:
        for c in sorted(th.get(d, ())):
            for x in (c, c + 1, c - 1, c + 3):
                if 1 <= x <= 400 and x > 4:
                    p = dict(plans[0])
                    p[d] = x
                    extra.append(p)
                    p = dict(plans[6])
                    p[d] = x
                    extra.append(p)
    for c, its in sorted(th.get("$rel", ()), key=repr)[:12]:
        for b in (plans[0], plans[6], plans[3]):
            for d, v in its:
                if d not in dimnames:
                    continue
                try:
                    e = -(c + sum(w * b[n] for n, w in its if n != d)) / v
                except KeyError:
                    continue
                for x in (math.floor(e), math.floor(e) + 1, math.floor(e) + 2):
                    if 5 < x <= 400:
                        p = dict(b)
                        p[d] = x
                        extra.append(p)
    for c in sorted(th.get("$all", ())):
        if 4 < c <= 400:
            for d in dimnames:
                p = dict(plans[6])
                p[d] = c
                extra.append(p)
            p = dict.fromkeys(dimnames, c if c < 40 else 40)
            extra.append(p)
    for a, c in sorted(th.get("$prod", ()), key=lambda x: x[1])[:6]:
        fs = [b for b, e in a.args[0] if b.op == "v"]
        for f in fs[:2]:
            if f.args[0] in dimnames and 1 < c <= 4000:
                p = dict(plans[6])
                p[f.args[0]] = c + 1
                extra.append(p)
    return plans + extra[:limit], sorted(th.get("$real", ()))


def pinned(assume):
    """integer variables the assumptions equate with a constant"""
    r = {}
    for t in assume:
        for c in ([t] if t.op != "and" else t.args):
            if not isinstance(c, T) or c.op not in ("==0", "eq0", "=="):
                continue
            e = c.args[0]
            for n in range(-3, 80):
                vs = leaves(e)
                if len(vs) == 1 and subst_num(e, vs[0], n):
                    r[vs[0]] = n
    return r


def leaves(t):
    s, todo, done = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        if x.op in ("v", "av"):
            s.add(x.args[0])
        else:
            todo += list(subterms(x.args))
    return sorted(s)


def subst_num(e, x, n):
    try:
        return algebra.Val((1, 1), {x: n}, "pos").ev(e, {}) == 0
    except Exception:
        return None


class Verdict:
    __slots__ = ("v", "why", "how")

    def __init__(self, v, why="", how=""):
        self.v, self.why, self.how = v, why, how


def decide(pairs, dims, ints=None, assume=(), seed=1):
    """pairs: [(label, expected, got, [(bv, lo, hi)])].
    'eq' proved by normal form, 'sampled' agreement of the closed forms on all interpretations tried,
    'ne' with a witness interpretation, 'unknown'"""
    rest = []
    for p in pairs:
        label, a, b, dom = p
        if a is b:
            continue
        if not a.unk and not b.unk:
            try:
                if algebra.nf(a) == algebra.nf(b):
                    continue
            except Exception:              # too large
                pass
            if algebra.NAMED and (algebra.named_in1(a) or algebra.named_in1(b)):
                try:
                    x, y = algebra.unname(a), algebra.unname(b)
                    if x is not None and y is not None and (x is y or algebra.nf(x) == algebra.nf(y)):
                        continue
                except Exception:
                    pass
        rest.append(p)
    if not rest:
        return Verdict("eq", "", "normal form")
    if any(p[1].unk or p[2].unk for p in rest):
        w = [p[0] for p in rest if p[1].unk or p[2].unk]
        if len(w) == len(rest):
            return Verdict("unknown", "closed form incomplete: " + ",".join(w))
    terms = [p[1] for p in rest] + [p[2] for p in rest] + list(assume)
    terms += algebra.named_in(terms).values()
    plans, reals = size_plans(terms, dims)
    fixed = pinned(assume)
    good = 0
    held = []
    why = ""
    modes = ["pos", "mix", "pos", "mix", "big"]
    unk_ = None
    spent = 0
    base = len(plans) * 2
    free = {d for d in dims if d not in fixed}
    small = not any(d in free for t in terms for d in leaves(t))   # sizes given: orders and ties of the contents matter
    more = 120 if small else 60 if reals else 24
    for k in range(base + more):
        if k > base + 12 and spent > 600000 or not (reals or small) and k >= base and spent > 200000:
            break
        iv = dict(plans[k % len(plans)])
        for n, vals in (ints or {}).items():
            iv[n] = vals(iv, k) if callable(vals) else vals[int(algebra._h(seed, "iv", n, k) * len(vals))]
        iv.update(fixed)
        for n, t in DERIVED.items():
            try:
                iv[n] = algebra.Val((seed, k), iv, modes[k % len(modes)]).ev(t, {})
            except (algebra.NoValue, KeyError):
                iv[n] = 1
        v = algebra.Val((seed, k), iv, modes[k % len(modes)])
        if reals and (k % 2 or k >= base):
            v.special = reals
            v.allspecial = k % 4 == 1
        v.tied = small and k >= base and k % 3 == 1
        if max(iv.values(), default=0) > 40:
            v.fuel = 1500000
        fuel0 = v.fuel
        try:
            if not all(v(a) for a in assume):
                continue
            n = 0
            for label, t1, t2, dom in rest:
                if t1.unk or t2.unk:
                    continue
                for env in algebra._points(v, dom):
                    try:
                        try:
                            a = v.ev(t1, env)
                        except algebra.Uninit:
                            a = "uninitialised"
                        try:
                            b = v.ev(t2, env)
                        except algebra.Uninit:
                            b = "uninitialised"
                    except algebra.NoValue as e:
                        if v.fuel < 0:
                            raise
                        why = "undefined:%s" % e
                        continue
                    n += 1
                    if isinstance(a, str) or isinstance(b, str):
                        if a != b:
                            return Verdict("ne", "%s: expected %s, the code gives %s (sizes %s, index %s)" % (label, a, b, _iv(iv), [env[x] for x, _, _ in dom]))
                    elif not algebra.close(a, b):
                        if v.noisy:         # equal numbers cancelled to rounding noise: no verdict unless that is the rule
                            held.append(Verdict("ne", "%s: expected %s, the code gives %s (sizes %s, index %s)" % (label, a, b, _iv(iv), [env[x] for x, _, _ in dom])))
                            raise algebra.NoValue("cancelled")
                        return Verdict("ne", "%s: expected %s, the code gives %s (sizes %s, index %s)" % (label, a, b, _iv(iv), [env[x] for x, _, _ in dom]))
            if n:
                good += 1
            spent += fuel0 - v.fuel
        except algebra.NoValue as e:
            spent += fuel0 - v.fuel
            why = "undefined:%s" % e
        except algebra.Unknown as e:
            unk_ = str(e)
            continue
        except algebra.Uninit as e:
            return Verdict("ne", "a size or index depends on uninitialised memory")
    if unk_ is not None:
        return Verdict("unknown", unk_)
    if len(held) > good:
        return held[0]
    if good >= 3:
        if any(p[1].unk or p[2].unk for p in rest):
            return Verdict("unknown", "closed form incomplete")
        return Verdict("sampled", "", "%d interpretations" % good)
    return Verdict("unknown", why or "no interpretation point")


def _iv(iv):
    return ", ".join("%s=%s" % kv for kv in sorted(iv.items()))
