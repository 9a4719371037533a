"""Hash-consed value-numbering terms.

Scalars are kept in a canonical polynomial-ish form:
  '+'  args = (const, ((term, coef), ...))      terms sorted by uid
  '*'  args = ((base, exp), ...)                exp non-zero int
Sorts: 'i' integer, 'r' real, 'b' boolean, 'a' array (rank in args), 'u' unknown.
"""
from fractions import Fraction
import itertools

_table = {}
_uid = itertools.count(1)
_fresh = itertools.count(1)


class T:
    __slots__ = ("op", "args", "s", "uid", "fv", "unk", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.uid < o.uid


def _sub_terms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _sub_terms(a)


def mk(op, args, s):
    key = (op, args, s)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.s = op, args, s
    t.uid = next(_uid)
    fv = set()
    unk = op == "unk"
    for a in _sub_terms(args):
        fv |= a.fv
        unk = unk or a.unk
    if op == "bv":
        fv = {t}
    elif op in BINDERS:
        n = BINDERS[op]
        for b in args[0]:
            fv.discard(b)
    t.fv = frozenset(fv)
    t.unk = unk
    _table[key] = t
    return t


# op -> (binds args[0] which is a tuple of bvs)
BINDERS = {"lam": 1, "sum": 1, "prod": 1, "rmax": 1, "rmin": 1, "any": 1, "first": 1, "last": 1, "argmax": 1, "argmin": 1}

NUM = (int, Fraction)


def num(v, s=None):
    if isinstance(v, bool):
        return mk("c", (v,), "b")
    if isinstance(v, float):
        v = Fraction(v).limit_denominator(10**12) if False else Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    if s is None:
        s = "i" if isinstance(v, int) else "r"
    # numeric constants of both sorts share one node (value equality)
    return mk("c", (v,), "n")


TRUE = num(True)
FALSE = num(False)
ZERO = num(0)
ONE = num(1)


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def sym(name, s="r"):
    return mk("v", (name,), s)


RANGE = {}  # bv -> (lo, hi) half-open, integer


def bv(lo=None, hi=None, hint="i"):
    t = mk("bv", (hint, next(_fresh)), "i")
    if lo is not None:
        RANGE[t] = (lo, hi)
    return t


def unk(why="", s="r"):
    return mk("unk", (why, next(_fresh)), s)


def isreal(t):
    return t.s == "r"


def _join_sort(ts):
    s = "n"
    for t in ts:
        if t.s == "r" or t.s == "u":
            return "r"
        if t.s == "i":
            s = "i"
    return s


def _lin(t):
    """(const, dict term->coef)"""
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        return v, {}
    if t.op == "+":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def _mklin(c, d):
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    items = []
    for k, v in d.items():
        if v == 0:
            continue
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        items.append((k, v))
    if not items:
        return num(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].uid)
    s = _join_sort([k for k, _ in items])
    if s == "i" and (not isinstance(c, int) or any(not isinstance(v, int) for _, v in items)):
        s = "r"
    return mk("+", (c, tuple(items)), s)


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        if t.op == "ite" and False:
            pass
        c1, d1 = _lin(t)
        c += c1
        for k, v in d1.items():
            d[k] = d.get(k, 0) + v
    return _mklin(c, d)


def scale(k, t):
    if k == 0:
        return ZERO
    c, d = _lin(t)
    return _mklin(c * k, {a: b * k for a, b in d.items()})


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _factors(t):
    """(coef, dict base->exp)"""
    if t.op == "c":
        v = t.args[0]
        return (int(v) if isinstance(v, bool) else v), {}
    if t.op == "*":
        return 1, dict(t.args[0])
    if t.op == "+" and t.args[0] == 0 and len(t.args[1]) == 1:
        k, v = t.args[1][0]
        c, f = _factors(k)
        return c * v, f
    return 1, {t: 1}


def _mkmono(c, f):
    if c == 0:
        return ZERO
    items = []
    f2 = {}
    for b, e in f.items():
        if e == 0:
            continue
        # sqrt(x)^2k -> x^k
        if b.op == "f" and b.args[0] == "sqrt" and (e >= 2 or e <= -2):
            q = int(e / 2) if e > 0 else -int(-e / 2)
            r = e - 2 * q
            inner = b.args[1]
            c1, f1 = _factors(inner)
            if c1 != 0:
                c = c * (Fraction(c1) ** q)
                for bb, ee in f1.items():
                    f2[bb] = f2.get(bb, 0) + ee * q
                if r:
                    f2[b] = f2.get(b, 0) + r
                continue
        f2[b] = f2.get(b, 0) + e
    # exp(a)*exp(b)
    ex = [(b, e) for b, e in f2.items() if b.op == "f" and b.args[0] == "exp"]
    if len(ex) > 1 or (ex and ex[0][1] != 1):
        tot = ZERO
        for b, e in ex:
            del f2[b]
            tot = add(tot, scale(e, b.args[1]))
        te = fn("exp", tot)
        c2, g = _factors(te)
        c *= c2
        for bb, ee in g.items():
            f2[bb] = f2.get(bb, 0) + ee
    for b, e in f2.items():
        if e:
            items.append((b, e))
    if not items:
        return num(c)
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
    else:
        items.sort(key=lambda kv: kv[0].uid)
        s = _join_sort([b for b, _ in items])
        if any(e < 0 for _, e in items):
            s = "r"
        m = mk("*", (tuple(items),), s)
    if c == 1:
        return m
    if m.op == "+":
        return scale(c, m)
    return _mklin(0, {m: c})


def mul(a, b):
    if a.op == "c":
        return scale(int(cval(a)) if isinstance(cval(a), bool) else cval(a), b)
    if b.op == "c":
        return scale(int(cval(b)) if isinstance(cval(b), bool) else cval(b), a)
    # integer products are expanded eagerly (index arithmetic)
    if a.s != "r" and b.s != "r" and (a.op == "+" or b.op == "+"):
        ca, da = _lin(a)
        cb, db = _lin(b)
        if len(da) + len(db) <= 12:
            parts = [num(ca * cb)]
            for k, v in da.items():
                if cb:
                    parts.append(scale(v * cb, k))
            for k, v in db.items():
                if ca:
                    parts.append(scale(v * ca, k))
            for k, v in da.items():
                for k2, v2 in db.items():
                    parts.append(scale(v * v2, mul(k, k2)))
            return add(*parts)
    c1, f1 = _factors(a)
    c2, f2 = _factors(b)
    f = dict(f1)
    for k, v in f2.items():
        f[k] = f.get(k, 0) + v
    return _mkmono(c1 * c2, f)


def powi(a, n):
    if a.op == "c":
        v = cval(a)
        if v == 0 and n < 0:
            return fn("divzero", a)
        return num(Fraction(v) ** n)
    c, f = _factors(a)
    if c == 0:
        return ZERO
    return _mkmono(Fraction(c) ** n, {k: e * n for k, e in f.items()})


def rdiv(a, b):
    if b.op == "c" and cval(b) == 0:
        return fn("divzero", a)
    return mul(a, powi(b, -1))


QUOT = {}                # quotients that have a name of their own


def _cidiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def idiv(a, b):
    if b.op == "c" and cval(b) == 1:
        return a
    if a.op == "c" and b.op == "c" and cval(b) != 0:
        return num(_cidiv(int(cval(a)), int(cval(b))))
    if a.op == "c" and cval(a) == 0:
        return ZERO
    if a is b:
        return ONE
    # (q*b + r) / b with 0<=r<b  -> q
    q, r = split_by(a, b)
    if q is not None and q is not ZERO:
        if r is ZERO:
            return q
        if in_range(r, b) and nonneg(q):
            return q
    elif in_range(a, b):
        return ZERO
    d = QUOT.get((a, b))
    return mk("idiv", (a, b), "i") if d is None else d


def imod(a, b):
    if a.op == "c" and b.op == "c" and cval(b) != 0:
        x, y = int(cval(a)), int(cval(b))
        return num(x - y * _cidiv(x, y))
    if b.op == "c" and cval(b) == 1:
        return ZERO
    if a is b:
        return ZERO
    q, r = split_by(a, b)
    if q is not None and q is not ZERO:
        if r is ZERO:
            return ZERO
        if in_range(r, b) and nonneg(q):
            return r
    elif in_range(a, b):
        return a
    return mk("imod", (a, b), "i")


def _lead(a, m):
    """sum of the quotients of the monomials of a that m divides"""
    fb = dict(_factors(m)[1])
    q = {}
    qc = 0
    for t, v in _lin(a)[1].items():
        ct, ft = _factors(t)
        g = dict(ft)
        if any(g.get(x, 0) < e or e <= 0 for x, e in fb.items()):
            continue
        for x, e in fb.items():
            g[x] -= e
        k = _mkmono(ct, g)
        if k.op == "c":
            qc += v * cval(k)
        else:
            q[k] = q.get(k, 0) + v
    return _mklin(qc, q)


def split_by(a, b):
    """write polynomial a as q*b + r where b is a single monomial; None if impossible."""
    cb, fb = _factors(b)
    if b.op == "+" and not (b.args[0] == 0 and len(b.args[1]) == 1):
        # b is a proper sum: divide by one of its monomials, such that the rest is below b
        if a is b:
            return ONE, ZERO
        if a.op == "+":
            for m, v in _lin(b)[1].items():
                if v == 1:
                    q = _lead(a, m)
                    if q is not ZERO:
                        r = sub(a, mul(q, b))
                        if r is ZERO or in_range(r, b):
                            return q, r
        return ZERO, a
    if b.op == "c":
        # integer constant divisor: split coefficients
        k = cval(b)
        if k == 0:
            return None, None
        c, d = _lin(a)
        q = {}
        r = {}
        for t, v in d.items():
            if isinstance(v, int) and v % k == 0:
                q[t] = v // k
            else:
                r[t] = v
        qc = c // k if isinstance(c, int) and (c >= 0 or (not r and c % k == 0)) else 0
        return _mklin(qc, q), _mklin(c - qc * k, r)
    if cb != 1:
        return ZERO, a
    c, d = _lin(a)
    q = {}
    r = {}
    qc = 0
    for t, v in d.items():
        ct, ft = _factors(t)
        ok = True
        g = dict(ft)
        for base, e in fb.items():
            if g.get(base, 0) >= e and e > 0:
                g[base] -= e
            else:
                ok = False
        if ok and ct == 1:
            m = _mkmono(1, g)
            if m.op == "c":
                qc += v * cval(m)
            else:
                q[m] = q.get(m, 0) + v
        else:
            r[t] = r.get(t, 0) + v
    return _mklin(qc, q), _mklin(c, r)


# ---------------------------------------------------------------- ranges
class SymSet(set):
    """a set whose state has a number, so that results that depend on it can be remembered"""

    _ids = {}
    ver = 0

    def _upd(self):
        k = frozenset(self)
        self.ver = self._ids.setdefault(k, len(self._ids) + 1)

    def add(self, x):
        if x not in self:
            set.add(self, x)
            self._upd()

    def difference_update(self, xs):
        set.difference_update(self, xs)
        self._upd()


NONNEG_SYMS = SymSet()   # symbols known >= 0
POS_SYMS = SymSet()      # symbols known >= 1


def _lower(t, depth=0):
    """a term that is <= t, eliminating bound vars by their ranges (coarse); returns term or None"""
    return None


def nonneg(t, depth=0):
    if t.op == "c":
        return cval(t) >= 0
    if t in NONNEG_SYMS or t in POS_SYMS:
        return True
    if t.op == "bv":
        r = RANGE.get(t)
        return r is not None and r[0] is not None and (r[0] is ZERO or (depth < 3 and nonneg(r[0], depth + 1)))
    k = (t, depth, NONNEG_SYMS.ver, POS_SYMS.ver)
    r = _NN.get(k)
    if r is None:
        if len(_NN) > 400000:
            _NN.clear()
        r = _NN[k] = _nonneg(t, depth)
    return r


_NN = {}


def _nonneg(t, depth):
    if t.op == "*":
        return all((e % 2 == 0) or (e > 0 and nonneg(b, depth + 1)) for b, e in t.args[0])
    if t.op == "imod":
        return nonneg(t.args[0], depth + 1)
    if t.op == "idiv":
        return nonneg(t.args[0], depth + 1) and nonneg(t.args[1], depth + 1)
    if t.op == "ite":
        return nonneg(t.args[1], depth + 1) and nonneg(t.args[2], depth + 1)
    if t.op == "f" and t.args[0] == "rnd":
        return True
    if t.op == "f" and t.args[0] == "max" and depth < 4:
        return nonneg(t.args[1], depth + 1) or nonneg(t.args[2], depth + 1)
    if t.op == "f" and t.args[0] == "min" and depth < 4:
        return nonneg(t.args[1], depth + 1) and nonneg(t.args[2], depth + 1)
    if t.op == "f" and t.args[0].startswith("i:size"):
        return True
    if t.op in ("first", "argmax", "argmin") and depth < 4:
        return nonneg(t.args[1], depth + 1)
    if t.op == "sum" and depth < 4:
        return nonneg(t.args[3], depth + 1)
    if t.op == "+":
        c, its = t.args
        if c >= 0 and all(v >= 0 and nonneg(k, depth) for k, v in its):
            return True
        # POS symbols give slack: x - 1 >= 0
        slack = c
        rest = []
        for k, v in its:
            if v > 0 and ispos(k):
                slack += v
            elif v > 0 and nonneg(k, depth):
                pass
            else:
                rest.append((k, v))
        if not rest and slack >= 0:
            return True
        if depth < 5:
            for k, v in its:
                alts = None
                if k.op == "ite":
                    alts, both = k.args[1:], True
                elif k.op == "f" and k.args[0] in ("min", "max"):
                    alts, both = k.args[1:], (k.args[0] == "min") == (v > 0)
                if alts:
                    base = add(t, scale(-v, k))
                    f = all if both else any
                    if f(nonneg(add(base, scale(v, x)), depth + 1) for x in alts):
                        return True
        # x*k - k >= 0 for x >= 1
        if depth < 5:
            for k, v in rest:
                if v < 0 and nonneg(k, depth + 1):
                    ck, fk = _factors(k)
                    for k2, v2 in its:
                        if v2 > 0 and k2 is not k and k2.op == "*":
                            c2, f2 = _factors(k2)
                            g = dict(f2)
                            if ck == 1 and all(g.get(b, 0) >= e for b, e in fk.items()):
                                for b, e in fk.items():
                                    g[b] -= e
                                if all(e == 0 or (e > 0 and ispos(b)) for b, e in g.items()) and not any(x.fv for x, _ in rest):
                                    return nonneg(add(t, scale(-v2, k2), scale(v2, k)), depth + 1)
        # k*idiv(x,k) <= x for x >= 0
        if depth < 6:
            for k, v in its:
                if v < 0 and k.op == "idiv" and k.args[1].op == "c" and cval(k.args[1]) > 0 and nonneg(k.args[0], depth + 1):
                    kk = cval(k.args[1])
                    r2 = add(t, scale(-v, k), scale(Fraction(v, 1) / kk, k.args[0]))
                    if nonneg(r2, depth + 1):
                        return True
        # b*idiv(x,b) = x - imod(x,b)
        if depth < 6:
            for k, v in its:
                if k.op == "*":
                    for d, e in k.args[0]:
                        if d.op == "idiv" and e == 1 and d.args[0].op == "bv":
                            x, b = d.args
                            if mul(d, b) is k and _lin(t)[1].get(x) == -v:
                                return nonneg(add(t, scale(-v, k), scale(v, x), scale(-v, mk("imod", (x, b), "i"))), depth + 1)
        # idiv(x,b) <= q-1 for 0 <= x < q*b, imod(x,b) <= b-1
        if depth < 6:
            for k, v in its:
                if v < 0 and k.op == "idiv" and k.args[0].op == "bv" and ispos(k.args[1]):
                    r = RANGE.get(k.args[0])
                    if r and r[0] is ZERO and r[1] is not None:
                        q, x = split_by(r[1], k.args[1])
                        if x is ZERO and q is not None:
                            return nonneg(add(t, scale(-v, k), scale(v, sub(q, ONE))), depth + 1)
                elif v < 0 and k.op == "imod" and ispos(k.args[1]) and nonneg(k.args[0], depth + 1):
                    if nonneg(add(t, scale(-v, k), scale(v, sub(k.args[1], ONE))), depth + 1):
                        return True
        # negative bound variables: replace v*bv (v<0) by its maximum hi-1, positive by lo
        if depth < 6:
            for k, v in its:
                for b in k.fv:
                    r = RANGE.get(b)
                    if not r or r[0] is None:
                        continue
                    coef = lin_coef(t, b)
                    if coef is None:
                        continue
                    if nonneg(neg(coef), depth + 1):
                        if r[1] is None:
                            continue
                        if r[1].op == "f" and r[1].args[0] == "min":
                            # both bounds hold: they may be used for different monomials
                            for k2, v2 in its:
                                if b in k2.fv and v2 < 0:
                                    for x in r[1].args[1:]:
                                        if nonneg(add(t, scale(-v2, k2), scale(v2, subst(k2, {b: sub(x, ONE)}))), depth + 1):
                                            return True
                            return False
                        return nonneg(subst(t, {b: sub(r[1], ONE)}), depth + 1)
                    if nonneg(coef, depth + 1):
                        return nonneg(subst(t, {b: r[0]}), depth + 1)
    return False


def ispos(t):
    return t in POS_SYMS or (t.op == "c" and cval(t) > 0) or (t.op == "*" and all(e > 0 and ispos(b) for b, e in t.args[0]))


def lin_coef(t, b):
    """coefficient of b in polynomial t if t is linear in b (coef free of b) else None"""
    if b not in t.fv:
        return ZERO
    c, d = _lin(t)
    co = ZERO
    for k, v in d.items():
        if b not in k.fv:
            continue
        cc, f = _factors(k)
        if f.get(b) != 1:
            return None
        g = dict(f)
        del g[b]
        m = _mkmono(v * cc, g)
        if b in m.fv:
            return None
        co = add(co, m)
    return co


_inr = {}


def in_range(r, w):
    """0 <= r < w provable"""
    k = (r, w)
    v = _inr.get(k)
    if v is None:
        v = nonneg(r) and nonneg(sub(sub(w, r), ONE))
        if len(_inr) < 0:
            _inr[k] = v
    return v


# ---------------------------------------------------------------- booleans
def lt(a, b):
    d = sub(b, a)  # d > 0
    if d.op == "c":
        return num(bool(cval(d) > 0))
    if d.s != "r":
        if nonneg(sub(d, ONE)):
            return TRUE
        if nonneg(neg(d)):
            return FALSE
        return mk("le0", (add(neg(d), ONE),), "b")  # a-b+1 <= 0
    return mk("lt0", (_posnorm(neg(d)),), "b")


def le(a, b):
    if a.s != "r" and b.s != "r":
        return lt(a, add(b, ONE))
    return lnot(lt(b, a))


def _posnorm(t):
    """scale by positive constant so that leading coefficient is +-1"""
    if t.op == "+":
        k = abs(t.args[1][0][1])
        if k != 1:
            return scale(Fraction(1) / k, t)
    return t


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == "b" or b.s == "b":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return lnot(b)
        if b is FALSE:
            return lnot(a)
        return mk("eqb", tuple(sorted((a, b), key=lambda x: x.uid)), "b")
    d = sub(a, b)
    if d.op == "c":
        return num(bool(cval(d) == 0))
    if d.op == "ite" and d.args[1].op == "c" and d.args[2].op == "c":
        return ite(d.args[0], eq(d.args[1], ZERO), eq(d.args[2], ZERO))
    if d.s != "r":
        if nonneg(sub(d, ONE)) or nonneg(sub(neg(d), ONE)):
            return FALSE
    if d.op == "+":
        k = d.args[1][0][1]
        if k != 1:
            d = scale(Fraction(1) / k, d) if d.s == "r" else (scale(-1, d) if k < 0 else d)
    return mk("eq0", (d,), "b")


def lnot(a):
    if a.op == "c":
        return num(not cval(a))
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        # not (x <= 0)  <=> x >= 1 <=> 1 - x <= 0
        return mk("le0", (sub(ONE, a.args[0]),), "b")
    if a.op == "and":
        return lor(*[lnot(x) for x in a.args])
    if a.op == "or":
        return land(*[lnot(x) for x in a.args])
    return mk("not", (a,), "b")


def land(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in (x.args if x.op == "and" else (x,)):
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if lnot(y) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.uid)), "b")


def lor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        for y in (x.args if x.op == "or" else (x,)):
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if lnot_shallow(y) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda t: t.uid)), "b")


def lnot_shallow(y):
    if y.op == "not":
        return y.args[0]
    if y.op == "le0":
        return mk("le0", (sub(ONE, y.args[0]),), "b")
    return mk("not", (y,), "b")


def conjuncts(c):
    return list(c.args) if c.op == "and" else ([] if c is TRUE else [c])


def _cond(c, known):
    """a condition where the given literals hold"""
    if c in known:
        return TRUE
    if c.op in ("and", "or"):
        ys = [_cond(x, known) for x in c.args]
        return land(*ys) if c.op == "and" else lor(*ys)
    if lnot(c) in known:
        return FALSE
    return c


def _sub(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _sub(a)


def prune(t, known=frozenset(), memo=None):
    """drop the branches whose conditions contradict the ones around them"""
    if memo is None:
        memo = {}
    k = (t, known)
    r = memo.get(k)
    if r is None:
        if t.op == "ite" and t.s != "b":
            c = _cond(t.args[0], known)
            if c is TRUE:
                r = prune(t.args[1], known, memo)
            elif c is FALSE:
                r = prune(t.args[2], known, memo)
            else:
                r = ite(c, prune(t.args[1], known | frozenset(conjuncts(c)), memo), prune(t.args[2], known | frozenset(conjuncts(lnot(c))), memo))
        elif t.op in ("+", "*", "f", "sum", "prod") and any(x.op in ("ite", "+", "*", "f", "sum") for x in _sub(t.args)):
            m = {x: prune(x, known, memo) for x in _sub(t.args) if x.s == "r"}
            m = {a: b for a, b in m.items() if a is not b}
            r = rebuild_with(t, m) if m else t
        else:
            r = t
        memo[k] = r
    return r


def rebuild_with(t, m):
    return rebuild(t, _map_args(t.args, lambda x: m.get(x, x)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    s = a.s if a.s != "n" else b.s
    if a.s == "r" or b.s == "r":
        s = "r"
    if s == "n":
        s = "i" if all(is_c(x) and isinstance(cval(x), int) for x in (a, b)) else "r"
    if s == "b":
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if s == "i":
        # branches that agree wherever the condition's equalities hold
        for cc, x, y in ((c, a, b), (lnot(c) if c.op in ("or", "not") else None, b, a)):
            if cc is None:
                continue
            m = eqsubst(cc)
            if m and (subst_seq(x, m) is subst_seq(y, m)):
                return y
    # max/min/abs idioms
    if c.op == "lt0":
        d = sub(a, b)
        x = c.args[0]
        if d.op != "c":
            dn = _posnorm(d)
            if dn is x:  # a-b < 0 ? a : b -> min
                return mnmx("min", a, b)
            if _posnorm(neg(d)) is x:  # b-a < 0 ? a : b  -> max
                return mnmx("max", a, b)
    if c.op == "le0" and a.s != "a":
        x = c.args[0]
        d = sub(a, b)
        if add(d, ONE) is x or d is x:
            return mnmx("min", a, b)
        if add(neg(d), ONE) is x or neg(d) is x:
            return mnmx("max", a, b)
    return mk("ite", (c, a, b), s)


def eqsubst(c):
    """substitutions implied by the integer equalities among the conjuncts of c"""
    out = []
    for x in conjuncts(c):
        if x.op == "eq0" and x.args[0].s != "r":
            d = x.args[0]
            for v, m in out:
                d = subst(d, {v: m})
            _, its = _lin(d)
            for k, co in sorted(its.items(), key=lambda kv: -kv[0].uid):
                if k.op == "v" and abs(co) == 1:
                    rest = sub(d, scale(co, k))
                    if k not in _syms(rest):
                        out.append((k, neg(rest) if co == 1 else rest))
                        break
    return out


def subst_seq(t, m):
    for v, x in m:
        t = subst(t, {v: x})
    return t


_symm = {}


def _syms(t):
    r = _symm.get(t)
    if r is None:
        if t.op == "v":
            r = frozenset([t])
        else:
            r = frozenset()
            for a in _sub_terms(t.args):
                r |= _syms(a)
        _symm[t] = r
    return r


def resimp(t, memo=None):
    """rebuild a term so that range facts currently known are taken into account"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        if t.op in ("v", "bv", "av", "c", "unk") or t.op in BINDERS:
            r = t
        else:
            args = _map_args(t.args, lambda x: resimp(x, memo))
            r = rebuild(t, args)
        memo[t] = r
    return r


def mnmx(k, a, b):
    if a.op == "c" and b.op == "c":
        return num(max(cval(a), cval(b)) if k == "max" else min(cval(a), cval(b)))
    if neg(a) is b:
        m = fn("abs", a)
        return m if k == "max" else neg(m)
    # normalise: pull common part?  keep simple
    if a.s != "r" and b.s != "r":
        if nonneg(sub(a, b)):
            return a if k == "max" else b
        if nonneg(sub(b, a)):
            return b if k == "max" else a
    if a.uid > b.uid:
        a, b = b, a
    return mk("f", (k, a, b), _join_sort([a, b]))


# ---------------------------------------------------------------- functions
INF = mk("f", ("INF",), "r")
INTFN = {"trunc", "floor_i"}


def fn(name, *args):
    a = args[0] if args else None
    if name == "max" or name == "min":
        return mnmx(name, *args)
    if name == "exp" and a.op == "c" and cval(a) == 0:
        return ONE
    if name == "log" and a.op == "c" and cval(a) == 1:
        return ZERO
    if name == "log" and a.op == "f" and a.args[0] == "exp":
        return a.args[1]
    if name == "exp" and a.op == "f" and a.args[0] == "log":
        return a.args[1]
    if name == "sqrt":
        if a.op == "c" and cval(a) >= 0:
            v = cval(a)
            f = Fraction(v)
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return num(Fraction(n, d))
        if a.op == "*" and all(e % 2 == 0 for _, e in a.args[0]):
            r = ONE
            for b, e in a.args[0]:
                r = mul(r, powi(fn("abs", b) if (e // 2) % 2 else b, e // 2))
            return r
    if name == "pow":
        b = args[1]
        if b.op == "c":
            v = cval(b)
            if isinstance(v, int) and -16 <= v <= 16:
                return powi(a, v)
            if v == Fraction(1, 2):
                return fn("sqrt", a)
        if a.op == "f" and a.args[0] == "expc":
            pass
    if name == "abs":
        if a.op == "c":
            return num(abs(cval(a)))
        if a.op == "f" and a.args[0] in ("abs", "sqrt", "exp"):
            return a
        c, f = _factors(a)
        if c < 0:
            return fn("abs", neg(a))
        if a.op == "+":
            n = neg(a)
            if n.uid < a.uid:
                a = n
            args = (a,)
        if a.s != "r" and nonneg(a):
            return a
    if name == "trunc" and a.s != "r":
        return a
    if name in ("sin", "tan", "tanh", "sinh", "erf", "asin", "atan", "asinh", "atanh") :
        if a.op == "c" and cval(a) == 0:
            return ZERO
        c, _ = _factors(a)
        if a.op != "c" and c < 0 and a.op == "+" and len(a.args[1]) == 1 and a.args[0] == 0:
            return neg(fn(name, neg(a)))
    if name in ("cos", "cosh"):
        if a.op == "c" and cval(a) == 0:
            return ONE
        if a.op == "+" and len(a.args[1]) == 1 and a.args[0] == 0 and a.args[1][0][1] < 0:
            return fn(name, neg(a))
    if name in ("floor", "ceil", "round") and a.s != "r":
        return a
    s = "r"
    if name in ("trunc", "abs", "max", "min"):
        s = "i" if name == "trunc" else _join_sort(args)
    if name.startswith("i:"):
        s = "i"
    if name.startswith("b:"):
        s = "b"
    if name.startswith("a:"):
        s = "a"
    return mk("f", (name,) + args, s)


# ---------------------------------------------------------------- arrays
def av(name, rank=1, s="r"):
    return mk("av", (name, rank, s), "a")


def lam(bvs, body):
    bvs = tuple(bvs)
    # eta: lam i. A[i] -> A
    if body.op == "sel" and body.args[1] == bvs and not any(b in body.args[0].fv for b in bvs):
        return body.args[0]
    return mk("lam", (bvs, body), "a")


def arank(a):
    if a.op == "av":
        return a.args[1]
    if a.op == "lam":
        return len(a.args[0])
    if a.op == "sto":
        return len(a.args[1])
    if a.op == "ite":
        return arank(a.args[1])
    if a.op == "f":
        return int(a.args[0].split(":")[2]) if a.args[0].startswith("a:") and a.args[0].count(":") >= 2 else 1
    if a.op == "unk":
        return None
    raise ValueError(a.op)


def store(a, idx, val):
    idx = tuple(idx)
    if a.op == "sto" and a.args[1] == idx:
        a = a.args[0]
    return mk("sto", (a, idx, val), "a")


def sel(a, *idx):
    idx = tuple(idx)
    if a.op == "lam":
        return subst(a.args[1], dict(zip(a.args[0], idx)))
    if a.op == "sto":
        c = TRUE
        for x, y in zip(a.args[1], idx):
            c = land(c, eq(x, y))
        if c is TRUE:
            return a.args[2]
        if c is FALSE:
            return sel(a.args[0], *idx)
        return ite(c, a.args[2], sel(a.args[0], *idx))
    if a.op == "ite":
        return ite(a.args[0], sel(a.args[1], *idx), sel(a.args[2], *idx))
    if a.op == "unk":
        return mk("unk", ("sel", a) + idx, "r")
    s = "r"
    if a.op == "av":
        s = a.args[2]
    return mk("sel", (a, idx), s)


# ---------------------------------------------------------------- binders
def rsum(b, lo, hi, body):
    if b not in body.fv:
        n = sub(hi, lo)
        if nonneg(n):
            return mul(n, body)
        return mul(fn("max", n, ZERO), body)
    if body is ZERO:
        return ZERO
    # split a sum of ite(i==k) deltas:  sum_i ite(i==k, x, 0) -> ite(lo<=k<hi, x[k], 0)
    if body.op == "ite" and (body.args[2] is ZERO or body.args[1] is ZERO):
        cond = body.args[0] if body.args[2] is ZERO else lnot(body.args[0])
        x = body.args[1] if body.args[2] is ZERO else body.args[2]
        cs = conjuncts(cond)
        for c in cs:
            if c.op == "eq0":
                sol = solve_eq(c.args[0], b)
                if sol is not None:
                    rest = land(*[d for d in cs if d is not c])
                    m = {b: sol}
                    return ite(land(le(lo, sol), lt(sol, hi), subst(rest, m)), subst(x, m), ZERO)
        r = solve_split(cs, b)
        if r is not None:
            sol, rest = r
            m = {b: sol}
            return ite(land(le(lo, sol), lt(sol, hi), subst(rest, m)), subst(x, m), ZERO)
    if body.op == "ite" and b not in body.args[0].fv and (body.args[1] is ZERO or body.args[2] is ZERO):
        return ite(body.args[0], rsum(b, lo, hi, body.args[1]), rsum(b, lo, hi, body.args[2]))
    if body.op == "ite" and (body.args[1] is ZERO or body.args[2] is ZERO) and body.args[0].op in ("and",) and body.args[2] is ZERO:
        out = [c for c in body.args[0].args if b not in c.fv]
        if out:
            ins = [c for c in body.args[0].args if b in c.fv]
            return ite(land(*out), rsum(b, lo, hi, ite(land(*ins), body.args[1], ZERO)), ZERO)
    k = bv(lo, hi, "s")
    return mk("sum", ((k,), lo, hi, subst(body, {b: k})), _join_sort([body]))


def solve_split(cs, t):
    """quotient/remainder pairs: idiv(X,w)==a and imod(X,w)==b with 0<=b<w  <=>  X == a*w+b"""
    eqs = {}
    used = {}
    for c in cs:
        if c.op == "eq0" and t in c.fv:
            cst, its = _lin(c.args[0])
            for a, k in its.items():
                if a.op in ("idiv", "imod") and t in a.fv and abs(k) == 1:
                    v = sub(a, c.args[0]) if k == 1 else add(a, c.args[0])
                    if t not in v.fv and a not in eqs:
                        eqs[a] = v
                        used[a] = {c}
    prog = True
    while prog:
        prog = False
        for a in list(eqs):
            if a.op == "imod" and a in eqs:
                q = mk("idiv", a.args, "i")
                if q in eqs and in_range(eqs[a], a.args[1]):
                    X = a.args[0]
                    v = add(mul(eqs[q], a.args[1]), eqs[a])
                    us = used[a] | used[q]
                    del eqs[a], eqs[q]
                    if X.op in ("idiv", "imod"):
                        eqs[X], used[X] = v, us
                        prog = True
                        break
                    s = solve_eq(sub(X, v), t)
                    ex = []
                    if s is None:
                        co = lin_coef(X, t)
                        if co is None or co.op != "c" or cval(co) <= 1 or cval(co) != int(cval(co)):
                            return None
                        r = sub(X, mul(co, t))
                        if t in r.fv:
                            return None
                        s = idiv(sub(v, r), co)
                        ex = [eq(imod(sub(v, r), co), ZERO), le(ZERO, sub(v, r))]
                    return s, land(*ex, *[subst(d, {t: s}) for d in cs if d not in us])
    return None


def solve_eq(d, b):
    """solve d == 0 for integer b, coefficient +-1"""
    co = lin_coef(d, b)
    if co is None or co.op != "c":
        return None
    v = cval(co)
    if v not in (1, -1):
        return None
    rest = sub(d, scale(v, b))
    if b in rest.fv:
        return None
    return neg(rest) if v == 1 else rest


def reduce_(op, b, lo, hi, body, init=None):
    if op == "sum":
        r = rsum(b, lo, hi, body)
        return r if init is None else add(init, r)
    if op == "prod":
        k = bv(lo, hi, "s")
        r = mk("prod", ((k,), lo, hi, subst(body, {b: k})), _join_sort([body]))
        return r if init is None else mul(init, r)
    k = bv(lo, hi, "s")
    args = ((k,), lo, hi, subst(body, {b: k}))
    if op in ("rmax", "rmin"):
        return mk(op, args + (init,), "r")
    if op == "any":
        if body is FALSE:
            return FALSE
        return mk(op, args, "b")
    if op in ("first", "last", "argmax", "argmin"):
        return mk(op, args, "i")
    raise ValueError(op)


# ---------------------------------------------------------------- substitution
def rebuild(t, args):
    op = t.op
    if op == "+":
        c, its = args
        return add(num(c), *[scale(v, k) for k, v in its])
    if op == "*":
        r = ONE
        for b, e in args[0]:
            r = mul(r, powi(b, e))
        return r
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op == "le0":
        x = args[0]
        if x.op == "c":
            return num(bool(cval(x) <= 0))
        if x.s == "r":
            return le(x, ZERO)
        return le(x, ZERO)
    if op == "lt0":
        return lt(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eqb":
        return eq(*args)
    if op == "not":
        return lnot(args[0])
    if op == "and":
        return land(*args)
    if op == "or":
        return lor(*args)
    if op == "ite":
        return ite(*args)
    if op == "f":
        if args[0].startswith("u:"):
            return mk("f", args, t.s)
        return fn(*args)
    if op == "sel":
        return sel(args[0], *args[1])
    if op == "sto":
        return store(*args)
    if op == "lam":
        return lam(*args)
    return mk(op, args, t.s)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
        keys_bv = all(k.op == "bv" for k in m)
        if keys_bv:
            ks = frozenset(m)
            return _subst_bv(t, m, ks, memo)
    return _subst_any(t, m, memo)


def _map_args(args, f):
    out = []
    ch = False
    for a in args:
        if isinstance(a, T):
            n = f(a)
        elif isinstance(a, tuple):
            n = _map_args(a, f)
        else:
            n = a
        if n is not a:
            ch = True
        out.append(n)
    return tuple(out) if ch else args


def _subst_bv(t, m, ks, memo):
    if not (t.fv & ks):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        return m[t]
    r = _subst_node(t, m, lambda x, mm: _subst_bv(x, mm, ks, memo), memo)
    memo[t] = r
    return r


def _subst_any(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    if not any(True for _ in _sub_terms(t.args)):
        memo[t] = t
        return t
    r = _subst_node(t, m, lambda x, mm: _subst_any(x, mm, memo), memo)
    memo[t] = r
    return r


def _subst_node(t, m, rec, memo):
    if t.op in BINDERS:
        # bound vars have unique names; but the range may change -> refresh binder
        f = lambda x: rec(x, m)
        if t.op == "lam":
            bvs, body = t.args
            nb = f(body)
            return lam(bvs, nb)
        b = t.args[0][0]
        lo, hi = f(t.args[1]), f(t.args[2])
        body = f(t.args[3])
        rest = tuple(f(x) if isinstance(x, T) else x for x in t.args[4:])
        if lo is t.args[1] and hi is t.args[2] and body is t.args[3] and rest == t.args[4:]:
            return t
        if t.op == "sum":
            if (lo is t.args[1] and hi is t.args[2]):
                return rsum(b, lo, hi, body)
            k = bv(lo, hi, "s")
            return rsum(k, lo, hi, subst(body, {b: k}))
        k = bv(lo, hi, "s")
        return mk(t.op, ((k,), lo, hi, subst(body, {b: k})) + rest, t.s)
    args = _map_args(t.args, lambda x: rec(x, m))
    if args is t.args:
        return t
    return rebuild(t, args)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    o = t.op
    if d > 14:
        return "..."
    s = lambda x: show(x, d + 1)
    if o == "c":
        return str(t.args[0])
    if o == "v":
        return t.args[0]
    if o == "bv":
        return "%s%d" % t.args
    if o == "+":
        c, its = t.args
        r = []
        for k, v in its:
            r.append(s(k) if v == 1 else ("-" + s(k) if v == -1 else "%s*%s" % (v, s(k))))
        if c:
            r.append(str(c))
        return "(" + " + ".join(r) + ")"
    if o == "*":
        return "*".join(s(b) if e == 1 else "%s^%s" % (s(b), e) for b, e in t.args[0])
    if o == "sel":
        return "%s[%s]" % (s(t.args[0]), ",".join(s(x) for x in t.args[1]))
    if o == "av":
        return t.args[0]
    if o == "lam":
        return "(\\%s. %s)" % (",".join(s(x) for x in t.args[0]), s(t.args[1]))
    if o == "ite":
        return "ite(%s, %s, %s)" % tuple(s(x) for x in t.args)
    if o in BINDERS:
        return "%s{%s in %s..%s: %s%s}" % (o, s(t.args[0][0]), s(t.args[1]), s(t.args[2]), s(t.args[3]), "".join(" | " + s(x) for x in t.args[4:] if isinstance(x, T)))
    if o == "f":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.args[1:]))
    if o == "unk":
        return "?%s" % (t.args[0],)
    if o == "le0":
        return "%s<=0" % s(t.args[0])
    if o == "lt0":
        return "%s<0" % s(t.args[0])
    if o == "eq0":
        return "%s==0" % s(t.args[0])
    if o == "sto":
        return "%s{[%s]:=%s}" % (s(t.args[0]), ",".join(s(x) for x in t.args[1]), s(t.args[2]))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.args))
