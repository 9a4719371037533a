"""Deciding equality of value-numbering terms.

1. `nf`: normal form (polynomials over atoms, sums distributed and factored,
   bound variables numbered by binder depth). Equal normal forms => equal terms.
2. `spec.decide`: polynomial-identity style refutation. Terms whose normal forms differ are
   valued at random points of the term algebra (random interpretation, Gulwani & Necula);
   a disagreement certifies that the two *closed forms* denote different functions.
   No repository code is executed: only the closed forms extracted from it are valued.
"""
import math
import random
import hashlib
from fractions import Fraction
from .terms import *
from .terms import _lin, _factors


# ------------------------------------------------------------------ named contents
NAMED = {}      # name -> (index symbols, content)
_NAMEKEY = {}
NAME_WEIGHT = 12


def index_syms(n):
    return tuple(sym("$%d" % i, "i") for i in range(n))


def weight(t, limit):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > limit:
            break
        a = list(x.args)
        while a:
            y = a.pop()
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                a += y
    return len(seen)


def _bad(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "unk" or x.op == "av" and x.args[0].startswith(("uninit", "h!")):
            return True
        a = list(x.args)
        while a:
            y = a.pop()
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                a += y
    return False


def name_of(body, rank, create=True):
    """name standing for the array whose cell at the index symbols is `body`; equal contents (equal
    normal forms) get equal names.  None when the content is small, incomplete or not closed"""
    if body.unk or body.fv or body.s != "r" or create and weight(body, NAME_WEIGHT) <= NAME_WEIGHT:
        return None
    try:
        key = (rank, nf(body))
    except Exception:
        key = (rank, body)
    n = _NAMEKEY.get(key)
    if n is None:
        if not create or _bad(body):
            return None
        n = _NAMEKEY[key] = "$N%d" % len(NAMED)
        NAMED[n] = (index_syms(rank), body)
    return av(n, rank, "r")


_IDX, _DEF = {}, {}


def definition(name):
    """content of a named array in terms of bound variables"""
    if name not in _DEF:
        vs, body = NAMED[name]
        _IDX[name] = tuple(bv(None, None, "d") for _ in vs)
        _DEF[name] = subst(body, dict(zip(vs, _IDX[name])))
    return _DEF[name]


def _idx(name):
    definition(name)
    return _IDX[name]


def unname(t, limit=2500):
    """the term with the names replaced by their contents; None when that gets too large"""
    for _ in range(40):
        ns = [n for n in named_in1(t)]
        if not ns:
            return t
        t = subst(t, {av(n, len(NAMED[n][0]), "r"): lam(_idx(n), definition(n)) for n in ns})
        if weight(t, limit) > limit:
            return None
    return None


def named_in1(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "av" and x.args[0] in NAMED:
            out.append(x.args[0])
        a = list(x.args)
        while a:
            y = a.pop()
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                a += y
    return out


def named_in(terms):
    """definitions the terms refer to, directly or through other definitions"""
    out, seen, todo = {}, set(), list(terms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "av" and x.args[0] in NAMED and x.args[0] not in out:
            out[x.args[0]] = NAMED[x.args[0]][1]
            todo.append(NAMED[x.args[0]][1])
        a = list(x.args)
        while a:
            y = a.pop()
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                a += y
    return out


# ------------------------------------------------------------------ normal form
class Big(Exception):
    pass


_TOK, _LVL = {}, []


def _levels(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == "#":
            return _LVL[k[1]]
        if len(k) == 2 and k[0] == "b":
            return frozenset((k[1],))
        r = frozenset()
        for x in k:
            if isinstance(x, tuple):
                r |= _levels(x)
        return r
    return frozenset()


def _tok(key):
    """short token standing for a key: equal keys, equal tokens"""
    n = _TOK.get(key)
    if n is None:
        n = _TOK[key] = ("#", len(_LVL))
        _LVL.append(_levels(key))
    return n


def _has(key, lvl):
    return lvl in _levels(key)


def nf(t):
    return _polykey(_poly(t, {}, 0))


def _polykey(p):
    return _tok(("P",) + tuple(sorted(((m, str(c)) for m, c in p.items()), key=repr)))


def _padd(a, b, k=1):
    for m, c in b.items():
        v = a.get(m, 0) + c * k
        if v == 0:
            a.pop(m, None)
        else:
            a[m] = v
    return a


def _pmul(a, b):
    if len(a) * len(b) > 400:
        raise Big()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for k, e in m2:
                d[k] = d.get(k, 0) + e
            m = tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def _atom(k):
    return {((k, 1),): 1}


def _poly(t, env, lvl):
    o = t.op
    if o == "c":
        v = t.args[0]
        if isinstance(v, bool):
            return _atom(("B", v))
        return {(): v} if v != 0 else {}
    if o == "+":
        r = {}
        if t.args[0]:
            r[()] = t.args[0]
        for k, v in t.args[1]:
            _padd(r, _poly(k, env, lvl), v)
        return r
    if o == "*":
        r = {(): 1}
        for b, e in t.args[0]:
            p = _poly(b, env, lvl)
            if e > 0 and e <= 6:
                for _ in range(e):
                    r = _pmul(r, p)
            else:
                if len(p) == 1:
                    (m, c), = p.items()
                    q = {tuple(sorted(((k, x * e) for k, x in m), key=repr)): Fraction(c) ** e}
                else:
                    q = {(((_polykey(p)), e),): 1}
                r = _pmul(r, q)
        return r
    if o == "sum":
        b, lo, hi, body = t.args[0][0], t.args[1], t.args[2], t.args[3]
        e2 = dict(env)
        e2[b] = lvl
        p = _poly(body, e2, lvl + 1)
        lk, hk = _key(lo, env, lvl), _key(hi, env, lvl)
        r = {}
        for m, c in p.items():
            dep = tuple(x for x in m if _has(x[0], lvl))
            ind = tuple(x for x in m if not _has(x[0], lvl))
            if not dep:
                _padd(r, _pmul({ind: c}, _poly(sub(hi, lo), env, lvl)))
            else:
                _padd(r, _pmul({ind: c}, _atom(_tok(("sum", lvl, lk, hk, dep)))))
        return r
    return _atom(_key(t, env, lvl))


_KEY = {}


def _key(t, env, lvl):
    if t.op == "bv":
        return ("b", env.get(t, str(t.args)))
    m = (t, lvl, tuple(sorted(((id(x), env.get(x)) for x in t.fv), key=repr)) if t.fv else ())
    r = _KEY.get(m)
    if r is None:
        r = _KEY[m] = _tok(_key1(t, env, lvl))
    return r


def _key1(t, env, lvl):
    o = t.op
    if o in ("+", "*", "sum", "c"):
        return _polykey(_poly(t, env, lvl))
    if o in BINDERS:
        e2 = dict(env)
        if o == "lam":
            l = lvl
            for b in t.args[0]:
                e2[b] = l
                l += 1
            return ("lam", len(t.args[0]), lvl, _key(t.args[1], e2, l))
        e2[t.args[0][0]] = lvl
        return (o, lvl, _key(t.args[1], env, lvl), _key(t.args[2], env, lvl), _key(t.args[3], e2, lvl + 1)) + tuple(_key(x, env, lvl) for x in t.args[4:])
    if o in ("v", "av", "unk"):
        return (o, str(t.args))

    def f(a):
        if isinstance(a, T):
            return _key(a, env, lvl)
        if isinstance(a, tuple):
            return tuple(f(x) for x in a)
        return str(a)

    args = tuple(f(a) for a in t.args)
    if o in ("and", "or", "eqb"):
        args = tuple(sorted(args, key=repr))
    return (o,) + args


# ------------------------------------------------------------------ valuation
class Uninit(Exception):
    pass


class Unknown(Exception):
    pass


class NoValue(Exception):
    """undefined at this point (domain error, out of range): choose another point"""


def _h(seed, *k):
    d = hashlib.blake2b(repr((seed,) + k).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") / 2.0**64


MATH = {
    "exp": math.exp, "log": math.log, "log10": math.log10, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "asin": math.asin, "acos": math.acos, "atan": math.atan,
    "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh, "erf": math.erf, "abs": abs, "floor": math.floor, "ceil": math.ceil,
    "log2": math.log2, "exp2": lambda x: 2.0**x, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "log1p": math.log1p, "expm1": math.expm1,
    "atan2": math.atan2, "max": max, "min": min, "trunc": lambda x: int(x), "round": lambda x: math.floor(x + 0.5) if x >= 0 else -math.floor(-x + 0.5),
    "pow": lambda a, b: math.pow(a, b), "fmod": math.fmod, "sgn": lambda x: -1.0 if x < 0 else 1.0,
}


class Val:
    """a valuation: seed-determined values for symbols"""

    def __init__(self, seed, ints=None, mode="pos", sizes=None):
        self.seed = seed
        self.ints = ints or {}
        self.mode = mode
        self.memo = {}
        self.fuel = 400000
        self.obs = None

    def symval(self, name, s):
        if name in self.ints:
            return self.ints[name]
        if s == "i":
            return 2 + int(_h(self.seed, "i", name) * 4)
        if s == "b":
            return _h(self.seed, "b", name) < 0.5
        if self.mode != "pos" and _h(self.seed, "whole") < 0.4:
            # whole numbers: an exponent that negative bases have powers for, ties, degenerate factors
            return float(int(_h(self.seed, "w", name) * 5) - 1)
        return self.real("s", name)

    special = ()
    allspecial = False
    noisy = False
    tied = False

    def real(self, *k):
        u = _h(self.seed, *k)
        if self.special and (self.allspecial or _h(self.seed, "spn", k[:2] if k[0] != "af" else 0) < 0.5):
            w = _h(self.seed, "sp", *k)
            if w < 0.8:
                c = self.special[int(w / 0.8 * len(self.special)) % len(self.special)]
                j = int(_h(self.seed, "sq", *k) * 7)
                return (c, c, c, c * (1 + u) + u * 1e-6, c * (1 - u) - u * 1e-6, c + u, c - u)[j]
        if self.mode == "pos":
            return 0.15 + 0.8 * u
        if self.mode == "mix":
            return -1.3 + 2.6 * u
        if self.mode == "big":
            return -4.0 + 8.0 * u
        return u

    def __call__(self, t):
        return self.ev(t, {})

    def ev(self, t, env):
        o = t.op
        if o == "c":
            v = t.args[0]
            return float(v) if isinstance(v, Fraction) else v
        if o == "bv":
            return env[t]
        if not t.fv:
            r = self.memo.get(t)
            if r is not None:
                return r
            r = self._ev(t, env)
            self.memo[t] = r
            return r
        return self._ev(t, env)

    def _ev(self, t, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise NoValue("fuel")
        o = t.op
        ev = self.ev
        try:
            if o == "v":
                return self.symval(t.args[0], t.s)
            if o == "+":
                r = t.args[0]
                r = float(r) if isinstance(r, Fraction) else r
                big = abs(r)
                for k, v in t.args[1]:
                    x = (float(v) if isinstance(v, Fraction) else v) * ev(k, env)
                    big = max(big, abs(x))
                    r = r + x
                if r and abs(r) < 1e-10 * big:
                    self.noisy = True       # what is left is rounding of the valuation itself
                return r
            if o == "*":
                r = 1
                for b, e in t.args[0]:
                    x = ev(b, env)
                    if e < 0:
                        if x == 0:
                            raise NoValue("div0")
                        r = r * float(x) ** e
                    else:
                        r = r * x**e
                return r
            if o == "ite":
                return ev(t.args[1], env) if ev(t.args[0], env) else ev(t.args[2], env)
            if o == "le0":
                return ev(t.args[0], env) <= 0
            if o == "lt0":
                return ev(t.args[0], env) < 0
            if o == "eq0":
                return abs(ev(t.args[0], env)) < 1e-12
            if o == "eqb":
                return bool(ev(t.args[0], env)) == bool(ev(t.args[1], env))
            if o == "not":
                return not ev(t.args[0], env)
            if o == "and":
                return self._bool(t.args, env, False)
            if o == "or":
                return self._bool(t.args, env, True)
            if o == "idiv":
                a, b = int(ev(t.args[0], env)), int(ev(t.args[1], env))
                if b == 0:
                    raise NoValue("idiv0")
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            if o == "imod":
                a, b = int(ev(t.args[0], env)), int(ev(t.args[1], env))
                if b == 0:
                    raise NoValue("imod0")
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return a - b * q
            if o == "sel":
                idx = tuple(ev(x, env) for x in t.args[1])
                return self.select(t.args[0], idx, env)
            if o in ("sum", "prod", "any", "rmax", "rmin", "first", "last", "argmax", "argmin"):
                return self.binder(t, env)
            if o == "f":
                return self.func(t, env)
            if o == "unk":
                raise Unknown(str(t.args[0]))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise NoValue(o)
        raise Unknown(o)

    def _bool(self, args, env, stop):
        # evaluate guards leniently: a decided argument wins over an undefined one
        pend = None
        for x in args:
            try:
                if bool(self.ev(x, env)) == stop:
                    return stop
            except NoValue as e:
                pend = e
        if pend:
            raise pend
        return not stop

    def select(self, a, idx, env):
        o = a.op
        if o == "av":
            name = a.args[0]
            if name.startswith("uninit"):
                raise Uninit(name)
            if name in NAMED:
                k = (name, idx)
                r = self.memo.get(k)
                if r is None:
                    vs, body = NAMED[name]
                    r = self.memo[k] = self.ev(definition(name), dict(zip(_IDX[name], idx)))
                return r
            if a.args[2] == "i":
                return int(_h(self.seed, "ai", name, idx) * 4)
            if self.tied and _h(self.seed, "tn", name) < 0.7:
                return float(int(_h(self.seed, "wa", name, idx) * 2)) if _h(self.seed, "bin", name) < 0.4 else float(int(_h(self.seed, "wa", name, idx) * 5) - 2)
            if not self.tied and self.mode != "pos" and _h(self.seed, "ties") < 0.4:
                return float(int(_h(self.seed, "wa", name, idx) * 5) - 2)
            return self.real("a", name, idx)
        if o == "lam":
            e2 = dict(env)
            e2.update(zip(a.args[0], idx))
            return self.ev(a.args[1], e2)
        if o == "sto":
            i2 = tuple(self.ev(x, env) for x in a.args[1])
            if i2 == idx:
                return self.ev(a.args[2], env)
            return self.select(a.args[0], idx, env)
        if o == "ite":
            return self.select(a.args[1] if self.ev(a.args[0], env) else a.args[2], idx, env)
        if o == "f":  # uninterpreted array-valued function: digest of its arguments
            return self.real("af", self.digest(a, env), idx)
        raise Unknown(o)

    def digest(self, t, env):
        """value digest of an uninterpreted application (arrays digested on their domain)"""
        out = [t.args[0]]
        for k, x in enumerate(t.args):
            if k == 0:
                continue
            if isinstance(x, T):
                if x.s == "a":
                    out.append(self.arrdigest(x, t.args[k - arank(x):k], env))
                else:
                    v = self.ev(x, env)
                    out.append(round(v, 7) if isinstance(v, float) else v)
            else:
                out.append(x)
        return tuple(out)

    def arrdigest(self, x, dims, env):
        """an array handed to an uninterpreted function stands right behind its sizes"""
        if not all(isinstance(d, T) for d in dims) or len(dims) != 1:
            raise Unknown("array digest")
        n = int(self.ev(dims[0], env))
        if n > 200:
            raise NoValue("range")
        r = []
        for i in range(n):
            v = self.select(x, (i,), env)
            r.append(round(v, 7) if isinstance(v, float) else v)
        return tuple(r)

    def binder(self, t, env):
        b = t.args[0][0]
        lo, hi = int(self.ev(t.args[1], env)), int(self.ev(t.args[2], env))
        body = t.args[3]
        o = t.op
        e2 = dict(env)
        if hi - lo > 4000:
            raise NoValue("range")
        if o == "sum":
            r = big = 0
            for i in range(lo, hi):
                e2[b] = i
                x = self.ev(body, e2)
                big = max(big, abs(x))
                r += x
            if r and abs(r) < 1e-10 * big:
                self.noisy = True
            return r
        if o == "prod":
            r = 1
            for i in range(lo, hi):
                e2[b] = i
                r *= self.ev(body, e2)
            return r
        if o == "any":
            for i in range(lo, hi):
                e2[b] = i
                if self.ev(body, e2):
                    return True
            return False
        if o in ("rmax", "rmin"):
            r = self.ev(t.args[4], env) if len(t.args) > 4 and isinstance(t.args[4], T) else None
            for i in range(lo, hi):
                e2[b] = i
                v = self.ev(body, e2)
                if r is None or (v > r if o == "rmax" else v < r):
                    r = v
            if r is None:
                raise NoValue("empty")
            return r
        if o in ("first", "last"):
            rng = range(lo, hi) if o == "first" else range(hi - 1, lo - 1, -1)
            for i in rng:
                e2[b] = i
                if self.ev(body, e2):
                    return i
            return hi if o == "first" else lo - 1
        if o in ("argmax", "argmin"):
            best = None
            bi = lo
            for i in range(lo, hi):
                e2[b] = i
                v = self.ev(body, e2)
                if best is None or (v > best if o == "argmax" else v < best):
                    best, bi = v, i
            return bi
        raise Unknown(o)

    def func(self, t, env):
        name = t.args[0]
        if name == "INF":
            return 1e30
        f = MATH.get(name)
        if f:
            a = [self.ev(x, env) for x in t.args[1:]]
            r = f(*a)
            if isinstance(r, float) and (r != r or r in (float("inf"), float("-inf"))):
                raise NoValue(name)
            return r
        if name == "divzero":
            raise NoValue("divzero")
        d = self.digest(t, env)
        if t.s == "i":
            return int(_h(self.seed, "fi", d) * 4)
        if t.s == "b":
            return _h(self.seed, "fb", d) < 0.5
        return self.real("f", d)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def _points(v, dom):
    def rec(i, env):
        if i == len(dom):
            yield dict(env)
            return
        b, lo, hi = dom[i]
        for x in range(int(v.ev(lo, env)), int(v.ev(hi, env))):
            env[b] = x
            yield from rec(i + 1, env)
        env.pop(b, None)

    yield from rec(0, {})
