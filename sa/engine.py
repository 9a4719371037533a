"""Abstract interpreter over the extracted program.

Domain: gated value numbering. Scalars are terms (sa.terms); joins are gated by the branch
condition (ite); counted loops are summarised in closed form (recurrences, reductions and
array comprehensions), never unrolled; anything else becomes an explicit unknown.
Calls are analysed through the callee's own body (so helper extraction is transparent).
No paths are enumerated and no solver is used.
"""
import itertools
import re
from .terms import *
from .terms import _lin, _factors, _mkmono, _lead
from .algebra import name_of, index_syms
from . import ir

_cid = itertools.count(1)


class Give(Exception):
    """construct outside the analysed fragment"""


# ------------------------------------------------------------------ values
class P:
    """pointer: tuple of (cond, target); target None=null | ('l',cell,path) | ('b',cell,off) | ('u',why)"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "P%s" % (self.alts,)

    def __eq__(self, o):
        return isinstance(o, P) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)


NULL = P([(TRUE, None)])


def ptr(tgt):
    return P([(TRUE, tgt)])


class Struct:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.cls, d)

    def __eq__(self, o):
        return isinstance(o, Struct) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return "%s%s" % (self.cls, self.f)


ENDLESS = sym("endless", "i")   # extent of an array over all numbers


class Buf:
    """heap storage: n allocated elements, content array over dims (None dims: flat)"""

    __slots__ = ("n", "dims", "arr", "owner")

    def __init__(self, n, dims, arr, owner=None):
        self.n, self.dims, self.arr, self.owner = n, dims, arr, owner

    def __eq__(self, o):
        return isinstance(o, Buf) and (self.n, self.dims, self.arr, self.owner) == (o.n, o.dims, o.arr, o.owner)

    def __hash__(self):
        return hash((self.n, self.arr))

    def __repr__(self):
        return "Buf(%s,%s,%s)" % (self.n, self.dims, self.arr)


class Seq:
    """Vector<Ref<..>>-like container: length term + element maker; items: explicit overlay"""

    __slots__ = ("n", "name", "mk", "items")

    def __init__(self, n, name, mk=None, items=()):
        self.n, self.name, self.mk, self.items = n, name, mk, tuple(items)

    def __eq__(self, o):
        return isinstance(o, Seq) and (self.n, self.name, self.items) == (o.n, o.name, o.items)

    def __hash__(self):
        return hash((self.n, self.name))

    def __repr__(self):
        return "Seq(%s,%s,%s)" % (self.n, self.name, self.items)


class Opaque:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.why == o.why

    def __hash__(self):
        return hash(self.why)

    def __repr__(self):
        return "Opaque(%s)" % self.why


class State:
    __slots__ = ("cells", "facts", "pc")

    def __init__(self, cells, facts, pc):
        self.cells, self.facts, self.pc = cells, facts, pc

    def fork(self):
        return State(dict(self.cells), self.facts, self.pc)

    def assume(self, c):
        s = self
        cs = [x for x in conjuncts(c) if x not in s.facts]
        if cs:
            s.facts = s.facts | frozenset(cs)
            s.pc = land(s.pc, *cs)
        return s


FIELDMAP = {"Vector2i": {"width": "x", "height": "y"}, "Vector3i": {"width": "x", "height": "y", "depth": "z"}, "Vector2": {"width": "x", "height": "y"}, "Vector3": {}}
SIMPLE = {"Vector2i": [("x", "i"), ("y", "i")], "Vector3i": [("x", "i"), ("y", "i"), ("z", "i")], "Vector2": [("x", "r"), ("y", "r")], "Vector3": [("x", "r"), ("y", "r"), ("z", "r")]}

MATHFN = {}
for _n in "exp log log10 log2 sqrt sin cos tan tanh sinh cosh asin acos atan asinh acosh atanh erf floor ceil round cbrt exp2 log1p expm1".split():
    for _p in ("Math::", "std::", "", "::"):
        MATHFN[_p + _n] = _n
for _p in ("Math::", "std::", ""):
    MATHFN[_p + "pow"] = "pow"
    MATHFN[_p + "atan2"] = "atan2"
    MATHFN[_p + "fabs"] = "abs"
    MATHFN[_p + "abs"] = "abs"
    MATHFN[_p + "fmod"] = "fmod"
    MATHFN[_p + "absf"] = "abs"
for _n in list(MATHFN):
    MATHFN.setdefault(_n + "f", MATHFN[_n])

PURE_IGNORED = ("std::basic_ostream", "std::operator<<", "std::cout", "RLogger", "ClassDB::", "_RLOG_MACRO", "String", "StringName", "std::endl")

INT_T = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "long long", "unsigned long long", "int64_t", "uint64_t", "char32_t", "wchar_t"}


def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
    if t.endswith(" const"):
        t = t[:-6]
    return t.strip()


def is_ref(t):
    return t.rstrip().endswith("&")


def deref_t(t):
    t = t.rstrip()
    while t.endswith("&"):
        t = t[:-1].rstrip()
    return strip(t)


def is_int(t):
    return strip(t) in INT_T


def is_real(t):
    return strip(t) in ("float", "double", "long double")


def is_ptr(t):
    t = deref_t(t)
    return t.endswith("*")


def is_Ref(t):
    return deref_t(t).startswith("Ref<")


def ref_arg(t):
    t = deref_t(t)
    return t[4:-1].strip()


class LoopInfo:
    __slots__ = ("fn", "line", "head", "end", "t", "T", "exits", "cells", "regular", "file", "depth", "unsolved", "cond", "start")


class Obl:
    __slots__ = ("kind", "cond", "pc", "loops", "fn", "line", "file", "what", "buf", "facts")


class Lam(Opaque):
    """a local function: its expression, the frame it was made in, its own copies of captured variables"""
    __slots__ = ("e", "fr", "own")

    def __init__(self, e, fr, own):
        self.why, self.e, self.fr, self.own = "lambda@%s" % e["l"], e, fr, own

    def __eq__(self, o):
        return isinstance(o, Lam) and o.e is self.e and o.fr is self.fr and o.own == self.own

    def __hash__(self):
        return hash(self.why)


class Frame:
    __slots__ = ("fn", "env", "rets", "brk", "cont", "this")

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.rets = []
        self.brk = []
        self.cont = []
        self.this = None


class Engine:
    unroll_max = 1
    first_pass = False               # judge the first round of every loop on its own as well
    def __init__(self, prog, intrinsics=None, max_depth=24, opaque=None):
        self.prog = prog
        self.obls = []
        self.draws = []    # symbols of random draws, in program order
        self.draw_range = {}   # smallest and largest value of a whole-number draw
        self.rec = True
        self.rejects = []       # (pc, cond, fn, line, loops)
        self.loops = []
        self.loopctx = []       # enclosing [(bv, lo, hi)]
        self.stack = []
        self.max_depth = max_depth
        self.recurse_max = 1
        self.intr = dict(intrinsics or {})
        self.opaque = opaque or {}
        self.incomplete = []    # reasons
        self.called = set()
        self.enumtype = {}
        self.steps = 0
        self.budget = 4000000
        self.writes = []        # (cell) writes to marked cells
        self.inloop = 0
        self.owning = False     # follow which storage blocks are still to be released
        self.liveflags = set()
        self.live = {}          # block -> cell of the flag that it has not been released
        self.roughs = 0
        self.modonly = 0   # > 0 while only the set of modified locations is wanted
        self.reject_cells = []  # memory at each recorded rejection
        self.keep_rejects = True
        self.null_rejects = True
        self.clskey = {}
        self.hooks = {}
        self.csort = {}         # scalar cell -> declared sort

    def sort_of(self, t):
        t = deref_t(t)
        if is_real(t):
            return "r"
        if t == "bool":
            return "b"
        if is_int(t) or t in self.prog.enum:
            return "i"
        return None

    def loc_sort(self, st, loc):
        cell, path = loc
        if not path:
            return self.csort.get(cell)
        o = self.read_quiet(st, cell, path[:-1])
        if isinstance(o, Struct):
            if o.cls in SIMPLE:
                return dict(SIMPLE[o.cls]).get(path[-1])
            for f in self.all_fields(o.cls):
                if f["n"] == path[-1]:
                    return self.sort_of(f["t"])
            if o.cls == "$vec" and path[-1] == "n":
                return "i"
        return None

    # ---------------------------------------------------------------- heap
    def new_cell(self, st, v):
        c = next(_cid)
        st.cells[c] = v
        return c

    def uninit(self, s, why):
        if s == "i":
            return sel(av("uninit!%s#%d" % (why, next(_cid)), 1, "i"), ZERO)
        return sel(av("uninit!%s#%d" % (why, next(_cid)), 1, "r"), ZERO)

    def default_value(self, st, t, why=""):
        """value of an uninitialised variable of type t"""
        t = strip(t)
        if is_Ref(t):
            return NULL
        if t.endswith("*"):
            return P([(TRUE, ("u", "uninit"))])
        if t in SIMPLE:
            return Struct(t, {n: ZERO for n, s in SIMPLE[t]})
        if is_real(t):
            return self.uninit("r", why)
        if is_int(t) or t in self.prog.enum:
            return self.uninit("i", why)
        if t == "bool":
            return mk("f", ("b:uninit", next(_cid)), "b")
        sv = self.seq_type(t)
        if sv is not None:
            return self.empty_seq(st, t)
        if self.map_type(t):
            return self.empty_map(st, t)
        if t in self.prog.rec:
            return self.raw_struct(st, t)
        return Opaque(t)

    def seq_type(self, t):
        t = strip(t)
        for p in ("Vector<", "PoolVector<", "std::vector<", "LocalVector<"):
            if t.startswith(p):
                return t[len(p):-1].strip()
        return None

    def map_type(self, t):
        """key and value type of a hash map from numbers to numbers"""
        t = strip(t)
        if t.startswith("HashMap<"):
            a = [x.strip() for x in t[8:-1].split(",")]
            if len(a) > 1 and "<" not in t[8:] and all(is_real(x) or is_int(x) or x == "bool" for x in a[:2]):
                return a[0], a[1]
        return None

    def empty_map(self, st, t):
        # two unbounded arrays over the keys: is there an entry, and its value
        c = [self.new_cell(st, Buf(ENDLESS, (ENDLESS,), lam((bv(ZERO, ENDLESS, "q"),), ZERO))) for _ in "hv"]
        return Struct("$map", {"has": ptr(("b", c[0], ZERO)), "val": ptr(("b", c[1], ZERO))})

    def map_method(self, st, e, fr, cls, meth):
        alts, v = self.seq_obj(st, e, fr)
        a = [self.rval(st, x, fr) for x in e["a"]]
        if not (isinstance(v, Struct) and v.cls == "$map") or a and not isinstance(a[0], T):
            return self.unknown_of(e["t"], "map")
        k, val = self.map_type(cls)
        at = lambda n, i: self.offset_alts(st, v.f[n], i)
        get = lambda n, i: self.load(st, at(n, i), "int" if n == "has" or val == "bool" else val, e["l"])
        if meth == "has":
            return eq(get("has", a[0]), ONE)
        if meth.startswith("operator[]"):
            self.store_alts(st, at("val", a[0]), ite(eq(get("has", a[0]), ONE), get("val", a[0]), ZERO), e["l"])
            self.store_alts(st, at("has", a[0]), ONE, e["l"])
            return Struct("$ref", {"p": P(at("val", a[0]))})
        if meth in ("set", "insert") and len(a) > 1:
            x = a[1]
            if not isinstance(x, T):
                x = unk("map value")
            if x.s == "b":
                x = ite(x, ONE, ZERO)
            self.store_alts(st, at("val", a[0]), x, e["l"])
            self.store_alts(st, at("has", a[0]), ONE, e["l"])
            return P([(TRUE, ("u", "map element"))])
        if meth == "get":
            return Struct("$ref", {"p": P(at("val", a[0]))})
        if meth == "erase":
            r = eq(get("has", a[0]), ONE)
            self.store_alts(st, at("has", a[0]), ZERO, e["l"])
            return r
        self.incomplete.append("map " + meth)
        if meth not in ("size", "empty", "getptr", "next", "get_key_list", "lookup"):
            self.store_alts(st, alts, Opaque("map " + meth), e["l"])
        return self.unknown_of(e["t"], "map " + meth)

    def is_scalar_elt(self, e):
        e = e.split(",")[0].strip()
        return is_real(e) or is_int(e) or e == "bool"

    def empty_seq(self, st, t):
        e = self.seq_type(t)
        if self.is_scalar_elt(e):
            b = self.new_cell(st, Buf(ZERO, None, av("uninit!seq#%d" % next(_cid), 1, "i" if is_int(e.split(",")[0]) else "r")))
            return Struct("$vec", {"n": ZERO, "data": ptr(("b", b, ZERO))})
        return Seq(ZERO, "empty")

    def all_fields(self, cls):
        r = self.prog.rec.get(cls)
        out = []
        if not r:
            return out
        for b in r["bases"]:
            b = strip(b)
            if b in self.prog.rec:
                out += self.all_fields(b)
        return out + r["fields"]

    def raw_struct(self, st, cls):
        return Struct(cls, {f["n"]: self.default_value(st, f["t"], cls + "." + f["n"]) for f in self.all_fields(cls)})

    # ---------------------------------------------------------------- reading / writing
    def read(self, st, tgt, fn=None, line=0):
        if tgt is None:
            return None
        if tgt[0] == "l":
            v = st.cells.get(tgt[1])
            for p in tgt[2]:
                if isinstance(v, Struct):
                    v = v.f.get(p)
                    if v is None:
                        return Opaque("field " + str(p))
                elif isinstance(v, Seq):
                    v = self.seq_get(st, v, p, tgt[1])
                else:
                    return Opaque("path")
            return v if v is not None else Opaque("dead")
        if tgt[0] == "b":
            b = self.buf(st, tgt[1])
            if b is None:
                return Opaque("buf")
            self.bounds(st, b, tgt[2], "read", line, tgt[1])
            if b.dims is None and b.arr.op == "av" and b.arr.args[0].startswith("uninit"):
                return sel(av(b.arr.args[0], 1, b.arr.args[2]), tgt[2])
            idx = self.delin(tgt[2], b.dims, st.facts)
            return sel(b.arr, *idx)
        return Opaque("unknown pointer")

    def write(self, st, tgt, v, cond=TRUE, line=0):
        if tgt is None:
            return
        if tgt[0] == "l":
            cell, path = tgt[1], tgt[2]
            if cell not in st.cells:
                return
            old = st.cells[cell]
            st.cells[cell] = self._upd(st, old, path, v, cond, cell)
            self.after_write(st, cell, path, v)
            return
        if tgt[0] == "b":
            b = self.buf(st, tgt[1])
            if b is None:
                return
            g0 = self.gate
            if cond is not TRUE:
                self.gate = land(g0, cond)
            self.bounds(st, b, tgt[2], "write", line, tgt[1])
            self.gate = g0
            if b.dims is None:
                b = Buf(b.n, (b.n,), self.as_rank(b, 1), b.owner)
            idx = self.delin(tgt[2], b.dims, st.facts)
            if not isinstance(v, T):
                v = unk("nonscalar store")
            if cond is not TRUE:
                v = ite(cond, v, sel(b.arr, *idx))
            st.cells[tgt[1]] = Buf(b.n, b.dims, store(b.arr, idx, v), b.owner)

    def as_rank(self, b, r):
        a = b.arr
        if a.op == "av" and a.args[1] != r and a.args[0].startswith("uninit"):
            return av(a.args[0], r, a.args[2])
        return a

    def _upd(self, st, old, path, v, cond, cell):
        if not path:
            return v if cond is TRUE else self.join_val(st, cond, v, old)
        if isinstance(old, Struct):
            sub_ = old.f.get(path[0])
            return old.set(path[0], self._upd(st, sub_, path[1:], v, cond, cell))
        if isinstance(old, Seq):
            idx = path[0]
            e = self.seq_get(st, old, idx, cell) if (len(path) > 1 or cond is not TRUE) else None
            nv = self._upd(st, e, path[1:], v, cond, cell)
            return Seq(old.n, old.name, old.mk, old.items + ((idx, nv),))
        return old

    def after_write(self, st, cell, path, v):
        # a raw buffer stored in the _data field of a container is laid out by that container
        if path and path[-1] == "_data" and isinstance(v, P):
            for c, tg in v.alts:
                if tg and tg[0] == "b" and tg[2] is ZERO:
                    b = st.cells.get(tg[1])
                    if isinstance(b, Buf) and b.owner != (cell, path[:-1]):
                        st.cells[tg[1]] = Buf(b.n, b.dims, b.arr, (cell, path[:-1]))

    def owner_dims(self, st, owner):
        o = self.read_quiet(st, owner[0], owner[1])
        if not isinstance(o, Struct) or "_size" not in o.f:
            return None
        s = o.f["_size"]
        if isinstance(s, T):
            return (s,)
        if isinstance(s, Struct) and s.cls == "Vector2i":
            return (s.f["y"], s.f["x"])
        if isinstance(s, Struct) and s.cls == "Vector3i":
            return (s.f["z"], s.f["y"], s.f["x"])
        return None

    def read_quiet(self, st, cell, path):
        v = st.cells.get(cell)
        for p in path:
            if isinstance(v, Struct):
                v = v.f.get(p)
            else:
                return None
        return v

    def buf(self, st, cell):
        b = st.cells.get(cell)
        if not isinstance(b, Buf):
            return None
        if b.owner:
            d = self.owner_dims(st, b.owner)
            if d is not None and d != b.dims:
                b = self.relayout(b, d)
                st.cells[cell] = b
        elif b.dims is None:
            b = Buf(b.n, (b.n,), self.as_rank(b, 1), None)
            st.cells[cell] = b
        return b

    def relayout(self, b, dims):
        if b.dims is None or (b.arr.op == "av" and b.arr.args[0].startswith("uninit")):
            return Buf(b.n, dims, self.as_rank(b, len(dims)), b.owner)
        if len(b.dims) == len(dims) and b.dims[1:] == dims[1:]:
            return Buf(b.n, dims, b.arr, b.owner)
        if len(b.dims) == 1 and len(dims) == 1:
            return Buf(b.n, dims, b.arr, b.owner)
        bvs = [bv(ZERO, d, "q") for d in dims]
        flat = self.lin_index(bvs, dims)
        idx = self.delin(flat, b.dims)
        return Buf(b.n, dims, lam(bvs, sel(b.arr, *idx)), b.owner)

    def lin_index(self, idx, dims):
        r = idx[0]
        for i, d in zip(idx[1:], dims[1:]):
            r = add(mul(r, d), i)
        return r

    def delin(self, flat, dims, facts=()):
        if len(dims) == 1:
            return (flat,)
        out = []
        rest = flat
        for k in range(1, len(dims)):
            stride = ONE
            for d in dims[k:]:
                stride = mul(stride, d)
            q, r = self.divsplit(rest, stride, facts)
            out.append(q)
            rest = r
        out.append(rest)
        return tuple(out)

    def divsplit(self, a, w, facts=()):
        if w is ONE:
            return a, ZERO
        q, r = split_by(a, w)
        if q is not None:
            if r is ZERO or in_range(r, w):
                return q, r
            # remainder slightly off: e.g. r = j - w handled by shifting once
            r2 = add(r, w)
            if in_range(r2, w):
                return sub(q, ONE), r2
            r2 = sub(r, w)
            if in_range(r2, w):
                return add(q, ONE), r2
            if facts:
                fl = self.relevant(facts, sub(r, w))
                if fl and implies_nonneg(fl, r) and implies_nonneg(fl, sub(sub(w, r), ONE)):
                    return q, r
        if w.op == "+" and facts and a.op == "+":
            for m, v in _lin(w)[1].items():
                if v == 1:
                    q = _lead(a, m)
                    if q is not ZERO:
                        r = sub(a, mul(q, w))
                        fl = self.relevant(facts, sub(r, w))
                        if fl and implies_nonneg(fl, r) and implies_nonneg(fl, sub(sub(w, r), ONE)):
                            return q, r
        if w.op == "+":
            # sum-shaped stride: try to peel  b*w  for bound variables b
            for b in sorted(a.fv, key=lambda x: x.uid):
                co = lin_coef(a, b)
                if co is w:
                    r = sub(a, mul(b, w))
                    if in_range(r, w):
                        return b, r
        return idiv(a, w), imod(a, w)

    # ---------------------------------------------------------------- obligations
    def cur_fn(self):
        return self.stack[-1].fn if self.stack else None

    def oblige(self, st, kind, cond, line, what="", buf=None):
        if not self.rec:
            return
        added = []
        for b_, lo_, hi_ in self.loopctx:
            if hi_ is not None:
                for x_ in syms_of(hi_):
                    # a product or plain symbol bounding a running loop is positive
                    if hi_.op in ("v", "*") and x_ in NONNEG_SYMS and x_ not in POS_SYMS:
                        POS_SYMS.add(x_)
                        added.append(x_)
        if added:
            cond = resimp(cond)
        cond = self.simp(st, cond)
        POS_SYMS.difference_update(added)
        o = Obl()
        o.kind, o.cond, o.pc, o.loops, o.line, o.what, o.buf = kind, cond, st.pc, tuple(self.loopctx), line, what, buf
        f = self.cur_fn()
        o.fn = f["f"] if f else ""
        o.file = f["file"] if f else ""
        o.facts = st.facts
        # full path condition includes callers
        o.pc = land(*[p for p in self.pcs], st.pc, self.gate)
        self.obls.append(o)

    pcs = ()
    gate = TRUE             # alternative of a gated pointer being read

    def bounds(self, st, b, off, kind, line, cell):
        if not self.rec or b.n is ENDLESS:
            return
        c = land(le(ZERO, off), lt(off, b.n))
        self.oblige(st, "bounds", c, line, kind, cell)
        if self.owning:
            self.owned(st, ("b", cell, off), line, "used after its release")

    # ---------------------------------------------------------------- facts
    def simp(self, st, c, depth=0):
        if c.op == "c" or not isinstance(c, T):
            return c
        f = st.facts
        if c in f:
            return TRUE
        if c.s == "b" and lnot(c) in f:
            return FALSE
        if depth > 6:
            return c
        if c.op == "and":
            return land(*[self.simp(st, x, depth + 1) for x in c.args])
        if c.op == "or":
            xs = [self.simp(st, x, depth + 1) for x in c.args]
            return lor(*xs)
        if c.op == "not":
            return lnot(self.simp(st, c.args[0], depth + 1))
        if c.op == "eq0" and c.args[0].s != "r":
            x = c.args[0]
            if not f:
                return c
            fl = self.relevant(f, x)
            if implies_nonneg(fl, sub(x, ONE)) or implies_nonneg(fl, sub(neg(x), ONE)):
                return FALSE
            m = eqsubst(land(*[g for g in fl if g.op == "eq0"]))
            if m and subst_seq(x, m) is ZERO:
                return TRUE
        if c.op == "le0" and c.args[0].s != "r":
            x = c.args[0]
            if not f:
                return c
            fl = self.relevant(f, x)
            if implies_nonneg(fl, neg(x)):
                return TRUE
            if implies_nonneg(fl, sub(x, ONE)):
                return FALSE
        return c

    def relevant(self, f, x):
        sy = set(syms_of(x) | x.fv)
        todo = list(x.fv)
        while todo:
            r = RANGE.get(todo.pop())
            for y in r or ():
                if isinstance(y, T):
                    new = (syms_of(y) | y.fv) - sy
                    sy |= new
                    todo += [z for z in new if z.op == "bv"]
        return [g for g in f if g.op in ("le0", "eq0") and ((syms_of(g) | g.fv) & sy)]

    # ---------------------------------------------------------------- joins
    def join_val(self, st, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, P) and isinstance(b, P):
            if a == b:
                return a
            d = {}
            order = []
            for cc, tg in a.alts:
                k = land(c, cc)
                if k is not FALSE:
                    if tg not in d:
                        order.append(tg)
                    d[tg] = lor(d[tg], k) if tg in d else k
            for cc, tg in b.alts:
                k = land(lnot(c), cc)
                if k is not FALSE:
                    if tg not in d:
                        order.append(tg)
                    d[tg] = lor(d[tg], k) if tg in d else k
            if len(order) == 1:
                return P([(TRUE, order[0])])
            if len(order) > 40:
                return P([(TRUE, ("u", "join"))])
            return P([(d[t], t) for t in order])
        if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
            if a == b:
                return a
            f = {}
            for k in a.f:
                f[k] = self.join_val(st, c, a.f[k], b.f.get(k, a.f[k]))
            return Struct(a.cls, f)
        if isinstance(a, Buf) and isinstance(b, Buf):
            if a == b:
                return a
            n = ite(c, a.n, b.n)
            ow = a.owner if a.owner == b.owner else None
            if a.dims == b.dims:
                if a.dims is None:
                    arr = a.arr if a.arr is b.arr else ite(c, a.arr, b.arr)
                    return Buf(n, None, arr, ow)
                return Buf(n, a.dims, ite(c, a.arr, b.arr), ow)
            if a.dims is None or (a.arr.op == "av" and a.arr.args[0].startswith("uninit")):
                return Buf(n, b.dims, ite(c, self.as_rank(a, len(b.dims)), b.arr), ow)
            if b.dims is None or (b.arr.op == "av" and b.arr.args[0].startswith("uninit")):
                return Buf(n, a.dims, ite(c, a.arr, self.as_rank(b, len(a.dims))), ow)
            if len(a.dims) == len(b.dims):
                if a.dims[1:] == b.dims[1:]:
                    return Buf(n, a.dims, ite(c, a.arr, b.arr), ow)
                dims = tuple(ite(c, x, y) for x, y in zip(a.dims, b.dims))
                a2 = Buf(a.n, dims, ite(c, a.arr, b.arr), ow)
                return a2
            fa, fb = self.relayout(a, (a.n,)), self.relayout(b, (b.n,))
            return Buf(n, (n,), ite(c, fa.arr, fb.arr), ow)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a == b:
                return a
            return Opaque("seq join")
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        return Opaque("join")

    def join(self, c, a, b):
        """state that is a under c and b otherwise"""
        if a is None:
            return b
        if b is None:
            return a
        cells = {}
        for k, v in a.cells.items():
            if k in b.cells:
                w = b.cells[k]
                cells[k] = v if v is w else self.join_val(a, c, v, w)
            else:
                cells[k] = land(c, v) if k in self.liveflags else v
        for k, v in b.cells.items():
            if k not in cells:
                cells[k] = land(lnot(c), v) if k in self.liveflags else v
        facts = a.facts & b.facts
        ex = [implied(c, x) for x in a.facts - facts if x is not c and x not in conjuncts(c)]
        pc = lor(a.pc, b.pc)
        return State(cells, facts, pc)

    # ---------------------------------------------------------------- expressions
    def lval(self, st, e, fr):
        """list of (cond, target)"""
        k = e["k"]
        if k == "var":
            cell = fr.env.get(e["id"])
            if cell is None:
                if "g" in e:
                    return [(TRUE, ("g", e["g"]))]
                return [(TRUE, ("u", "unbound " + e["n"]))]
            v = st.cells.get(cell)
            if isinstance(v, Struct) and v.cls == "$ref":
                return list(v.f["p"].alts)
            return [(TRUE, ("l", cell, ()))]
        if k == "mem":
            if e["arrow"]:
                base = self.rval(st, e["b"], fr)
                alts = self.deref(st, base, e["l"], fr)
            else:
                alts = self.lval(st, e["b"], fr)
            own = e.get("own", "")
            f = FIELDMAP.get(strip(e["b"]["t"]).rstrip("* "), {}).get(e["f"], e["f"])
            f = FIELDMAP.get(own.split("::")[0], {}).get(f, f)
            if f == "" :
                return alts
            out = []
            for c, tg in alts:
                if tg and tg[0] == "l":
                    out.append((c, ("l", tg[1], tg[2] + (f,))))
                else:
                    out.append((c, ("u", "field of unknown")))
            return out
        if k == "idx":
            base = self.rval(st, e["b"], fr)
            i = self.rval(st, e["i"], fr)
            return self.offset_alts(st, base, i)
        if k == "un" and e["op"] == "*":
            base = self.rval(st, e["e"], fr)
            return self.deref(st, base, e["l"], fr)
        if k == "un" and e["op"] in ("++", "--"):
            self.rval(st, e, fr)
            return self.lval(st, e["e"], fr)
        if k == "asg":
            self.rval(st, e, fr)
            return self.lval(st, e["a"], fr)
        if k == "this":
            return list(fr.this.alts)
        if k == "cast":
            ck = e["ck"]
            if ck in ("UncheckedDerivedToBase", "DerivedToBase", "LValueBitCast", "BaseToDerived"):
                return self.lval(st, e["e"], fr)
        if k == "cond":
            c = self.boolean(st, e["c"], fr)
            if c is TRUE:
                return self.lval(st, e["a"], fr)
            if c is FALSE:
                return self.lval(st, e["b"], fr)
            return [(land(c, x), t) for x, t in self.lval(st, e["a"], fr)] + [(land(lnot(c), x), t) for x, t in self.lval(st, e["b"], fr)]
        if k in ("mcall", "call", "icall", "pmcall"):
            v = self.rval(st, e, fr, want_ref=True)
            if isinstance(v, Struct) and v.cls == "$ref":
                return list(v.f["p"].alts)
            return [(TRUE, ("l", self.new_cell(st, v), ()))]
        if k == "bin" and e["op"] == ",":
            self.rval(st, e["a"], fr)
            return self.lval(st, e["b"], fr)
        v = self.rval(st, e, fr)
        return [(TRUE, ("l", self.new_cell(st, v), ()))]

    def deref(self, st, p, line, fr):
        if not isinstance(p, P):
            return [(TRUE, ("u", "deref"))]
        bad = FALSE
        out = []
        for c, tg in p.alts:
            if tg is None:
                bad = lor(bad, c)
            else:
                out.append((c, tg))
        if bad is not FALSE and self.rec:
            self.oblige(st, "null", lnot(bad), line, "dereference")
        if not out:
            return [(TRUE, ("u", "null deref"))]
        if len(out) == 1:
            return [(TRUE, out[0][1])]
        return out

    def offset_alts(self, st, base, i):
        out = []
        if not isinstance(base, P) or not isinstance(i, T):
            return [(TRUE, ("u", "index"))]
        for c, tg in base.alts:
            if tg is None:
                if self.rec:
                    self.oblige(st, "null", lnot(c), 0, "index")
                continue
            if tg[0] == "b":
                out.append((c, ("b", tg[1], add(tg[2], i))))
            elif tg[0] == "l":
                out.append((c, ("l", tg[1], tg[2] + (i,))))
            else:
                out.append((c, tg))
        if len(out) == 1:
            return [(TRUE, out[0][1])]
        return out or [(TRUE, ("u", "null index"))]

    def load(self, st, alts, t, line):
        vals = []
        for c, tg in alts:
            if tg and tg[0] == "g":
                vals.append((c, self.global_value(tg[1])))
            elif tg and tg[0] == "u":
                vals.append((c, self.unknown_of(t, tg[1])))
            else:
                g0 = self.gate
                if c is not TRUE:
                    self.gate = land(g0, c)
                v = self.read(st, tg, line=line)
                self.gate = g0
                if isinstance(v, Opaque) and (is_real(deref_t(t)) or is_int(deref_t(t)) or deref_t(t) == "bool"):
                    v = self.unknown_of(t, v.why)
                vals.append((c, v))
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = v if r is v else self.join_val(st, c, v, r)
        return r

    def unknown_of(self, t, why):
        t = deref_t(t)
        if is_real(t):
            return unk(why, "r")
        if is_int(t) or t in self.prog.enum:
            return unk(why, "i")
        if t == "bool":
            return unk(why, "b")
        if t.endswith("*") or is_Ref(t):
            return P([(TRUE, ("u", why))])
        return Opaque(why)

    def global_value(self, name):
        g = self.prog.glob.get(name)
        if g:
            try:
                fr = Frame(None)
                return self.rval(State({}, frozenset(), TRUE), g["init"], fr)
            except Exception:
                pass
        return Opaque("global " + name)

    def boolean(self, st, e, fr):
        v = self.rval(st, e, fr)
        if isinstance(v, P):
            n = FALSE
            for c, tg in v.alts:
                if tg is None:
                    n = lor(n, c)
            return lnot(n)
        if not isinstance(v, T):
            return unk("cond", "b")
        if v.s != "b" and not (v.op == "c" and isinstance(cval(v), bool)):
            v = lnot(eq(v, ZERO))
        return self.simp(st, v)

    def rval(self, st, e, fr, want_ref=False):
        self.steps += 1
        if self.steps > self.budget:
            raise Give("budget")
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            for ch in e.get("a", []) or []:
                if isinstance(ch, dict):
                    self.rval(st, ch, fr)
            return Opaque(k + ":" + e.get("cls", ""))
        if k in ("mcall", "call", "icall", "pmcall"):
            v = m(st, e, fr)
            if isinstance(v, Struct) and v.cls == "$ref" and not want_ref:
                return self.load(st, list(v.f["p"].alts), e["t"], e["l"])
            return v
        return m(st, e, fr)

    def x_int(self, st, e, fr):
        return num(int(e["v"]))

    def x_bool(self, st, e, fr):
        return num(bool(e["v"]))

    def x_real(self, st, e, fr):
        v = e["v"]
        if isinstance(v, str):
            return unk("real literal")
        if v in (float("inf"), float("-inf")) or v != v:
            return neg(INF) if v < 0 else INF if v > 0 else unk("nan")
        # decimal literals denote the written decimal
        f = Fraction(repr(v)) if "e" not in repr(v) or abs(v) < 1e30 else Fraction(v)
        return num(f)

    def x_str(self, st, e, fr):
        return Opaque("str")

    def x_null(self, st, e, fr):
        return NULL

    def x_zero(self, st, e, fr):
        t = strip(e["t"])
        if t.endswith("*") or is_Ref(t):
            return NULL
        if t == "bool":
            return FALSE
        if t in SIMPLE:
            return self.default_value(st, t)
        if t in self.prog.rec:
            return self.raw_struct(st, t)
        return ZERO

    def x_this(self, st, e, fr):
        return fr.this

    def x_fn(self, st, e, fr):
        return Struct("$fn", {"f": e["f"], "sig": e["sig"]})

    def x_var(self, st, e, fr):
        if "cv" in e:
            return num(int(e["cv"]))
        if "cf" in e:
            return num(Fraction(repr(e["cf"])))
        return self.load(st, self.lval(st, e, fr), e["t"], e["l"])

    def x_mem(self, st, e, fr):
        if not e["arrow"] and e["b"]["k"] in ("call", "mcall", "ctor", "icall"):
            b = self.rval(st, e["b"], fr)
            if isinstance(b, Struct):
                f = FIELDMAP.get(b.cls, {}).get(e["f"], e["f"])
                if f == "":
                    return b
                return b.f.get(f, Opaque("field"))
            return self.unknown_of(e["t"], "member of unknown")
        return self.load(st, self.lval(st, e, fr), e["t"], e["l"])

    def x_idx(self, st, e, fr):
        return self.load(st, self.lval(st, e, fr), e["t"], e["l"])

    def x_cond(self, st, e, fr):
        c = self.boolean(st, e["c"], fr)
        if c is TRUE:
            return self.rval(st, e["a"], fr)
        if c is FALSE:
            return self.rval(st, e["b"], fr)
        s1 = st.fork().assume(c)
        a = self.rval(s1, e["a"], fr)
        s2 = st.fork().assume(lnot(c))
        b = self.rval(s2, e["b"], fr)
        j = self.join(c, s1, s2)
        st.cells = j.cells
        return self.join_val(st, c, a, b)

    def x_un(self, st, e, fr):
        op = e["op"]
        if op == "*":
            return self.load(st, self.lval(st, e, fr), e["t"], e["l"])
        if op == "&":
            if e["e"]["k"] == "fn":
                return self.rval(st, e["e"], fr)
            return P(self.lval(st, e["e"], fr))
        if op in ("++", "--", "++p", "--p"):
            alts = self.lval(st, e["e"], fr)
            old = self.load(st, alts, e["t"], e["l"])
            d = ONE if op[0] == "+" else num(-1)
            if isinstance(old, P):
                new = P(self.offset_alts(st, old, d))
            elif isinstance(old, T):
                new = add(old, d)
            else:
                new = self.unknown_of(e["t"], "incr")
            self.store_alts(st, alts, new, e["l"])
            return old if op.endswith("p") else new
        if op == "!":
            return lnot(self.boolean(st, e["e"], fr))
        v = self.rval(st, e["e"], fr)
        if not isinstance(v, T):
            return self.unknown_of(e["t"], "unary")
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "~":
            return fn("i:bitnot", v)
        return unk("unary " + op)

    def store_alts(self, st, alts, v, line):
        if len(alts) == 1:
            self.write(st, alts[0][1] if alts[0][1] and alts[0][1][0] in "lb" else None, v, TRUE, line)
            if alts[0][1] and alts[0][1][0] in "ug":
                self.incomplete.append("store through unknown")
            return
        for c, tg in alts:
            if tg and tg[0] in "lb":
                self.write(st, tg, v, c, line)
            else:
                self.incomplete.append("store through unknown")

    def x_asg(self, st, e, fr):
        op = e["op"]
        if op == "=":
            r = self.rval(st, e["b"], fr)
            alts = self.lval(st, e["a"], fr)
            r = self.coerce(r, e["a"]["t"])
            self.store_alts(st, alts, r, e["l"])
            return r
        # compound
        b = self.rval(st, e["b"], fr)
        alts = self.lval(st, e["a"], fr)
        a = self.load(st, alts, e["a"]["t"], e["l"])
        if isinstance(a, P):
            d = b if op == "+=" else (neg(b) if isinstance(b, T) else b)
            r = P(self.offset_alts(st, a, d))
        else:
            real = is_real(e.get("clt", e["t"]))
            r = self.arith(op[:-1], a, b, real, e["t"], st, e["l"])
            if is_int(e["a"]["t"]) and real:
                r = fn("trunc", r) if isinstance(r, T) else r
        self.store_alts(st, alts, r, e["l"])
        return r

    def coerce(self, v, t):
        return v

    def arith(self, op, a, b, real, t, st=None, line=0):
        if op in ("/", "%") and not real and st is not None and isinstance(b, T) and not (b.op == "c" and cval(b) != 0):
            self.oblige(st, "div", lnot(eq(b, ZERO)), line, "integer " + op)
        if not (isinstance(a, T) and isinstance(b, T)):
            return self.unknown_of(t, "arith")
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return rdiv(a, b) if real else idiv(a, b)
        if op == "%":
            return imod(a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if a.op == "c" and b.op == "c":
                x, y = int(cval(a)), int(cval(b))
                return num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if 0 <= y < 64 else 0, ">>": x >> y if 0 <= y < 64 else 0}[op])
            return fn("i:" + op, a, b)
        return unk("op " + op)

    def x_bin(self, st, e, fr):
        op = e["op"]
        if op == "&&":
            a = self.boolean(st, e["a"], fr)
            if a is FALSE:
                return FALSE
            s1 = st.fork().assume(a)
            b = self.boolean(s1, e["b"], fr)
            j = self.join(a, s1, st) if s1.cells != st.cells else st
            st.cells = j.cells
            return land(a, b)
        if op == "||":
            a = self.boolean(st, e["a"], fr)
            if a is TRUE:
                return TRUE
            s1 = st.fork().assume(lnot(a))
            b = self.boolean(s1, e["b"], fr)
            j = self.join(lnot(a), s1, st) if s1.cells != st.cells else st
            st.cells = j.cells
            return lor(a, b)
        if op == ",":
            self.rval(st, e["a"], fr)
            return self.rval(st, e["b"], fr)
        a = self.rval(st, e["a"], fr)
        b = self.rval(st, e["b"], fr)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(a, P) or isinstance(b, P):
                r = self.ptr_cmp(a, b, op)
                return r
            if not (isinstance(a, T) and isinstance(b, T)):
                return unk("cmp", "b")
            r = {"==": lambda: eq(a, b), "!=": lambda: lnot(eq(a, b)), "<": lambda: lt(a, b), "<=": lambda: le(a, b), ">": lambda: lt(b, a), ">=": lambda: le(b, a)}[op]()
            return self.simp(st, r)
        if isinstance(a, P) and isinstance(b, T):
            return P(self.offset_alts(st, a, b if op == "+" else neg(b)))
        if isinstance(b, P) and isinstance(a, T) and op == "+":
            return P(self.offset_alts(st, b, a))
        if isinstance(a, P) and isinstance(b, P) and op == "-":
            return unk("ptrdiff", "i")
        return self.arith(op, a, b, is_real(e["t"]), e["t"], st, e["l"])

    def ptr_cmp(self, a, b, op):
        if isinstance(a, T) and a is ZERO:
            a = NULL
        if isinstance(b, T) and b is ZERO:
            b = NULL
        if not (isinstance(a, P) and isinstance(b, P)):
            return unk("ptrcmp", "b")
        r = FALSE
        for c1, t1 in a.alts:
            for c2, t2 in b.alts:
                cc = land(c1, c2)
                if cc is FALSE:
                    continue
                if (t1 and t1[0] == "u") or (t2 and t2[0] == "u"):
                    r = lor(r, land(cc, unk("ptr==", "b")))
                elif t1 is None or t2 is None:
                    if t1 is t2:
                        r = lor(r, cc)
                elif t1[0] == "b" and t2[0] == "b" and t1[1] == t2[1]:
                    r = lor(r, land(cc, eq(t1[2], t2[2])))
                elif t1 == t2:
                    r = lor(r, cc)
        return r if op == "==" else lnot(r) if op == "!=" else unk("ptr<", "b")

    def x_cast(self, st, e, fr):
        ck = e["ck"]
        if ck == "LValueToRValue":
            return self.rval(st, e["e"], fr)
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.rval(st, e["e"], fr)
            return ZERO
        if ck == "ArrayToPointerDecay":
            if e["e"]["k"] == "str" or e["e"].get("cls") == "PredefinedExpr":
                return Opaque("str")
            return self.decay(st, e["e"], fr)
        if ck in ("FloatingToIntegral",):
            v = self.rval(st, e["e"], fr)
            return fn("trunc", v) if isinstance(v, T) else self.unknown_of(e["t"], "cast")
        if ck in ("IntegralToFloating", "FloatingCast", "IntegralCast"):
            v = self.rval(st, e["e"], fr)
            if isinstance(v, T) and v.op == "c" and isinstance(cval(v), bool):
                return num(int(cval(v)))
            if isinstance(v, T) and v.s == "b":
                return ite(v, ONE, ZERO)
            return v if isinstance(v, T) else self.unknown_of(e["t"], "cast")
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.boolean(st, e["e"], fr)
        if ck in ("BitCast", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueBitCast", "Dynamic"):
            return self.rval(st, e["e"], fr)
        if ck == "UserDefinedConversion":
            return self.rval(st, e["e"], fr)
        v = self.rval(st, e["e"], fr)
        if ck in ("IntegralToPointer", "PointerToIntegral"):
            return self.unknown_of(e["t"], ck)
        return v

    def decay(self, st, e, fr):
        alts = self.lval(st, e, fr)
        out = []
        for c, tg in alts:
            if tg and tg[0] == "l":
                v = self.read_quiet(st, tg[1], tg[2])
                if isinstance(v, Struct) and v.cls == "$arr":
                    out.append((c, v.f["p"].alts[0][1]))
                    continue
            out.append((c, ("u", "array")))
        return P(out)

    def x_ilist(self, st, e, fr):
        t = strip(e["t"])
        vals = [self.rval(st, a, fr) for a in e["a"]]
        if t.endswith("]"):
            return self.make_array(st, t, vals)
        if t in SIMPLE and len(vals) == len(SIMPLE[t]):
            return Struct(t, {n: v for (n, s), v in zip(SIMPLE[t], vals)})
        if len(vals) == 1 and (is_real(t) or is_int(t) or t.endswith("*")):
            return vals[0]
        if t in self.prog.rec:
            fs = self.all_fields(t)
            s = self.raw_struct(st, t)
            for f, v in zip(fs, vals):
                s = s.set(f["n"], v)
            return s
        return Opaque("init list")

    def make_array(self, st, t, vals):
        dims = []
        base = t
        while base.endswith("]"):
            i = base.rindex("[")
            base = base[:i]
        import re
        dims = [int(x) for x in re.findall(r"\[(\d+)\]", t)]
        n = 1
        for d in dims:
            n *= d
        arr = av("uninit!arr#%d" % next(_cid), 1, "i" if is_int(base) else "r")
        flat = []

        def flatten(v):
            for x in v:
                if isinstance(x, Struct) and x.cls == "$arr":
                    b = st.cells[x.f["p"].alts[0][1][1]]
                    cnt = cval(b.n)
                    flat.extend(sel(b.arr, num(i)) for i in range(cnt))
                else:
                    flat.append(x)

        flatten(vals or [])
        for i, x in enumerate(flat):
            if isinstance(x, T):
                arr = store(arr, (num(i),), x)
        if vals is not None:
            for i in range(len(flat), n):
                arr = store(arr, (num(i),), ZERO)
        c = self.new_cell(st, Buf(num(n), (num(n),), arr))
        return Struct("$arr", {"p": ptr(("b", c, ZERO))})

    def x_lambda(self, st, e, fr):
        if "ret" not in e or e.get("init"):
            self.incomplete.append("local function at line %s" % e["l"])
            return Opaque("lambda")
        own = {}
        for c in e.get("copy") or ():
            if "t" in c:
                v = self.rval(st, c["init"], fr)
            elif c["id"] in fr.env:
                v = self.read(st, ("l", fr.env[c["id"]], ()))
            else:
                continue
            own[c["id"]] = self.new_cell(st, self.copy_value(st, v) if isinstance(v, Struct) and v.cls != "$ref" else v)
            self.csort[own[c["id"]]] = self.csort.get(fr.env.get(c["id"]))
        return Lam(e, fr, own)

    def call_lambda(self, st, lam, args, fr, e):
        le = lam.e
        if len(self.stack) >= self.max_depth or any(s.fn.get("body") is le["body"] for s in self.stack):
            self.incomplete.append("recursion/depth at a local function")
            return self.unknown_of(le["ret"], "recursion")
        outer = lam.fr.fn
        nf_ = Frame({"f": outer["f"], "sig": outer.get("sig", ""), "file": outer.get("file"), "l": le["l"], "ps": le["ps"], "ret": le["ret"], "body": le["body"]})
        nf_.this = lam.fr.this
        nf_.env = {**lam.fr.env, **lam.own}
        for i, p in enumerate(le["ps"]):
            if i < len(args):
                if is_ref(p["t"]):
                    nf_.env[p["id"]] = self.new_cell(st, Struct("$ref", {"p": P(self.lval(st, args[i], fr))}))
                else:
                    v = self.rval(st, args[i], fr)
                    nf_.env[p["id"]] = self.new_cell(st, self.copy_value(st, v) if isinstance(v, Struct) else v)
                    self.csort[nf_.env[p["id"]]] = self.sort_of(p["t"])
        return self.run(st, nf_, e)

    def x_throw(self, st, e, fr):
        return Opaque("throw")

    def x_delete(self, st, e, fr):
        self.rval(st, e["e"], fr)
        return ZERO

    def x_new(self, st, e, fr):
        t = strip(e["nt"])
        v = None
        if "init" in e:
            v = self.rval(st, e["init"], fr)
        else:
            v = self.default_value(st, t)
        c = self.new_cell(st, v)
        self.reown(st, c, v)
        return ptr(("l", c, ()))

    def reown(self, st, c, v):
        if isinstance(v, Struct):
            for k, x in v.f.items():
                if k == "_data" and isinstance(x, P):
                    self.after_write(st, c, ("_data",), x)

    def x_ctor(self, st, e, fr):
        cls = strip(e["cls"])
        a = e["a"]
        if cls.startswith("Ref<"):
            if not a:
                return NULL
            v = self.rval(st, a[0], fr)
            v = v if isinstance(v, P) else P([(TRUE, ("u", "ref"))])
            src = a[0]
            while src["k"] in ("cast", "ctor") and strip(src.get("cls", "")) in ("", "Variant"):
                src = src["e"] if src["k"] == "cast" else src["a"][0]       # an object wrapped for the conversion only
            return self.ref_convert(st, v, src["t"], ref_arg(cls))
        if cls == "Variant" and len(a) == 1 and "*" in e.get("sig", "") and "Object" in e.get("sig", ""):
            return self.rval(st, a[0], fr)
        if e.get("copy"):
            v = self.rval(st, a[0], fr)
            return self.copy_value(st, v)
        if cls in SIMPLE:
            vals = [self.rval(st, x, fr) for x in a]
            fs = SIMPLE[cls]
            if len(vals) == 0:
                return Struct(cls, {n: ZERO for n, s in fs})
            if len(vals) == len(fs) and all(isinstance(v, T) for v in vals):
                return Struct(cls, {n: v for (n, s), v in zip(fs, vals)})
            return Struct(cls, {n: unk("ctor " + cls, s) for n, s in fs})
        sv = self.seq_type(cls)
        if sv is not None:
            vals = [self.rval(st, x, fr) for x in a]
            s = self.empty_seq(st, cls)
            if not vals:
                return s
            if isinstance(s, Struct) and vals and isinstance(vals[0], T):
                s = self.seq_resize(st, s, vals[0], fill=vals[1] if len(vals) > 1 and isinstance(vals[1], T) else (ZERO if cls.startswith("std::") else None))
                return s
            return Opaque("seq ctor")
        if self.map_type(cls):
            for x in a:
                self.rval(st, x, fr)
            return self.empty_map(st, cls)
        if cls.startswith(("std::tuple<", "std::pair<")) and len(a) > 1:
            return Struct(cls, {str(i): self.copy_value(st, self.rval(st, x, fr)) for i, x in enumerate(a)})
        if cls.startswith("std::uniform_int_distribution") and len(a) == 2:
            lo, hi = [self.rval(st, x, fr) for x in a]
            if isinstance(lo, T) and isinstance(hi, T):
                return Struct(cls, {"lo": lo, "hi": hi})
        if cls.startswith(("std::uniform_real_distribution", "std::normal_distribution")) and len(a) <= 2:
            ps = [self.rval(st, x, fr) for x in a]
            ps += [ZERO, ONE][len(ps):]
            if all(isinstance(x, T) for x in ps):
                return Struct(cls, {"p": ps[0], "q": ps[1]})
        if cls in self.prog.rec:
            c = self.new_cell(st, self.raw_struct(st, cls))
            f = self.prog.fn.get((e["f"], e["sig"]))
            if f is not None:
                self.call(st, f, ptr(("l", c, ())), a, fr, e)
            else:
                # implicit default constructor: member initialisers
                self.default_members(st, c, cls, fr)
            v = st.cells[c]
            return v
        for x in a:
            self.rval(st, x, fr)
        return Opaque(cls)

    def default_members(self, st, c, cls, fr):
        for f in self.all_fields(cls):
            if "init" in f:
                f2 = Frame(None)
                f2.this = ptr(("l", c, ()))
                self.write(st, ("l", c, (f["n"],)), self.rval(st, f["init"], f2))
            else:
                t = strip(f["t"])
                if t in self.prog.rec and not is_Ref(t):
                    d = self.prog.get(t + "::" + t.split("::")[-1], nargs=0)
                    if d:
                        self.call(st, d[0], ptr(("l", c, (f["n"],))), [], fr, {"l": 0, "t": "void"})

    def copy_value(self, st, v):
        if isinstance(v, Struct) and v.cls == "$vec":
            tg = v.f["data"].alts[0][1]
            b = st.cells.get(tg[1])
            c = self.new_cell(st, Buf(b.n, b.dims, b.arr))
            return Struct("$vec", {"n": v.f["n"], "data": ptr(("b", c, ZERO))})
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.copy_value(st, x) for k, x in v.f.items()})
        return v

    # ---------------------------------------------------------------- calls
    def x_call(self, st, e, fr):
        f = e["f"]
        if ir.is_error_report(e):
            return ZERO
        h = self.intr.get(f)
        if h:
            r = h(self, st, e, None, fr)
            if r is not NotImplemented:
                return r
        base = f.split("<")[0]
        if f in MATHFN or base in MATHFN:
            name = MATHFN.get(f) or MATHFN.get(base)
            a = [self.rval(st, x, fr) for x in e["a"]]
            if all(isinstance(x, T) for x in a):
                return fn(name, *a)
            return self.unknown_of(e["t"], f)
        g = getattr(self, "f_" + base.replace("::", "_"), None)
        if g:
            return g(st, e, fr)
        fd = self.prog.fn.get((f, e["sig"]))
        if fd is not None:
            return self.call(st, fd, None, e["a"], fr, e)
        a = [self.rval(st, x, fr) for x in e["a"]]
        if f.startswith("std::get<") and len(a) == 1 and isinstance(a[0], Struct):
            k = re.match(r"std::get<(\d+)", f)
            if k and k.group(1) in a[0].f:
                return a[0].f[k.group(1)]
        if base in ("MAX", "std::max", "MIN", "std::min", "Math::max", "Math::min", "fmax", "fmin", "fmaxf", "fminf", "std::fmax", "std::fmin") and len(a) == 2 and all(isinstance(x, T) for x in a):
            return fn("max" if "max" in base.lower() else "min", *a)
        if base.startswith("_post_initialize"):
            return a[0]
        if base in ("__builtin_inff", "__builtin_inf", "__builtin_huge_val", "__builtin_huge_valf"):
            return INF
        if base in ("Math::is_nan", "Math::is_inf", "isnan", "isinf", "std::isnan", "std::isinf") and len(a) == 1:
            return FALSE                # contents are real numbers here
        if base.startswith("Math::") and "rand" not in base and "seed" not in base and all(isinstance(x, T) for x in a):
            return mk("f", ("u:" + base,) + tuple(a), self.sort_of(e["t"]))
        self.clobber(st, e, a, f)
        return self.unknown_of(e["t"], "call " + f)

    def clobber(self, st, e, vals, f):
        if f.startswith(PURE_IGNORED):
            return
        for v in vals:
            if isinstance(v, Opaque) and v.why.startswith("lambda"):
                self.incomplete.append("local function handed to " + f)
            self.havoc_value(st, v, f, 0)

    def havoc_value(self, st, v, why, depth):
        if isinstance(v, P) and depth < 3:
            for c, tg in v.alts:
                if not tg:
                    continue
                if tg[0] == "b":
                    b = st.cells.get(tg[1])
                    if isinstance(b, Buf):
                        st.cells[tg[1]] = Buf(b.n, b.dims, mk("unk", (why, next(_cid)), "a"), b.owner)
                elif tg[0] == "l" and tg[1] in st.cells:
                    o = st.cells[tg[1]]
                    self.havoc_value(st, o, why, depth + 1)

        elif isinstance(v, Struct) and depth < 4:
            for k, x in v.f.items():
                self.havoc_value(st, x, why, depth + 1)

    def x_icall(self, st, e, fr):
        c = self.rval(st, e["c"], fr)
        if isinstance(c, Struct) and c.cls == "$fn":
            fd = self.prog.fn.get((c.f["f"], c.f["sig"]))
            if fd is not None:
                return self.call(st, fd, None, e["a"], fr, e)
        a = [self.rval(st, x, fr) for x in e["a"]]
        if isinstance(c, Struct) and c.cls == "$ufn":
            # a function the caller supplies: uninterpreted in the values of its arguments
            u = []
            for x in a:
                u += [x] if isinstance(x, T) else self.packed(st, x)
            if None not in u:
                return mk("f", ("u:" + c.f["name"],) + tuple(u), self.sort_of(e["t"]))
        for v in a:
            self.havoc_value(st, v, "icall", 0)
        return self.unknown_of(e["t"], "indirect call")

    def packed(self, st, v):
        """a container as the sizes and the content a function of it can depend on"""
        if isinstance(v, P) and len(v.alts) == 1 and v.alts[0][1] and v.alts[0][1][0] == "l":
            o = self.read_quiet(st, v.alts[0][1][1], v.alts[0][1][2])
            if isinstance(o, P):
                return self.packed(st, o)
            if isinstance(o, Struct) and isinstance(o.f.get("_size"), T) and "_data" in o.f:
                d = o.f["_data"]
                if isinstance(d, P) and d.alts and d.alts[-1][1] and d.alts[-1][1][0] == "b":
                    b = self.buf(st, d.alts[-1][1][1])
                    if isinstance(b, Buf):
                        b = b if b.dims is not None and len(b.dims) == 1 else self.relayout(b, (b.n,))
                        if b is not None:
                            i = bv(ZERO, o.f["_size"], "q")
                            return [o.f["_size"], mk("lam", ((i,), sel(b.arr, i)), "a")]
        return [None]

    def x_pmcall(self, st, e, fr):
        a = [self.rval(st, x, fr) for x in e["a"]]
        c = e["c"]
        if c["k"] == "bin" and c["op"] in (".*", "->*"):
            ob = c["a"]
            if c["op"] == "->*":
                this = self.rval(st, ob, fr)
            else:
                this = P(self.lval(st, ob, fr))
            f = self.rval(st, c["b"], fr)
            if isinstance(f, Struct) and f.cls == "$fn":
                fd = self.prog.fn.get((f.f["f"], f.f["sig"]))
                if fd is not None:
                    return self.call(st, fd, this, e["a"], fr, e)
        return self.unknown_of(e["t"], "member pointer call")

    def x_mcall(self, st, e, fr):
        f = e["f"]
        ot = strip(e["o"]["t"])
        cls = f.rsplit("::", 1)[0] if "::operator" not in f else f[:f.index("::operator")]
        meth = f[len(cls) + 2:]
        if cls.startswith("Ref<"):
            return self.ref_method(st, e, fr, meth)
        h = self.intr.get(f)
        if h:
            r = h(self, st, e, "m", fr)
            if r is not NotImplemented:
                return r
        if cls in SIMPLE or cls in ("Vector2i", "Vector3i"):
            r = self.simple_method(st, e, fr, cls, meth)
            if r is not NotImplemented:
                return r
        if self.map_type(cls):
            return self.map_method(st, e, fr, cls, meth)
        sq = self.seq_type(cls)
        if sq is not None or cls.startswith(("PoolVector<", "VectorWriteProxy<", "std::vector<")):
            return self.seq_method(st, e, fr, cls, meth, sq)
        if cls.startswith("Math"):
            return self.x_call(st, e, fr)
        fd = self.prog.fn.get((f, e["sig"]))
        if fd is None and e.get("sig"):
            c = self.prog.byname.get(f, [])
            if len(c) == 1:
                fd = c[0]
        if fd is not None:
            if fd.get("static"):
                return self.call(st, fd, None, e["a"], fr, e)
            if e["oarrow"]:
                this = self.rval(st, e["o"], fr)
            else:
                this = P(self.lval(st, e["o"], fr))
            if not isinstance(this, P):
                this = P([(TRUE, ("u", "this"))])
            nn = [(c, t) for c, t in this.alts if t is not None]
            if len(nn) != len(this.alts):
                bad = lor(*[c for c, t in this.alts if t is None])
                if self.rec:
                    self.oblige(st, "null", lnot(bad), e["l"], "call " + f)
                this = P([(TRUE, nn[0][1])]) if len(nn) == 1 else P(nn) if nn else P([(TRUE, ("u", "null"))])
            return self.call(st, fd, this, e["a"], fr, e)
        ov = self.rval(st, e["o"], fr)
        if isinstance(ov, Lam):
            return self.call_lambda(st, ov, e["a"], fr, e)
        a = [self.rval(st, x, fr) for x in e["a"]]
        r = self.ext_method(st, e, cls, meth, ov, a)
        if r is not NotImplemented:
            return r
        self.clobber(st, e, a, f)
        return self.unknown_of(e["t"], "call " + f)

    def ext_method(self, st, e, cls, meth, ov, a):
        if cls.startswith(("std::uniform", "std::normal", "std::random_device", "std::default_random", "std::linear", "std::bernoulli", "std::binomial", "std::poisson")):
            if isinstance(ov, Struct) and "p" in ov.f and not is_int(e["t"]):
                # a draw of the distribution; the flag tells one draw per iteration from one for all
                return mk("f", ("u:draw_normal" if cls.startswith("std::normal") else "u:draw_uniform", ov.f["p"], ov.f["q"], ONE if self.inloop else ZERO), "r")
            nm = "rnd#%s#%d" % (e["l"], next(_cid))
            s = sym(nm, "i" if is_int(e["t"]) else "r")
            if isinstance(ov, Struct) and "lo" in ov.f:
                st.assume(le(ov.f["lo"], s))
                st.assume(le(s, ov.f["hi"]))
                if ov.f["lo"].op == "c" and ov.f["lo"].args[0] >= 0:
                    NONNEG_SYMS.add(s)
                self.draw_range[s] = (ov.f["lo"], ov.f["hi"])
            if self.rec and "distribution" in cls:
                self.draws.append(s)
            return s
        if cls == "RandomPCG" and meth == "random" and len(a) == 2 and is_int(e["t"]) and all(isinstance(x, T) for x in a):
            s = sym("rnd#%s#%d" % (e["l"], next(_cid)), "i")        # both ends are included, in either order
            lo, hi = (ite(le(a[0], a[1]), x, y) for x, y in ((a[0], a[1]), (a[1], a[0])))
            st.assume(le(lo, s))
            st.assume(le(s, hi))
            if lo.op == "c" and lo.args[0] >= 0:
                NONNEG_SYMS.add(s)
            self.draw_range[s] = (lo, hi)
            if self.rec:
                self.draws.append(s)
            return s
        if cls in ("SortArray<float>", "SortArray<double>", "SortArray<int>") and meth == "sort" and len(a) == 2 and isinstance(a[1], T) and a[1].op == "c" and isinstance(a[0], P):
            n = cval(a[1])
            if n > 6:
                return NotImplemented
            at = [self.offset_alts(st, a[0], num(i)) for i in range(n)]
            el = "int" if cls.startswith("SortArray<int") else "real_t"
            x = [self.load(st, w, el, e["l"]) for w in at]
            if not all(isinstance(v, T) for v in x):
                return NotImplemented
            for i in range(n):                      # any correct sort: here by exchange of neighbours
                for j in range(n - 1 - i):
                    c = lt(x[j + 1], x[j])
                    x[j], x[j + 1] = ite(c, x[j + 1], x[j]), ite(c, x[j], x[j + 1])
            for w, v in zip(at, x):
                self.store_alts(st, w, v, e["l"])
            return ZERO
        if cls == "RandomPCG" and meth in ("randomize", "seed"):
            return ZERO
        return NotImplemented

    def simple_method(self, st, e, fr, cls, meth):
        if meth.startswith("operator"):
            op = meth[len("operator"):].strip()
            a = self.rval(st, e["o"], fr)
            if op in SIMPLE and isinstance(a, Struct):
                return Struct(op, {n: (fn("trunc", a.f[n]) if s == "i" else a.f[n]) for n, s in SIMPLE[op] if n in a.f})
            if op in ("==", "!="):
                b = self.rval(st, e["a"][0], fr)
                if isinstance(a, Struct) and isinstance(b, Struct):
                    r = land(*[eq(a.f[n], b.f[n]) for n, s in SIMPLE[cls]])
                    return self.simp(st, r if op == "==" else lnot(r))
                return unk("cmp", "b")
            if op == "=":
                b = self.rval(st, e["a"][0], fr)
                self.store_alts(st, self.lval(st, e["o"], fr), b, e["l"])
                return b
            if op == "[]":
                i = self.rval(st, e["a"][0], fr)
                if isinstance(a, Struct) and i.op == "c":
                    return a.f[SIMPLE[cls][cval(i)][0]]
                return self.unknown_of(e["t"], "vec index")
        return NotImplemented

    # -- Ref<T>
    def ref_method(self, st, e, fr, meth):
        o = e["o"]
        m = meth.split("<")[0] if not meth.startswith("operator") else meth
        if m.startswith("operator->") or m.startswith("operator*") or m == "ptr":
            return self.as_ptr(self.rval(st, o, fr) if not e["oarrow"] else Opaque(""))
        if m == "is_valid" or m == "is_null":
            v = self.as_ptr(self.rval(st, o, fr))
            n = FALSE
            for c, tg in v.alts:
                if tg is None:
                    n = lor(n, c)
                elif tg[0] == "u":
                    n = lor(n, land(c, unk("null?", "b")))
            n = self.simp(st, n)
            return n if m == "is_null" else lnot(n)
        if m.startswith("operator=="):
            return self.ptr_cmp(self.rval(st, o, fr), self.rval(st, e["a"][0], fr), "==")
        if m.startswith("operator!="):
            return self.ptr_cmp(self.rval(st, o, fr), self.rval(st, e["a"][0], fr), "!=")
        if m.startswith("operator="):
            v = self.ref_convert(st, self.as_ptr(self.rval(st, e["a"][0], fr)), e["a"][0]["t"], ref_arg(o["t"]))
            self.store_alts(st, self.lval(st, o, fr), v, e["l"])
            return v
        if m == "instance":
            cls = ref_arg(o["t"])
            p = self.new_object(st, cls, fr)
            self.store_alts(st, self.lval(st, o, fr), p, e["l"])
            return ZERO
        if m == "unref":
            self.store_alts(st, self.lval(st, o, fr), NULL, e["l"])
            return ZERO
        for x in e["a"]:
            self.rval(st, x, fr)
        return self.unknown_of(e["t"], "Ref::" + m)

    def derives(self, a, b):
        """class a is b or has it as a base"""
        if a == b:
            return True
        r = self.prog.rec.get(a)
        return bool(r) and any(self.derives(x, b) for x in r["bases"])

    def ref_convert(self, st, v, frm, to):
        """Ref<to> built from a Ref/pointer of another class casts dynamically: null when the object is not a `to`"""
        f = deref_t(frm)
        f = ref_arg(f) if f.startswith("Ref<") else f.rstrip("*& ").replace("const ", "").strip()
        if f not in self.prog.rec or to not in self.prog.rec or self.derives(f, to):
            return v
        out = []
        for c, tg in v.alts:
            if tg is None:
                out.append((c, tg))
                continue
            obj = st.cells.get(tg[1]) if tg[0] == "l" and not tg[2] else None
            k = obj.cls if isinstance(obj, Struct) else None
            if k is not None and k in self.prog.rec:
                # operands may be of a class derived from their declared one only when that class can be
                out.append((c, tg if self.derives(k, to) else None))
            elif self.derives(to, f):
                out.append((c, ("u", "downcast")))
            else:
                out.append((c, None))
        return P(out)

    def as_ptr(self, v):
        return v if isinstance(v, P) else P([(TRUE, ("u", "ptr"))])

    def new_object(self, st, cls, fr):
        c = self.new_cell(st, self.raw_struct(st, cls))
        d = self.prog.get(cls + "::" + cls.split("::")[-1], nargs=0)
        if d:
            self.call(st, d[0], ptr(("l", c, ())), [], fr, {"l": 0, "t": "void"})
        return ptr(("l", c, ()))

    # -- containers of sfw / std
    def seq_obj(self, st, e, fr):
        """(alts of container lvalue, value)"""
        alts = self.lval(st, e["o"], fr)
        if e["oarrow"]:
            v = self.rval(st, e["o"], fr)
            alts = self.deref(st, v, e["l"], fr)
        v = self.load(st, alts, e["o"]["t"], e["l"])
        return alts, v

    def seq_resize(self, st, v, n, fill=None):
        tg = v.f["data"].alts[0][1]
        b = st.cells[tg[1]]
        old = b.n
        if b.dims is None:
            b = Buf(b.n, (b.n,), self.as_rank(b, 1), b.owner)
        i = bv(ZERO, n, "q")
        rest = fill if fill is not None else sel(av("uninit!seq#%d" % next(_cid), 1, "r"), i)
        arr = lam((i,), ite(lt(i, old), sel(b.arr, i), rest)) if old is not ZERO else (lam((i,), rest) if fill is not None else av("uninit!seq#%d" % next(_cid), 1, "r"))
        st.cells[tg[1]] = Buf(n, (n,), arr)
        return Struct("$vec", {"n": n, "data": v.f["data"]})

    def seq_get(self, st, v, idx, cell=None):
        val = None
        for i, x in v.items:
            c = eq(i, idx) if isinstance(idx, T) and isinstance(i, T) else FALSE
            if c is TRUE:
                val = x
            elif c is not FALSE:
                if val is None and v.mk is None:
                    val = Opaque("seq elem")
                elif val is None:
                    val = v.mk(self, st, idx)
                val = self.join_val(st, c, x, val)
        if val is None:
            val = v.mk(self, st, idx) if v.mk else Opaque("seq elem of " + str(v.name))
        return val

    def seq_method(self, st, e, fr, cls, meth, elt):
        if cls.startswith("VectorWriteProxy<"):
            # owner.write[i]
            o = e["o"]
            if o["k"] == "mem" and meth.startswith("operator[]"):
                e2 = dict(e)
                e2["o"] = o["b"]
                e2["oarrow"] = o["arrow"]
                ct = strip(o["b"]["t"]).rstrip("* ")
                return self.seq_method(st, e2, fr, ct, meth, self.seq_type(ct) or "")
            return self.unknown_of(e["t"], "write proxy")
        if "::Read" in cls or "::Write" in cls or "::Access" in cls:
            v = self.rval(st, e["o"], fr)
            a = [self.rval(st, x, fr) for x in e["a"]]
            if isinstance(v, Struct) and v.cls == "$acc":
                if meth == "ptr":
                    return v.f["data"]
                if meth.startswith("operator[]"):
                    return Struct("$ref", {"p": P(self.offset_alts(st, v.f["data"], a[0]))})
                if meth in ("release",):
                    return ZERO
            return self.unknown_of(e["t"], "pool access")
        alts, v = self.seq_obj(st, e, fr)
        m = meth.split("<")[0] if not meth.startswith("operator") else meth
        a = None
        if m in ("size",):
            if isinstance(v, Struct) and v.cls == "$vec":
                return v.f["n"]
            if isinstance(v, Seq):
                return v.n
            return unk("size of unknown container", "i")
        if m in ("empty", "is_empty"):
            n = v.f["n"] if isinstance(v, Struct) and v.cls == "$vec" else v.n if isinstance(v, Seq) else unk("size", "i")
            return self.simp(st, eq(n, ZERO))
        if isinstance(v, Struct) and v.cls == "$vec":
            if m in ("ptr", "ptrw", "data"):
                return v.f["data"]
            if m in ("read", "write"):
                return Struct("$acc", {"data": v.f["data"]})
            if m.startswith("operator[]") or m in ("get", "at"):
                i = self.rval(st, e["a"][0], fr)
                return Struct("$ref", {"p": P(self.offset_alts(st, v.f["data"], i))})
            if m == "set":
                i = self.rval(st, e["a"][0], fr)
                x = self.rval(st, e["a"][1], fr)
                self.store_alts(st, self.offset_alts(st, v.f["data"], i), x, e["l"])
                return ZERO
            if m == "resize":
                n = self.rval(st, e["a"][0], fr)
                if isinstance(n, T):
                    v2 = self.seq_resize(st, v, n, ZERO if cls.startswith("std::") else None)
                    self.store_alts(st, alts, v2, e["l"])
                return ZERO
            if m in ("push_back", "append"):
                x = self.rval(st, e["a"][0], fr)
                n = v.f["n"]
                if not isinstance(n, T):
                    n = unk("length", "i")
                v2 = self.seq_resize(st, v, add(n, ONE))
                self.store_alts(st, alts, v2, e["l"])
                self.store_alts(st, self.offset_alts(st, v2.f["data"], n), x, e["l"])
                return ZERO
            if m == "clear":
                self.store_alts(st, alts, self.seq_resize(st, v, ZERO), e["l"])
                return ZERO
            if m == "fill":
                x = self.rval(st, e["a"][0], fr)
                tg = v.f["data"].alts[0][1]
                b = st.cells[tg[1]]
                i = bv(ZERO, v.f["n"], "q")
                st.cells[tg[1]] = Buf(b.n, b.dims or (b.n,), lam((i,), x), b.owner)
                return ZERO
            if m.startswith("operator="):
                x = self.copy_value(st, self.rval(st, e["a"][0], fr))
                self.store_alts(st, alts, x, e["l"])
                return ZERO
        if isinstance(v, Seq):
            if m.startswith("operator[]") or m in ("get", "at"):
                i = self.rval(st, e["a"][0], fr)
                if not isinstance(i, T):
                    return self.unknown_of(e["t"], "seq index")
                if self.rec:
                    self.oblige(st, "bounds", land(le(ZERO, i), lt(i, v.n)), e["l"], "container index")
                out = []
                for c, tg in alts:
                    if tg and tg[0] == "l":
                        out.append((c, ("l", tg[1], tg[2] + (i,))))
                    else:
                        out.append((c, ("u", "seq")))
                return Struct("$ref", {"p": P(out)})
            if m in ("push_back", "append"):
                x = self.copy_value(st, self.rval(st, e["a"][0], fr))
                self.store_alts(st, alts, Seq(add(v.n, ONE), v.name, v.mk, v.items + ((v.n, x),)), e["l"])
                return ZERO
            if m == "set":
                i = self.rval(st, e["a"][0], fr)
                x = self.copy_value(st, self.rval(st, e["a"][1], fr))
                self.store_alts(st, alts, Seq(v.n, v.name, v.mk, v.items + ((i, x),)), e["l"])
                return ZERO
            if m == "resize":
                n = self.rval(st, e["a"][0], fr)
                nul = is_Ref(elt or "")
                self.store_alts(st, alts, Seq(n, "rs%d" % next(_cid), (lambda en, s, i: NULL) if v.n is ZERO and nul else v.mk, v.items if v.n is not ZERO else ()), e["l"])
                return ZERO
            if m == "clear":
                self.store_alts(st, alts, Seq(ZERO, "empty"), e["l"])
                return ZERO
            if m.startswith("operator="):
                x = self.rval(st, e["a"][0], fr)
                self.store_alts(st, alts, x, e["l"])
                return ZERO
        for x in e["a"]:
            self.rval(st, x, fr)
        if m.startswith("operator=") or m in ("resize", "clear", "push_back", "append", "fill", "set", "insert", "sort", "remove", "invert"):
            if m.startswith("operator="):
                x = self.rval(st, e["a"][0], fr)
                self.store_alts(st, alts, self.copy_value(st, x), e["l"])
                return ZERO
            self.store_alts(st, alts, Opaque("container " + m), e["l"])
            return ZERO
        return self.unknown_of(e["t"], "container " + m)

    # -- memory
    def f_Memory_alloc_static(self, st, e, fr):
        n = self.rval(st, e["a"][0], fr)
        return self.alloc(st, n)

    def alloc(self, st, nbytes, esz=4):
        n = self.elems(nbytes)
        c = self.new_cell(st, Buf(n, None, av("uninit!mem#%d" % next(_cid), 1, "r")))
        if self.owning and not self.inloop and not self.loopctx:
            self.track(st, c)
        return ptr(("b", c, ZERO))

    def track(self, st, c):
        self.live[c] = self.new_cell(st, TRUE)
        self.liveflags.add(self.live[c])

    def owned(self, st, tg, line, what, cond=TRUE):
        """obligation that the block a pointer leads to has not been released"""
        if not self.owning or not tg or tg[0] != "b" or tg[1] not in self.live:
            return
        v = st.cells.get(self.live[tg[1]], FALSE)
        if v is not TRUE and self.rec:
            self.oblige(st, "own", lor(lnot(cond), v), line, what, tg[1])

    def elems(self, nbytes):
        if not isinstance(nbytes, T):
            return unk("alloc size", "i")
        q, r = split_by(nbytes, num(4))
        if q is None or r is not ZERO:
            return idiv(nbytes, num(4))
        return q

    def f_Memory_realloc_static(self, st, e, fr):
        p = self.rval(st, e["a"][0], fr)
        nb = self.rval(st, e["a"][1], fr)
        n = self.elems(nb)
        if not isinstance(p, P):
            return self.alloc(st, nb)
        out = []
        for c, tg in p.alts:
            if tg is None:
                out.append((c, self.alloc(st, nb).alts[0][1]))
            elif tg[0] == "b":
                b = st.cells.get(tg[1])
                if not isinstance(b, Buf):
                    return P([(TRUE, ("u", "realloc"))])
                self.owned(st, tg, e["l"], "resized after its release", c)
                un = av("uninit!mem#%d" % next(_cid), 1, "r")
                if b.dims is None:
                    nbuf = Buf(n, None, un, b.owner)
                else:
                    bvs = [bv(ZERO, d, "q") for d in b.dims]
                    # cells beyond the old allocation are uninitialised
                    total = ONE
                    for d in b.dims:
                        total = mul(total, d)
                    inold = lt(bvs[0], b.dims[0]) if b.n is total else lt(self.lin_index(bvs, b.dims), b.n)
                    if len(bvs) == 1:
                        inold = lt(bvs[0], b.n)
                    # the index ranges of bvs do not apply beyond the old extent: use fresh unranged variable for dim 0
                    z = bv(None, None, "q")
                    RANGE.pop(z, None)
                    b0 = bvs[0]
                    free = [z] + bvs[1:]
                    cond = lt(z, b.dims[0]) if (b.n is total and len(bvs) > 1) else lt(self.lin_index(free, b.dims), b.n)
                    body = ite(cond, sel(b.arr, *free), sel(av(un.args[0], len(free), "r"), *free))
                    nbuf = Buf(n, b.dims, lam(free, body), b.owner)
                st.cells[tg[1]] = nbuf
                out.append((c, tg))
            else:
                out.append((c, ("u", "realloc")))
        return P(out)

    def f_Memory_free_static(self, st, e, fr):
        p = self.rval(st, e["a"][0], fr)
        if self.owning and isinstance(p, P):
            for c, tg in p.alts:
                if tg is None and self.rec:
                    self.oblige(st, "own", lnot(c), e["l"], "released though there is none")
                if tg and tg[0] == "b" and tg[1] in self.live:
                    self.owned(st, tg, e["l"], "released again", c)
                    k = self.live[tg[1]]
                    st.cells[k] = ite(c, FALSE, st.cells.get(k, FALSE))
                    if tg[2] is not ZERO and self.rec:
                        self.oblige(st, "own", lor(lnot(c), eq(tg[2], ZERO)), e["l"], "released by a pointer into it", tg[1])
        return ZERO

    def f_memcpy(self, st, e, fr):
        d = self.rval(st, e["a"][0], fr)
        s = self.rval(st, e["a"][1], fr)
        n = self.elems(self.rval(st, e["a"][2], fr))
        if isinstance(d, P) and isinstance(s, P) and len(d.alts) == 1:
            dt = d.alts[0][1]
            sa = [(c, t) for c, t in s.alts if t and t[0] == "b"]
            if dt and dt[0] == "b" and len(sa) >= 1:
                db = self.buf(st, dt[1])
                i = bv(ZERO, db.n, "q")
                z = bv(None, None, "q")
                v = None
                for c, tg in reversed(sa):
                    sb = self.buf(st, tg[1])
                    k = bv(ZERO, n, "q")
                    if self.rec:
                        self.oblige(st, "bounds", le(add(tg[2], n), sb.n), e["l"], "memcpy source", tg[1])
                    x = sel(sb.arr, *self.delin(add(k, tg[2]), sb.dims))
                    x = subst(x, {k: sub(z, dt[2])})
                    v = x if v is None else ite(c, x, v)
                if self.rec:
                    self.oblige(st, "bounds", le(add(dt[2], n), db.n), e["l"], "memcpy destination", dt[1])
                if len(db.dims) == 1:
                    cond = land(le(dt[2], z), lt(z, add(dt[2], n)))
                    st.cells[dt[1]] = Buf(db.n, db.dims, lam((z,), ite(cond, v, sel(db.arr, z))), db.owner)
                    return d
        self.havoc_value(st, d, "memcpy", 0)
        return d

    def f___swap_tmpl(self, st, e, fr):
        a = self.lval(st, e["a"][0], fr)
        b = self.lval(st, e["a"][1], fr)
        va = self.load(st, a, e["a"][0]["t"], e["l"])
        vb = self.load(st, b, e["a"][1]["t"], e["l"])
        self.store_alts(st, a, vb, e["l"])
        self.store_alts(st, b, va, e["l"])
        return ZERO

    f_std_swap = f___swap_tmpl

    # ---------------------------------------------------------------- inlined call
    def call(self, st, fd, this, args, fr, e):
        key = (fd["f"], fd["sig"])
        self.called.add(key)
        op = self.opaque.get(fd["f"])
        if op is not None:
            vals = []
            for p, x in zip(fd["ps"], args):
                vals.append(self.rval(st, x, fr))
            return op(self, st, fd, this, vals, e)
        if len(self.stack) >= self.max_depth or sum(1 for s in self.stack if s.fn is fd) >= self.recurse_max:
            vals = [self.rval(st, x, fr) for x in args]
            for v in vals:
                self.havoc_value(st, v, "recursion", 0)
            self.incomplete.append("recursion/depth at " + fd["f"])
            return self.unknown_of(fd["ret"], "recursion " + fd["f"])
        nf_ = Frame(fd)
        nf_.this = this
        for i, p in enumerate(fd["ps"]):
            if i < len(args):
                if is_ref(p["t"]):
                    al = self.lval(st, args[i], fr)
                    nf_.env[p["id"]] = self.new_cell(st, Struct("$ref", {"p": P(al)}))
                else:
                    v = self.rval(st, args[i], fr)
                    v = self.copy_value(st, v) if isinstance(v, Struct) else v
                    nf_.env[p["id"]] = self.new_cell(st, v)
                    self.csort[nf_.env[p["id"]]] = self.sort_of(p["t"])
            elif "def" in p:
                nf_.env[p["id"]] = self.new_cell(st, self.rval(st, p["def"], fr))
                self.csort[nf_.env[p["id"]]] = self.sort_of(p["t"])
        return self.run(st, nf_, e)

    def run(self, st, nf_, e=None):
        fd = nf_.fn
        pc0, facts0 = st.pc, st.facts
        self.stack.append(nf_)
        oldpcs = self.pcs
        self.pcs = oldpcs + (pc0,)
        st.pc = TRUE
        try:
            cur = st.fork()
            if fd.get("ctor"):
                tg = nf_.this.alts[0][1]
                for ini in fd.get("inits", []):
                    if "f" in ini:
                        v = self.rval(cur, ini["e"], nf_)
                        self.write(cur, ("l", tg[1], tg[2] + (ini["f"],)), v)
                    elif "base" in ini:
                        x = ini["e"]
                        if x and x["k"] == "ctor":
                            bf = self.prog.fn.get((x["f"], x["sig"]))
                            if bf is not None:
                                self.call(cur, bf, nf_.this, x["a"], nf_, {"l": 0, "t": "void"})
                # in-class initialisers come through the written=false inits above
            end = self.exec(cur, fd["body"], nf_)
            rets = list(nf_.rets)
            if end is not None:
                rets.append((end.pc, end, None))
            if not rets:
                # every path rejects: keep the input state
                st.pc, st.facts = pc0, facts0
                self.incomplete.append("no normal return from " + fd["f"])
                return self.unknown_of(fd["ret"], "no return")
            pc, acc, val = rets[-1]
            for pc2, s2, v2 in reversed(rets[:-1]):
                # discriminate: drop the conjuncts shared by both path conditions
                c = self.discr(pc2, acc.pc)
                if val is None or v2 is None:
                    val = v2 if val is None else val
                else:
                    val = self.join_val(acc, c, v2, val)
                acc = self.join(c, s2, acc)
            st.cells = acc.cells
            st.facts = facts0 | acc.facts
            st.pc = land(pc0, *[x for x in conjuncts(acc.pc)]) if len(rets) == 1 else pc0
            if val is None:
                return ZERO if fd["ret"] == "void" else self.unknown_of(fd["ret"], "no value")
            return val
        finally:
            self.stack.pop()
            self.pcs = oldpcs

    def discr(self, pa, pb):
        """condition distinguishing path pa from pb"""
        a, b = conjuncts(pa), conjuncts(pb)
        for x in a:
            if lnot(x) in b:
                return x
        sb = set(b)
        d = [x for x in a if x not in sb]
        return land(*d) if d else TRUE

    # ---------------------------------------------------------------- statements
    def exec(self, st, s, fr):
        if s is None or st is None:
            return st
        return getattr(self, "s_" + s["k"], self.s_unknown)(st, s, fr)

    def s_unknown(self, st, s, fr):
        self.incomplete.append("statement " + s["k"] + " " + s.get("cls", ""))
        return st

    def s_nop(self, st, s, fr):
        return st

    def s_expr(self, st, s, fr):
        self.rval(st, s["e"], fr)
        return st

    def s_block(self, st, s, fr):
        for x in s["b"]:
            if st is None:
                break
            st = self.exec(st, x, fr)
        return st

    def s_decl(self, st, s, fr):
        for v in s["v"]:
            self.decl(st, v, fr)
        return st

    def decl(self, st, v, fr):
        t = v["t"]
        if is_ref(t) and "init" in v:
            al = self.lval(st, v["init"], fr)
            fr.env[v["id"]] = self.new_cell(st, Struct("$ref", {"p": P(al)}))
            return
        if "init" in v and v["init"] is not None:
            if strip(t).endswith("]"):
                val = self.rval(st, v["init"], fr)
                if not (isinstance(val, Struct) and val.cls == "$arr"):
                    val = self.make_array(st, strip(t), None) if "[" in t and t[t.index("[") + 1].isdigit() else Opaque("array")
            else:
                val = self.rval(st, v["init"], fr)
        elif strip(t).endswith("]"):
            import re
            val = self.make_array(st, strip(t), None) if re.search(r"\[\d+\]", t) else Opaque("array")
        else:
            val = self.default_value(st, t, v["n"])
        c = self.new_cell(st, val)
        self.csort[c] = self.sort_of(t)
        fr.env[v["id"]] = c
        self.reown(st, c, val)

    def is_reject(self, s):
        """block that reports an error and leaves"""
        if s is None:
            return False
        body = s["b"] if s["k"] == "block" else [s]
        rep = any(x["k"] == "expr" and any(ir.is_error_report(n) or n.get("f") == "__builtin_trap" for n in ir.walk(x)) for x in body)
        return rep and bool(body) and (body[-1]["k"] in ("ret",) or any(n.get("f") == "__builtin_trap" for x in body for n in ir.walk(x)))

    def s_if(self, st, s, fr):
        if "init" in s:
            st = self.exec(st, s["init"], fr)
        if "cv" in s:
            self.decl(st, s["cv"], fr)
        c = self.boolean(st, s["c"], fr)
        if self.is_reject(s["a"]):
            if self.rec:
                full = land(*self.pcs, st.pc)
                self.rejects.append((full, c, fr.fn["f"], s["l"], tuple(self.loopctx), self.stack[0].fn is fr.fn))
                self.reject_cells.append(dict(st.cells))
            if c is TRUE:
                return None
            st.assume(lnot(c))
            return self.exec(st, s["b"], fr) if s["b"] else st
        if c is TRUE:
            return self.exec(st, s["a"], fr)
        if c is FALSE:
            return self.exec(st, s["b"], fr) if s["b"] else st
        s1 = st.fork().assume(c)
        s2 = st.fork().assume(lnot(c))
        r1 = self.exec(s1, s["a"], fr)
        r2 = self.exec(s2, s["b"], fr) if s["b"] else s2
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        j = self.join(c, r1, r2)
        # both continue: path condition is what preceded plus correlated residue
        if r1.pc is land(st.pc, c) and r2.pc is land(st.pc, lnot(c)):
            j.pc = st.pc
        return j

    def s_ret(self, st, s, fr):
        v = None
        if "e" in s:
            rt = fr.fn["ret"] if fr.fn else ""
            if is_ref(rt):
                v = Struct("$ref", {"p": P(self.lval(st, s["e"], fr))})
            else:
                v = self.rval(st, s["e"], fr)
        fr.rets.append((st.pc, st, v))
        return None

    def s_break(self, st, s, fr):
        fr.brk[-1].append(st)
        return None

    def s_continue(self, st, s, fr):
        fr.cont[-1].append(st)
        return None

    def s_try(self, st, s, fr):
        return self.exec(st, s["b"], fr)

    def s_case(self, st, s, fr):
        return self.exec(st, s["s"], fr)

    s_default = s_case

    def s_label(self, st, s, fr):
        return self.exec(st, s["s"], fr)

    def s_switch(self, st, s, fr):
        v = self.rval(st, s["c"], fr)
        if not isinstance(v, T):
            v = unk("switch", "i")
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten: list of (labels, stmt)
        items = []

        def push(x):
            labs = []
            while x["k"] in ("case", "default"):
                labs.append(x)
                x = x["s"]
                if x is None:
                    x = {"k": "nop", "l": 0}
            items.append((labs, x))

        for x in body:
            push(x)
        conds = []
        for labs, _ in items:
            for l in labs:
                if l["k"] == "case":
                    conds.append(self.simp(st, eq(v, num(int(l["cv"])))))
        defc = land(*[lnot(c) for c in conds])
        base = st.fork()
        cur = None
        fr.brk.append([])
        seen_def = False
        for labs, x in items:
            for l in labs:
                if l["k"] == "case":
                    c = self.simp(base, eq(v, num(int(l["cv"]))))
                else:
                    c = self.simp(base, defc)
                    seen_def = True
                if c is FALSE:
                    continue
                ent = base.fork().assume(c)
                cur = ent if cur is None else self.join(self.discr(ent.pc, cur.pc), ent, cur)
            if cur is not None:
                cur = self.exec(cur, x, fr)
        outs = fr.brk.pop()
        if cur is not None:
            outs.append(cur)
        if not seen_def:
            c = self.simp(base, defc)
            if c is not FALSE:
                outs.append(base.fork().assume(c))
        if not outs:
            return None
        acc = outs[-1]
        n = len(outs)
        for o in reversed(outs[:-1]):
            acc = self.join(self.discr(o.pc, acc.pc), o, acc)
        if not any(True for _ in ()):
            if n > 1:
                acc.pc = base.pc if self.total(outs, base) else acc.pc
        return acc

    def total(self, outs, base):
        return True

    # ---------------------------------------------------------------- loops
    def s_for(self, st, s, fr):
        st = self.exec(st, s["init"], fr) if s["init"] else st
        return self.loop(st, s["c"], s["inc"], s["b"], fr, s["l"])

    def s_while(self, st, s, fr):
        return self.loop(st, s["c"], None, s["b"], fr, s["l"])

    def s_do(self, st, s, fr):
        # body executes at least once
        fr.brk.append([])
        fr.cont.append([])
        cur = self.exec(st, s["b"], fr)
        bs, cs = fr.brk.pop(), fr.cont.pop()
        for c in cs:
            cur = c if cur is None else self.join(self.discr(c.pc, cur.pc), c, cur)
        if cur is not None:
            c = self.boolean(cur, s["c"], fr)
            if c is FALSE:
                out = cur
            else:
                out = self.loop(cur, s["c"], None, s["b"], fr, s["l"])
        else:
            out = None
        for b in bs:
            out = b if out is None else self.join(self.discr(b.pc, out.pc), b, out)
        return out

    def s_rfor(self, st, s, fr):
        # range-for over a container: index loop
        alts = self.lval(st, s["r"], fr)
        v = self.load(st, alts, s["r"]["t"], s["l"])
        self.incomplete.append("range-for")
        fr.env[s["v"]["id"]] = self.new_cell(st, self.unknown_of(s["v"]["t"], "range-for"))
        return self.loop(st, {"k": "other", "t": "bool", "l": s["l"], "cls": "rangefor"}, None, s["b"], fr, s["l"])

    def flat_locs(self, v, cell, path=()):
        if isinstance(v, Struct) and v.cls not in ("$ref",):
            for k, x in v.f.items():
                yield from self.flat_locs(x, cell, path + (k,))
        else:
            yield (cell, path), v

    def diffs(self, a, b, cells):
        out = set()
        for c in cells:
            va, vb = a.cells.get(c), b.cells.get(c)
            if va is vb or vb is None:
                continue
            if isinstance(va, Struct) and isinstance(vb, Struct) and va.cls == vb.cls and va.cls != "$ref":
                da, db = dict(self.flat_locs(va, c)), dict(self.flat_locs(vb, c))
                for k in set(da) | set(db):
                    if da.get(k) is not db.get(k) and da.get(k) != db.get(k):
                        out.add(k)
            elif va != vb:
                out.add((c, ()))
        return out

    def get_loc(self, st, loc):
        return self.read_quiet(st, loc[0], loc[1])

    def set_loc(self, st, loc, v):
        cell, path = loc
        st.cells[cell] = self._upd(st, st.cells.get(cell), path, v, TRUE, cell) if path else v

    def body_once(self, head, cond, inc, body, fr, T0=None):
        """one abstract iteration. returns (cond at head, end state, breaks, returns)"""
        nrets = len(fr.rets)
        fr.brk.append([])
        fr.cont.append([])
        cur = head.fork()
        added = []
        if T0 is not None:
            # inside the body the iteration range is not empty
            for x in ([T0] if T0.op == "v" else [y for y, v in T0.args[1] if v > 0] if T0.op == "+" and len(T0.args[1]) == 1 else []):
                if x.op == "v" and x in NONNEG_SYMS and x not in POS_SYMS:
                    POS_SYMS.add(x)
                    added.append(x)
        try:
            return self._body_once(cur, cond, inc, body, fr, nrets)
        finally:
            POS_SYMS.difference_update(added)

    def _body_once(self, cur, cond, inc, body, fr, nrets):
        c = self.boolean(cur, cond, fr) if cond is not None else TRUE
        pre = cur.fork()
        if c is not FALSE:
            cur.assume(c)
            end = self.exec(cur, body, fr)
        else:
            end = None
        bs, cs = fr.brk.pop(), fr.cont.pop()
        for x in cs:
            end = x if end is None else self.join(self.discr(x.pc, end.pc), x, end)
        if end is not None and inc is not None:
            self.rval(end, inc, fr)
        rets = fr.rets[nrets:]
        del fr.rets[nrets:]
        return c, pre, end, bs, rets

    def peel(self, st, cond, inc, body, fr, dry, limit=4):
        """an endless loop whose exit is decided in every iteration is the sequence of its bodies"""
        cur = st
        for i in range(limit):
            if cond is not None and self.boolean(cur, cond, fr) is not TRUE:
                return None
            fr.brk.append([])
            fr.cont.append([])
            n = len(fr.rets)
            end = self.exec(cur.fork(), body, fr)
            bs, cs = fr.brk.pop(), fr.cont.pop()
            for x in cs:
                end = x if end is None else self.join(self.discr(x.pc, end.pc), x, end)
            if end is None:
                if not bs:
                    return cur if dry else None
                acc = bs[-1]
                for o in reversed(bs[:-1]):
                    acc = self.join(self.discr(o.pc, acc.pc), o, acc)
                return acc
            if bs:
                return None
            if inc is not None:
                self.rval(end, inc, fr)
            cur = end
        return None

    def loop(self, st, cond, inc, body, fr, line):
        if cond is None or cond.get("k") == "bool" and cond.get("v"):
            env0, inc0, rets0 = dict(fr.env), len(self.incomplete), list(fr.rets)
            rec, self.rec = self.rec, False
            loops0 = len(self.loops)
            try:
                out = self.peel(st.fork(), cond, inc, body, fr, True)
            finally:
                self.rec = rec
            fr.env = env0
            fr.rets[:] = rets0
            del self.incomplete[inc0:], self.loops[loops0:]
            if out is not None:
                return self.peel(st, cond, inc, body, fr, False)
        n = self.static_trip(st, cond, inc, fr)
        if n is not None:
            return self.unroll(st, cond, inc, body, fr, n)
        if self.first_pass and self.rec:
            self.first_iteration(st, cond, body, fr)
        pre_cells = list(st.cells)
        env0 = dict(fr.env)
        rec, self.rec = self.rec, False
        inc0 = len(self.incomplete)
        self.inloop += 1
        rough = self.modonly > 0
        roughs = self.roughs
        self.modonly += 1
        mod = set()
        heads = {}
        kinds = {}
        try:
            for it in range(8):
                head = st.fork()
                head.pc = TRUE
                heads = {}
                for loc in mod:
                    self.havoc_loc(head, loc, heads, st)
                fr.env = dict(env0)
                c, pre, end, bs, rets = self.body_once(head, cond, inc, body, fr)
                new = set(mod)
                for s2 in [end] + bs + [r[1] for r in rets]:
                    if s2 is not None:
                        new |= self.norm_mods(self.diffs(head, s2, pre_cells))
                if new == mod:
                    break
                mod = new
            else:
                self.incomplete.append("loop modification set")
        finally:
            self.rec = rec
            self.inloop -= 1
            self.modonly -= 1
        fr.env = dict(env0)
        del self.incomplete[inc0:]
        if rough and end is not None and not bs and not rets and all(isinstance(x, Buf) or isinstance(x, T) and x.s != "a" for x in (self.get_loc(st, loc) for loc in mod)):
            # an enclosing loop only asks what this one modifies
            out = st.fork()
            for loc in mod:
                self.havoc_loc(out, loc, {}, st)
            self.roughs += 1
            return out
        mo, self.modonly = self.modonly, 0
        try:
            return self.loop_closed(st, cond, inc, body, fr, line, rec, mod, head, heads, c, pre, end, bs, rets, env0, inc0, self.roughs != roughs)
        finally:
            self.modonly = mo

    def first_iteration(self, st, cond, body, fr):
        """what the first round of a loop is obliged to, from exactly the state it starts in"""
        env0, inc0, rets0 = dict(fr.env), len(self.incomplete), list(fr.rets)
        loops0 = len(self.loops)
        cur = st.fork()
        if cond is not None:
            c = self.boolean(cur, cond, fr)
            if c is not FALSE and c is not TRUE:
                cur.assume(c)
        else:
            c = TRUE
        if c is not FALSE:
            fr.brk.append([])
            fr.cont.append([])
            try:
                self.exec(cur, body, fr)
            finally:
                fr.brk.pop()
                fr.cont.pop()
        fr.env = env0
        fr.rets[:] = rets0
        del self.incomplete[inc0:], self.loops[loops0:]

    def loop_closed(self, st, cond, inc, body, fr, line, rec, mod, head, heads, c, pre, end, bs, rets, env0, inc0, again):
        """closed forms of what the loop modifies, from the last analysis of its body"""

        if end is None and not bs and not rets:
            # cond is false at once (or every path rejects)
            out = st
            if c is not FALSE:
                out.assume(lnot(c))
            return out
        t = bv(ZERO, None, "t")
        if end is not None:
            # induction variables first; then the body once more in terms of the iteration number
            pre_sol, T0 = self.solve_induction(st, head, end, heads, c, t)
            if T0 is not None and T0.op == "c" and 0 <= T0.args[0] <= self.unroll_max:
                self.rec = rec
                return self.unroll(st, cond, inc, body, fr, int(T0.args[0]))
            if pre_sol:
                if T0 is not None:
                    RANGE[t] = (ZERO, T0)
                self.rec, rec_ = False, self.rec
                self.inloop += 1
                try:
                    head = st.fork()
                    head.pc = TRUE
                    h2 = {}
                    for loc in mod:
                        if loc in pre_sol:
                            self.set_loc(head, loc, pre_sol[loc](t))
                    for loc in mod:
                        if loc not in pre_sol:
                            self.havoc_loc(head, loc, h2, st)
                    heads = h2
                    hs_ = head
                    if T0 is not None:
                        hs_ = head.fork()
                        hs_.assume(lt(t, T0))
                        hs_.pc = TRUE
                    c, pre, end, bs, rets = self.body_once(hs_, cond, inc, body, fr, T0)
                finally:
                    self.rec = rec_
                    self.inloop -= 1
                fr.env = dict(env0)
                del self.incomplete[inc0:]
                sol, T_, ok = self.solve(st, head, end, heads, c, t, bs, rets) if T0 is None else self.solve(st, head, end, heads, c, t, bs, rets, T0)
                sol.update(pre_sol)
            else:
                if again:
                    self.rec, rec_ = False, self.rec
                    self.inloop += 1
                    try:
                        head = st.fork()
                        head.pc = TRUE
                        heads = {}
                        for loc in mod:
                            self.havoc_loc(head, loc, heads, st)
                        c, pre, end, bs, rets = self.body_once(head, cond, inc, body, fr)
                    finally:
                        self.rec = rec_
                        self.inloop -= 1
                    fr.env = dict(env0)
                    del self.incomplete[inc0:]
                sol, T_, ok = self.solve(st, head, end, heads, c, t, bs, rets)
        else:
            sol, T_, ok = self.solve(st, head, end, heads, c, t, bs, rets)
        RANGE[t] = (ZERO, T_ if T_ is not None else unk("trip", "i"))
        regular = ok and T_ is not None

        # final pass in terms of the iteration number t
        def build_head():
            h = st.fork()
            h.pc = TRUE
            for loc in mod:
                sl = sol.get(loc)
                self.set_loc(h, loc, sl(t) if sl is not None and regular else heads[loc][1] if loc in heads else Opaque("loop"))
            return h

        h2 = build_head()
        if T_ is not None:
            self.loopctx.append((t, ZERO, T_))
        else:
            self.loopctx.append((t, ZERO, None))
        if regular:
            h2.assume(lt(t, T_)) if T_.op != "unk" else None
            h2.pc = TRUE
        c2, pre2, end2, bs2, rets2 = self.body_once(h2, cond, inc, body, fr, T_)
        self.loopctx.pop()
        fr.env = dict(env0)
        info = LoopInfo()
        info.fn, info.line, info.head, info.end, info.t, info.T = fr.fn, line, h2, end2, t, T_
        info.exits, info.cells, info.regular, info.cond = (bs2, rets2), heads, regular, c2
        info.file = fr.fn["file"] if fr.fn else ""
        info.depth = len(self.stack)
        info.start = st
        info.unsolved = [loc for loc in mod if sol.get(loc) is None]
        if rec:
            self.loops.append(info)
        if not regular:
            return self.irregular_exit(st, mod, heads, head, h2, c2, pre2, end2, bs2, rets2, fr, line)
        return self.regular_exit(st, mod, sol, t, T_, bs2, rets2, fr, heads, pre2, c2)

    def static_trip(self, st, cond, inc, fr):
        """number of iterations when condition and increment alone fix it to a small constant"""
        if self.unroll_max < 2 or cond is None or inc is None:
            return None
        rec, self.rec = self.rec, False
        inc0 = len(self.incomplete)
        try:
            cur = st.fork()
            for i in range(self.unroll_max + 1):
                c = self.boolean(cur, cond, fr)
                if c is FALSE:
                    return i
                if c is not TRUE and self.unroll_max < 5:
                    return None             # a bound that depends on the contents is followed for pinned sizes only
                self.rval(cur, inc, fr)
        finally:
            self.rec = rec
            del self.incomplete[inc0:]
        return None

    def unroll(self, st, cond, inc, body, fr, n):
        """a loop of a known small number of iterations is the sequence of its bodies"""
        cur, outs = st, []
        for i in range(n + 1):
            c = self.boolean(cur, cond, fr) if cond is not None else TRUE
            if c is not TRUE:
                o = cur.fork() if c is not FALSE else cur
                if c is not FALSE:
                    o.assume(lnot(c))
                outs.append(o)
                if c is FALSE:
                    break
            if i == n:
                self.incomplete.append("loop goes on")
                break
            cur = cur.fork()
            if c is not TRUE:
                cur.assume(c)
            fr.brk.append([])
            fr.cont.append([])
            end = self.exec(cur, body, fr)
            bs, cs = fr.brk.pop(), fr.cont.pop()
            for x in cs:
                end = x if end is None else self.join(self.discr(x.pc, end.pc), x, end)
            outs += bs
            if end is None:
                break
            if inc is not None:
                self.rval(end, inc, fr)
            cur = end
        if not outs:
            return None
        acc = outs[-1]
        for o in reversed(outs[:-1]):
            acc = self.join(self.discr(o.pc, acc.pc), o, acc)
        return acc

    def norm_mods(self, d):
        return d

    def havoc_loc(self, head, loc, heads, st):
        cell, path = loc
        v = self.get_loc(st, loc)
        u = next(_cid)
        if isinstance(v, T):
            if v.s == "a":
                nv = av("h!%d" % u, arank(v) or 1)
            else:
                s = self.loc_sort(st, loc) or (v.s if v.s in ("i", "r", "b") else "n")
                nv = sym("h!%d" % u, s)
        elif isinstance(v, Buf):
            dims = v.dims
            if v.owner:
                d = self.owner_dims(head, v.owner)
                if d is not None:
                    dims = d
            if dims is None:
                dims = (v.n,)
            es = "r"
            if v.arr.op == "av":
                es = v.arr.args[2]
            nv = Buf(v.n, dims, av("h!%d" % u, len(dims), es), v.owner)
        elif isinstance(v, P):
            # keep the pointee's class information by an abstract object of equal shape
            nv = self.havoc_ptr(head, v, u)
        elif isinstance(v, Seq):
            nv = Seq(v.n, "h!%d" % u, v.mk, ())
        else:
            nv = Opaque("h!%d" % u)
        self.set_loc(head, loc, nv)
        heads[loc] = (v, nv)

    def havoc_ptr(self, st, v, u):
        """a fresh object with the shape of the pointee (contents arbitrary)"""
        tgs = [tg for c, tg in v.alts if tg]
        if len(v.alts) == 1 and tgs and tgs[0][0] == "l" and not tgs[0][2]:
            o = st.cells.get(tgs[0][1])
            if isinstance(o, Struct) and "_data" in o.f and "_size" in o.f:
                d = self.owner_dims(st, (tgs[0][1], ()))
                if d is not None:
                    n = ONE
                    for x in d:
                        n = mul(n, x)
                    bc = self.new_cell(st, Buf(n, d, av("h!%d" % u, len(d))))
                    oc = self.new_cell(st, o.set("_data", ptr(("b", bc, ZERO))))
                    st.cells[bc].owner = (oc, ())
                    return ptr(("l", oc, ()))
        return P([(TRUE, ("u", "h!%d" % u))])

    # -- solving recurrences
    def allfacts(self, st):
        return st.facts

    def solve_induction(self, st, head, end, heads, cond, t):
        pre, sub_ = {}, {}
        for loc, (v0, hv) in heads.items():
            ev = self.get_loc(end, loc)
            if isinstance(hv, T) and isinstance(ev, T) and isinstance(v0, T) and hv.s == "i":
                d = self.delta(ev, hv)
                if d is not None and d.op == "c" and d is not ZERO:
                    pre[loc] = (lambda v0, d: lambda n: add(v0, mul(n, d)))(v0, d)
                    sub_[hv] = pre[loc](t)
        if not pre:
            return pre, None
        return pre, self.trip(cond, sub_, t, None, heads, self.allfacts(st))

    def solve(self, st, head, end, heads, cond, t, bs, rets, T0=None):
        """closed forms: loc -> function(n) giving the value after n iterations; trip count"""
        sol = {}
        if end is None:
            # body never completes an iteration normally: at most one iteration
            for loc in heads:
                v0 = heads[loc][0]
                sol[loc] = (lambda v0: lambda n: v0)(v0)
            cs = cond
            m = {h[1]: h[0] for h in heads.values() if isinstance(h[1], T) and isinstance(h[0], T)}
            c0 = subst(cond, m) if m else cond
            return sol, ite(c0, ONE, ZERO), True
        hs = {}
        for loc, (v0, hv) in heads.items():
            if isinstance(hv, T):
                hs[hv] = loc
            elif isinstance(hv, Buf):
                hs[hv.arr] = loc
        hset = set(hs)

        def mentions(x):
            """head symbols occurring in x"""
            return heads_in(x, hset)

        pend = {}
        for loc, (v0, hv) in heads.items():
            pend[loc] = self.get_loc(end, loc)
        sub_ = {}          # head symbol -> closed form at iteration t
        known = {}

        # 1. induction variables
        progress = True
        guard = 0
        phase = 0
        while (progress or phase == 0) and pend and guard < 40:
            if not progress:
                # scalars first: the trip count bounds the iteration number in array subscripts
                phase = 1
                if T0 is None:
                    T0 = self.trip(cond, sub_, t, sol, heads, self.allfacts(st))
                    if T0 is not None:
                        RANGE[t] = (ZERO, T0)
            progress = False
            guard += 1
            for loc in list(pend):
                v0, hv = heads[loc]
                ev = pend[loc]
                if isinstance(hv, T) and isinstance(ev, T) and hv.s != "a":
                    f = self.solve_scalar(v0, hv, ev, sub_, hset, t, heads, pend, head)
                elif isinstance(hv, Buf) and isinstance(ev, Buf):
                    if phase == 0:
                        continue
                    f = self.solve_buf(v0, hv, ev, sub_, hset, t, head, st)
                elif isinstance(hv, P) and isinstance(ev, P):
                    f = self.solve_ptr(v0, hv, ev, sub_, hset, t)
                else:
                    f = None
                if f is not None:
                    sol[loc] = f
                    del pend[loc]
                    if isinstance(hv, T):
                        sub_[hv] = f(t)
                    elif isinstance(hv, Buf):
                        r = f(t)
                        sub_[hv.arr] = r.arr
                    progress = True
            if not progress and phase == 1:
                progress = self.solve_joint(pend, heads, sol, sub_, hset, t, head, st, T0)
        # last resort: values overwritten or unknown
        for loc in list(pend):
            v0, hv = heads[loc]
            if isinstance(hv, T):
                u = unk("loop", hv.s if hv.s != "n" else "r")
                sol[loc] = (lambda u, v0: lambda n: v0 if n is ZERO else u)(u, v0)
                sub_[hv] = u
            elif isinstance(hv, Buf):
                a = mk("unk", ("loop", next(_cid)), "a")
                sol[loc] = (lambda a, hv: lambda n: Buf(hv.n, hv.dims, a, hv.owner))(a, hv)
                sub_[hv.arr] = a
            elif isinstance(hv, P):
                sol[loc] = (lambda hv: lambda n: hv)(P([(TRUE, ("u", "loop"))]))
            else:
                sol[loc] = lambda n: Opaque("loop")
        # trip count
        T_ = T0 if T0 is not None else self.trip(cond, sub_, t, sol, heads, self.allfacts(st))
        return sol, T_, T_ is not None

    def trip(self, cond, sub_, t, sol, heads, facts=()):
        c = subst(cond, dict(sub_)) if sub_ else cond
        if c is TRUE or c is FALSE and False:
            return None
        cs = conjuncts(c)
        main = None
        others = []
        for x in cs:
            T1 = self.trip1(x, t, facts)
            if T1 is not None and main is None:
                main = T1
            elif T1 is not None:
                main = fn("min", main, T1)
            else:
                others.append(x)
        if main is None:
            return None
        if others:
            if any(x.unk for x in others):
                return None
            body = lnot(land(*others))
            b = bv(ZERO, main, "s")
            return reduce_("first", b, ZERO, main, subst(body, {t: b}))
        return main

    def trip1(self, x, t, facts=()):
        if x.unk:
            return None
        if x.op == "le0":
            co = lin_coef(x.args[0], t)
            if co is None or co.op != "c" or t not in x.args[0].fv:
                return None
            k = cval(co)
            rest = sub(x.args[0], scale(k, t))
            if t in rest.fv or k <= 0:
                return None
            # k t + rest <= 0  ->  t <= -rest/k  -> T = floor(-rest/k)+1
            if k == 1:
                n = add(neg(rest), ONE)
            else:
                n = idiv(add(neg(rest), num(k)), num(k))
            return n if nonneg(n) or (facts and implies_nonneg(self.relevant(facts, n), n)) else fn("max", n, ZERO)
        if x.op == "not" and x.args[0].op == "eq0":
            d = x.args[0].args[0]
            s = solve_eq(d, t)
            if s is not None:
                return s
        return None

    def solve_scalar(self, v0, hv, ev, sub_, hset, t, heads, pend, head):
        if not isinstance(v0, T):
            return None
        e = subst(ev, dict(sub_)) if sub_ else ev
        if e is hv:
            return lambda n: v0
        ms = heads_in(e, hset) - {hv}
        d = self.delta(e, hv)
        if d is not None:
            if heads_in(d, hset):
                return None
            if d.unk:
                return None
            if t not in d.fv:
                return lambda n: add(v0, mul(n, d))
            return lambda n: add(v0, rsum(t, ZERO, n, d))
        if ms:
            return None
        if e.unk:
            return None
        # multiplicative
        q = self.factor(e, hv)
        if q is not None and hv not in syms_of(q):
            if t not in q.fv and not isinstance(q, bool):
                return lambda n: mul(v0, fn("pow", q, n))
            return lambda n: reduce_("prod", t, ZERO, n, q, v0)
        if e.op == "f" and e.args[0] in ("max", "min") and hv in e.args[1:]:
            o = [x for x in e.args[1:] if x is not hv]
            if len(o) == 1 and hv not in syms_of(o[0]):
                return lambda n: v0 if n is ZERO else reduce_("r" + e.args[0], t, ZERO, n, o[0], v0)
        if e.op == "ite" and hv not in syms_of(e.args[0]):
            cnd, a, b = e.args
            # conditional max/min
            for x, y, cc in ((a, b, cnd), (b, a, lnot(cnd))):
                if y is hv and x.op == "f" and x.args[0] in ("max", "min") and hv in x.args[1:]:
                    o = [z for z in x.args[1:] if z is not hv]
                    if len(o) == 1 and hv not in syms_of(o[0]):
                        body = ite(cc, o[0], v0)
                        return lambda n, x=x, body=body: v0 if n is ZERO else reduce_("r" + x.args[0], t, ZERO, n, body, v0)
                # last assignment / flag
                if y is hv and hv not in syms_of(x):
                    if t not in x.fv:
                        return lambda n, x=x, cc=cc: v0 if n is ZERO else ite(reduce_("any", t, ZERO, n, cc) if t in cc.fv else land(cc, lt(ZERO, n)), x, v0)
                    def f(n, x=x, cc=cc):
                        if n is ZERO:
                            return v0
                        l = reduce_("last", t, ZERO, n, cc)
                        return ite(le(ZERO, l), subst(x, {t: l}), v0)
                    return f
        if e.s == "b" and hv.s == "b":
            if e.op == "or" and hv in e.args:
                r = lor(*[x for x in e.args if x is not hv])
                if hv not in syms_of(r):
                    return lambda n: lor(v0, reduce_("any", t, ZERO, n, r))
            if e.op == "and" and hv in e.args:
                r = land(*[x for x in e.args if x is not hv])
                if hv not in syms_of(r):
                    return lambda n: land(v0, lnot(reduce_("any", t, ZERO, n, lnot(r))))
        if hv not in syms_of(e):
            # overwritten every iteration
            def f(n, e=e):
                if n is ZERO:
                    return v0
                last = subst(e, {t: sub(n, ONE)})
                return ite(lt(ZERO, n), last, v0)
            return f
        return None

    def delta(self, e, h):
        if e is h:
            return ZERO
        if e.op == "+":
            c, its = e.args
            for k, v in its:
                if k is h and v == 1:
                    r = sub(e, h)
                    if h in syms_of(r):
                        return None
                    return r
            # a nested ite carrying h
            for k, v in its:
                if v == 1 and h in syms_of(k):
                    d = self.delta(k, h)
                    if d is None:
                        return None
                    rest = sub(e, k)
                    if h in syms_of(rest):
                        return None
                    return add(d, rest)
            return None
        if e.op == "ite" and h not in syms_of(e.args[0]):
            a, b = self.delta(e.args[1], h), self.delta(e.args[2], h)
            if a is None or b is None:
                return None
            return ite(e.args[0], a, b)
        return None

    def factor(self, e, h):
        c, f = _factors(e)
        if f.get(h) == 1:
            return rdiv(e, h)
        return None

    def solve_ptr(self, v0, hv, ev, sub_, hset, t):
        if ev == hv:
            return lambda n: v0
        if isinstance(v0, P) and len(v0.alts) == 1 and len(ev.alts) == 1 and len(hv.alts) == 1:
            a, b, h = v0.alts[0][1], ev.alts[0][1], hv.alts[0][1]
        return None

    def solve_buf(self, v0, hv, ev, sub_, hset, t, head, st):
        if not isinstance(v0, Buf):
            return None
        A = hv.arr
        if ev.arr is A and ev.n is hv.n:
            return lambda n: v0
        if ev.dims != hv.dims or ev.n is not hv.n:
            return None
        if ev.arr.op == "unk" or ev.arr.unk:
            return None
        dims = hv.dims
        vs = tuple(bv(ZERO, d, "v") for d in dims)
        F = sel(ev.arr, *vs)
        if sub_:
            F = subst(F, dict(sub_))
        others = heads_in(F, hset) - {A}
        if F.unk or others:
            F = prune(F)
            others = heads_in(F, hset) - {A}
        if others:
            return None
        old = sel(A, *vs)
        if F is old:
            return lambda n: v0
        if any(r != vs for r in reads_of(F, A)):
            F = own_reads(F, A, vs, frozenset(), {})
        base = self.base_arr(v0, dims)
        rd = reads_of(F, A)
        H = sym("cell!%d" % next(_cid), "r")
        if all(i == vs for i in rd):
            # accumulation form
            F2 = subst(F, {old: H})
            d = self.delta(F2, H)
            if d is not None:
                if d.unk:
                    return None

                def f(n):
                    body = add(sel(base, *vs), rsum(t, ZERO, n, d))
                    return Buf(v0.n, dims, lam(vs, body), v0.owner)
                return f
        if "escapes" in rd:
            return None
        leaves = []
        self.guarded(F, TRUE, leaves)
        upd = [(g, x) for g, x in leaves if x is not old]
        if len(upd) > 1 and F.op == "ite" and F.args[2] is old and A not in syms_of(F.args[0]) and A not in syms_of(F.args[1]) and t in F.args[0].fv and self.solve_guard(F.args[0], t, dims, vs) is not None:
            upd = [(F.args[0], F.args[1])]              # one store: its cases need no separation
        rng = RANGE.get(t)
        Tn = rng[1] if rng else None
        sols = []
        for g, x in upd:
            s = self.solve_guard(g, t, dims, vs) if t in g.fv else None
            if s is not None:
                tt, gg = s
                sols.append(["solved", gg, subst(x, {t: tt}), tt])
                continue
            g2, x2 = subst(g, {old: H}), subst(x, {old: H})
            if A in syms_of(g2) or A in syms_of(x2):
                return None
            if t not in g.fv and t not in x.fv and H not in syms_of(x2):
                sols.append(["const", g2, x2, None])
                continue
            if t not in g.fv and H not in syms_of(x2):
                sols.append(["last", g2, x2, None])
                continue
            if t not in g.fv and x2.op == "f" and x2.args[0] in ("max", "min") and H in x2.args[1:]:
                o = [z for z in x2.args[1:] if z is not H]
                if len(o) == 1 and H not in syms_of(o[0]):
                    sols.append(["red", g2, o[0], x2.args[0]])
                    continue
            return None
        kinds = {k for k, *_ in sols}
        if "solved" in kinds:
            if kinds != {"solved"}:
                return None
            tts = []
            for s_ in sols:
                if s_[3] not in tts:
                    tts.append(s_[3])

            def inr(tt):
                return [le(ZERO, tt)] + ([lt(tt, Tn)] if Tn is not None else [])

            if len(tts) > 1:
                # different iterations may write the same cell: need disjoint guards
                for i in range(len(sols)):
                    for j in range(i):
                        if sols[i][3] is not sols[j][3]:
                            cs = list(conjuncts(land(sols[i][1], sols[j][1], *inr(sols[i][3]), *inr(sols[j][3]))))
                            if not contradictory(cs):
                                return None
            # values read elsewhere in the array must not have been overwritten before
            for s_ in sols:
                m = {}
                for r in reads_of(s_[2], A) | reads_of(s_[1], A):
                    if r == "escapes":
                        return None
                    if r == vs:
                        continue
                    known = list(conjuncts(land(s_[1], *inr(s_[3]))))
                    for k2 in sols:
                        wt = subst(k2[3], dict(zip(vs, r)))
                        d = sub(wt, s_[3])
                        if not (implies_nonneg(known, d) or implies_nonneg(known, sub(num(-1), wt)) or (Tn is not None and implies_nonneg(known, sub(wt, Tn)))
                                or contradictory(known + list(conjuncts(subst(k2[1], dict(zip(vs, r))))))):
                            return None
                # every surviving read of A denotes the content before the loop
        def f(n):
            oldv = sel(base, *vs)
            r = oldv
            for k, g, x, tt in reversed(sols):
                g, x = subst(g, {H: oldv}), subst(x, {H: oldv})
                if A in syms_of(g) or A in syms_of(x):
                    g, x = subst(g, {A: base}), subst(x, {A: base})
                if k == "const":
                    r = ite(land(lt(ZERO, n), g), x, r)
                elif k == "last":
                    r = ite(land(lt(ZERO, n), g), subst(x, {t: sub(n, ONE)}), r)
                elif k == "red":
                    r = ite(g, reduce_("r" + tt, t, ZERO, n, x, oldv), r)
                else:
                    r = ite(land(g, le(ZERO, tt), lt(tt, n)), x, r)
            return Buf(v0.n, dims, lam(vs, r), v0.owner)
        return f

    def solve_joint(self, pend, heads, sol, sub_, hset, t, head, st, T0):
        """arrays updated together: each iteration writes its own cell of every array and reads the
        others only at cells no earlier iteration wrote, so those reads see the initial content"""
        info = {}
        for loc in pend:
            v0, hv = heads[loc]
            ev = pend[loc]
            if not (isinstance(hv, Buf) and isinstance(ev, Buf) and isinstance(v0, Buf)) or ev.dims != hv.dims or ev.n is not hv.n or ev.arr.unk:
                continue
            vs = tuple(bv(ZERO, d, "v") for d in hv.dims)
            F = sel(ev.arr, *vs)
            if sub_:
                F = subst(F, dict(sub_))
            old = sel(hv.arr, *vs)
            leaves = []
            self.guarded(F, TRUE, leaves)
            w = []
            for g, x in leaves:
                if x is old:
                    continue
                s = self.solve_guard(g, t, hv.dims, vs) if t in g.fv and not heads_in(g, hset) else None
                if s is None:
                    w = None
                    break
                w.append((s[0], s[1], g, x))
            if w is not None:
                info[loc] = (vs, w, hv, v0)
        if len(info) < 2:
            return False
        byarr = {i[2].arr: i for i in info.values()}
        done = []
        for loc, (vs, w, hv, v0) in info.items():
            rep = {}
            ok = True
            for _, _, g, x in w:
                known = list(conjuncts(g)) + [le(ZERO, t)] + ([lt(t, T0)] if T0 is not None else [])
                for A2 in heads_in(x, hset) - {hv.arr}:
                    o = byarr.get(A2)
                    if o is None:
                        ok = False
                        break
                    for r in reads_of(x, A2):
                        if r == "escapes":
                            ok = False
                            break
                        for tt2, gg2, _, _ in o[1]:
                            wt = subst(tt2, dict(zip(o[0], r)))
                            d = sub(wt, t)
                            if not (implies_nonneg(known, d) or implies_nonneg(known, sub(num(-1), wt)) or (T0 is not None and implies_nonneg(known, sub(wt, T0)))
                                    or contradictory(known + list(conjuncts(subst(gg2, dict(zip(o[0], r))))))):
                                ok = False
                    rep[A2] = self.base_arr(o[3], o[2].dims)
                if not ok:
                    break
            if ok and rep:
                f = self.solve_buf(v0, hv, pend[loc], dict(sub_, **{}) | rep, hset, t, head, st)
                if f is not None:
                    done.append((loc, hv, f))
        for loc, hv, f in done:
            sol[loc] = f
            del pend[loc]
            sub_[hv.arr] = f(t).arr
        return bool(done)

    def base_arr(self, v0, dims):
        if v0.dims is None:
            return self.as_rank(v0, len(dims))
        if v0.dims == dims or len(v0.dims) == len(dims) == 1 or v0.dims[1:] == dims[1:]:
            return v0.arr
        return self.relayout(v0, dims).arr

    def disjoint(self, a, b):
        return False

    def guarded(self, F, g, out):
        if F.op == "ite":
            self.guarded(F.args[1], land(g, F.args[0]), out)
            self.guarded(F.args[2], land(g, lnot(F.args[0])), out)
        elif g is not FALSE:
            out.append((g, F))

    def solve_guard(self, g, t, dims, vs):
        """unique iteration t writing the generic cell; returns (t as a term, residual guard)"""
        cs = conjuncts(g)
        for c in cs:
            if c.op == "eq0" and t in c.fv:
                s = solve_eq(c.args[0], t)
                if s is not None:
                    rest = land(*[subst(d, {t: s}) for d in cs if d is not c])
                    return s, rest
        for c in cs:
            if c.op == "eq0" and t in c.fv:
                # a*t + r == 0 with symbolic/constant a
                co = lin_coef(c.args[0], t)
                if co is not None and co is not ZERO and t not in co.fv:
                    r = sub(c.args[0], mul(co, t))
                    if t in r.fv:
                        continue
                    if co.op == "c" and cval(co) < 0:
                        co, r = neg(co), neg(r)
                    if nonneg(sub(co, ONE)):
                        s = idiv(neg(r), co)
                        rest = land(eq(imod(neg(r), co), ZERO), *[subst(d, {t: s}) for d in cs if d is not c])
                        return s, rest
        r = solve_split(cs, t)
        if r is not None:
            return r
        # block form: lo + w*t <= x < lo + w*t + w
        lows = [c for c in cs if c.op == "le0" and t in c.fv]
        for c1 in lows:
            k1 = lin_coef(c1.args[0], t)
            if k1 is None or k1.op == "c" and cval(k1) <= 0:
                continue
            # c1: w*t + r <= 0  (i.e. x - lo >= w*t)
            r1 = sub(c1.args[0], mul(k1, t))
            if t in r1.fv:
                continue
            for c2 in lows:
                k2 = lin_coef(c2.args[0], t)
                if k2 is None or k2 is not neg(k1):
                    continue
                r2 = sub(c2.args[0], mul(k2, t))
                # -w t + r2 <= 0 ; r2 = x - lo - w + 1
                if add(r1, r2) is add(neg(k1), ONE) :
                    s = idiv(neg(r1), k1)
                    rest = land(le(ZERO, neg(r1)), *[subst(d, {t: s}) for d in cs if d is not c1 and d is not c2])
                    return s, rest
        return None

    # -- exits
    def regular_exit(self, st, mod, sol, t, T_, bs, rets, fr, heads, pre, c2):
        # early exits (break / return inside the loop): first iteration taking one
        ex = [(b.pc, b, None, "b") for b in bs] + [(r[0], r[1], r[2], "r") for r in rets]
        out = st.fork()
        for loc in mod:
            self.set_loc(out, loc, sol[loc](T_))
        if self.name_arrays and not self.inloop and not self.loopctx:
            self.name_all(out, mod)
        if not ex:
            out.facts = st.facts
            out.pc = st.pc
            return out
        allc = lor(*[pc for pc, *_ in ex])
        # conditions under which iteration t leaves early
        first = self.simp_first(t, T_, allc)
        found = lt(first, T_)
        m = {t: first}
        res = out.fork()
        res.pc = land(st.pc, lnot(found))
        res.facts = st.facts | frozenset(conjuncts(lnot(found)))
        normal = res
        brk_states = []
        for pc, s2, v, kind in ex:
            s3 = self.subst_state(s2, m)
            s3.pc = land(st.pc, found, subst(pc, m)) if len(ex) > 1 else land(st.pc, found)
            s3.facts = st.facts | frozenset([found])
            if kind == "r":
                fr.rets.append((s3.pc, s3, self.subst_val(v, m) if v is not None else None))
            else:
                brk_states.append(s3)
        acc = normal
        for b in brk_states:
            acc = self.join(self.discr(b.pc, acc.pc), b, acc)
        if brk_states and len(brk_states) == len(ex):
            acc.pc = st.pc
            acc.facts = st.facts
        return acc

    name_arrays = False

    def name_all(self, st, mod):
        """large contents computed by a finished loop get a name (a definition), so that later contents
        refer to it instead of repeating it"""
        for loc in mod:
            v = self.get_loc(st, loc)
            if not isinstance(v, Buf) or v.dims is None or v.arr.op != "lam" or v.arr.unk:
                continue
            vs = tuple(bv(ZERO, d, "v") for d in v.dims)
            a = name_of(subst(sel(v.arr, *vs), dict(zip(vs, index_syms(len(vs))))), len(vs))
            if a is not None:
                self.set_loc(st, loc, Buf(v.n, v.dims, a, v.owner))

    def simp_first(self, t, T_, cond):
        b = bv(ZERO, T_, "s")
        return reduce_("first", b, ZERO, T_, subst(cond, {t: b}))

    def subst_val(self, v, m):
        if isinstance(v, T):
            return subst(v, m)
        if isinstance(v, P):
            return P([(subst(c, m), (tg[0], tg[1], subst(tg[2], m)) if tg and tg[0] == "b" else (tg[0], tg[1], tuple(subst(x, m) if isinstance(x, T) else x for x in tg[2])) if tg and tg[0] == "l" else tg) for c, tg in v.alts])
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.subst_val(x, m) if not isinstance(x, str) else x for k, x in v.f.items()})
        if isinstance(v, Buf):
            return Buf(subst(v.n, m), tuple(subst(d, m) for d in v.dims) if v.dims else v.dims, subst(v.arr, m), v.owner)
        if isinstance(v, Seq):
            return Seq(subst(v.n, m), v.name, v.mk, tuple((subst(i, m) if isinstance(i, T) else i, self.subst_val(x, m)) for i, x in v.items))
        return v

    def subst_state(self, s, m):
        r = s.fork()
        for k, v in r.cells.items():
            r.cells[k] = self.subst_val(v, m)
        return r

    def irregular_exit(self, st, mod, heads, head, h2, c2, pre2, end2, bs2, rets2, fr, line):
        """no closed form: state after the loop is an exit state of an arbitrary iteration"""
        outs = []
        for r in rets2:
            fr.rets.append((land(st.pc, r[0], sym("exit!%d" % next(_cid), "b")), r[1], r[2]))
        for b in bs2:
            outs.append(b)
        if c2 is not TRUE:
            outs.append(pre2)
        self.incomplete.append("irregular loop at line %d" % line)
        if not outs:
            return None
        acc = outs[-1].fork()
        for o in reversed(outs[:-1]):
            acc = self.join(sym("exit!%d" % next(_cid), "b"), o, acc)
        acc.pc = st.pc
        acc.facts = st.facts & acc.facts
        return acc


def implies_nonneg(known, d, depth=0):
    """d >= 0 provable from the linear facts in known"""
    if nonneg(d):
        return True
    key = (frozenset(known), d, depth, NONNEG_SYMS.ver, POS_SYMS.ver)
    r = _IMPL.get(key)
    if r is None:
        if len(_IMPL) > 200000:
            _IMPL.clear()
        r = _IMPL[key] = _implies_nonneg(known, d, depth)
    return r


_IMPL = {}
_ATOMS = {}


def _atoms(t):
    """symbols and index variables of a term"""
    r = _ATOMS.get(t)
    if r is None:
        if len(_ATOMS) > 200000:
            _ATOMS.clear()
        r = _ATOMS[t] = syms_of(t) | frozenset(t.fv)
    return r


def _implies_nonneg(known, d, depth):
    ls = [c.args[0] for c in known if c.op == "le0"]
    ls += [c.args[0] for c in known if c.op == "eq0"] + [neg(c.args[0]) for c in known if c.op == "eq0"]
    if depth == 0:
        # facts about other things than d speaks of cannot help
        at = [(g, _atoms(g)) for g in ls]
        reach = set(_atoms(d))
        rel = []
        more = True
        while more:
            more = False
            for x in at:
                if not reach.isdisjoint(x[1]):
                    rel.append(x[0])
                    reach |= x[1]
                    at.remove(x)
                    more = True
                    break
        known = [c for c in known if c.op in ("le0", "eq0") and (c.args[0] in rel or neg(c.args[0]) in rel)]
        ls = rel
    for g in ls:
        for k in (1, 2):
            if nonneg(add(d, scale(k, g))):
                return True
    for i, g in enumerate(ls):
        for h in ls[:i]:
            if nonneg(add(d, g, h)):
                return True
    # facts scaled by a size: eliminate the symbol of the fact from d
    if depth < 3:
        seen = set()
        for g in ls:
            c, its = _lin(g)
            for k, v in its.items():
                if k.op in ("v", "bv", "idiv") and k not in seen:
                    co = lin_coef_any(d, k)
                    if co is None or co is ZERO:
                        continue
                    m = rdiv(scale(Fraction(-1, 1) / v, co), ONE)
                    if m.op == "c":
                        if cval(m) <= 0:
                            continue
                    elif not nonneg(m):
                        continue
                    d2 = add(d, mul(m, g))
                    if nonneg(d2) or implies_nonneg([x for x in known if x.args[0] is not g], d2, depth + 1):
                        return True
    return False


def lin_coef_any(t, b):
    """coefficient of atom b in the polynomial t (None if not linear in b)"""
    c, d = _lin(t)
    co = ZERO
    for k, v in d.items():
        cc, f = _factors(k)
        e = f.get(b, 0)
        if e == 1:
            g = dict(f)
            del g[b]
            co = add(co, _mkmono(v * cc, g))
        elif e:
            return None
    return co


def contradictory(cs):
    """the linear facts cs cannot all hold"""
    if any(c is FALSE for c in cs):
        return True
    for c in cs:
        if lnot(c) in cs:
            return True
        if c.op == "le0":
            rest = [x for x in cs if x is not c]
            if implies_nonneg(rest, sub(c.args[0], ONE)):
                return True
        if c.op == "eq0" and c.args[0].op == "imod" and c.args[0].args[1].op == "c":
            a, k = c.args[0].args
            for x in cs:
                if x is not c and x.op == "eq0" and x.args[0].op == "imod" and x.args[0].args[1] is k:
                    d = sub(a, x.args[0].args[0])
                    if d.op == "c" and int(cval(d)) % int(cval(k)) != 0:
                        return True
        if c.op == "eq0" and c.args[0].s != "r":
            rest = [x for x in cs if x is not c]
            if implies_nonneg(rest, sub(c.args[0], ONE)) or implies_nonneg(rest, sub(neg(c.args[0]), ONE)):
                return True
    return False


def implied(c, x):
    return lor(lnot(c), x)


_symmemo = {}


def syms_of(t):
    """all leaf symbols ('v','av') in t"""
    r = _symmemo.get(t)
    if r is not None:
        return r
    if t.op in ("v", "av"):
        r = frozenset([t])
    else:
        s = set()
        for a in subterms(t.args):
            s |= syms_of(a)
        r = frozenset(s)
    _symmemo[t] = r
    return r


def subterms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from subterms(a)


def own_reads(F, A, vs, known, memo):
    """rewrite reads A[i] to A[vs] where the enclosing guards make i == vs"""
    if A not in syms_of(F):
        return F
    k = (F, known)
    r = memo.get(k)
    if r is not None:
        return r
    if F.op == "ite":
        c, x, y = F.args
        kc = known | frozenset(conjuncts(c))
        kn = known | frozenset(conjuncts(lnot(c)))
        r = ite(c, own_reads(x, A, vs, kc, memo), own_reads(y, A, vs, kn, memo))
    elif F.op == "sel" and F.args[0] is A and F.args[1] != vs and all(i is v or eq(i, v) in known for i, v in zip(F.args[1], vs)):
        r = sel(A, *vs)
    elif F.op == "+" or F.op == "*" or F.op == "f" or F.op == "/":
        m = {}
        for rd in reads_of(F, A):
            if rd != "escapes" and rd != vs and all(i is v or eq(i, v) in known for i, v in zip(rd, vs)):
                m[mk("sel", (A, rd), sel(A, *vs).s)] = sel(A, *vs)
        r = subst_terms(F, m) if m else F
    else:
        r = F
    memo[k] = r
    return r


def subst_terms(F, m):
    """replace whole subterms"""
    if F in m:
        return m[F]
    if not F.args or F.op in ("c", "v", "av", "bv", "unk"):
        return F

    def f(a):
        if isinstance(a, T):
            return subst_terms(a, m)
        if isinstance(a, tuple):
            return tuple(f(x) for x in a)
        return a

    na = tuple(f(a) for a in F.args)
    return F if na == F.args else rebuild(F, na)


def heads_in(t, hset):
    return syms_of(t) & hset


def reads_of(t, A, out=None, seen=None):
    """index tuples at which array A is read in t"""
    if out is None:
        out, seen = set(), set()
    if t in seen or A not in syms_of(t):
        return out
    seen.add(t)
    if t.op == "sel" and t.args[0] is A:
        out.add(t.args[1])
        for i in t.args[1]:
            reads_of(i, A, out, seen)
        return out
    if t is A:
        out.add("escapes")
        return out
    for a in subterms(t.args):
        reads_of(a, A, out, seen)
    return out
