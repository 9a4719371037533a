"""Abstract inputs for the container types and readers for abstract results."""
from .terms import *
from .engine import *
from .engine import _cid
from . import ir, algebra

VEC, MAT, TEN = "MLPPVector", "MLPPMatrix", "MLPPTensor3"


def dim(name):
    s = sym(name, "i")
    NONNEG_SYMS.add(s)
    POS_SYMS.add(s)     # non-empty operands; empty ones are analysed with the constant 0
    return s


class Run:
    def __init__(self, prog, intr=None, opaque=None, **kw):
        self.eng = Engine(prog, intr, opaque=opaque, **kw)
        self.prog = prog
        self.st = State({}, frozenset(), TRUE)
        self.fr = Frame(None)
        self.dims = {}

    def d(self, name):
        if isinstance(name, T):
            return name
        if isinstance(name, int):
            return num(name)
        s = dim(name)
        self.dims[name] = s
        return s

    def vec(self, name, n):
        n = self.d(n)
        b = self.eng.new_cell(self.st, Buf(n, (n,), av(name, 1)))
        o = self.eng.new_cell(self.st, self.eng.raw_struct(self.st, VEC).set("_size", n).set("_data", ptr(("b", b, ZERO))))
        self.st.cells[b].owner = (o, ())
        return ptr(("l", o, ()))

    def mat(self, name, h, w):
        h, w = self.d(h), self.d(w)
        b = self.eng.new_cell(self.st, Buf(mul(h, w), (h, w), av(name, 2)))
        o = self.eng.new_cell(self.st, self.eng.raw_struct(self.st, MAT).set("_size", Struct("Vector2i", {"x": w, "y": h})).set("_data", ptr(("b", b, ZERO))))
        self.st.cells[b].owner = (o, ())
        return ptr(("l", o, ()))

    def ten(self, name, z, h, w):
        z, h, w = self.d(z), self.d(h), self.d(w)
        b = self.eng.new_cell(self.st, Buf(mul(z, mul(h, w)), (z, h, w), av(name, 3)))
        o = self.eng.new_cell(self.st, self.eng.raw_struct(self.st, TEN).set("_size", Struct("Vector3i", {"x": w, "y": h, "z": z})).set("_data", ptr(("b", b, ZERO))))
        self.st.cells[b].owner = (o, ())
        return ptr(("l", o, ()))

    def seq_of(self, name, n, cls):
        """container of containers: element k has its own size and content"""
        n = self.d(n)
        cache = {}
        R = self

        def mk_(eng, st, idx):
            h = cache.get(idx)
            if h is None:
                if cls == VEC:
                    sz = mk("f", ("i:size", sym(name, "i"), idx), "i")
                    q = bv(ZERO, sz, "q")
                    dims, arr, size = (sz,), lam((q,), sel(av(name, 2), idx, q)), sz
                elif cls == MAT:
                    hh, ww = mk("f", ("i:sizey", sym(name, "i"), idx), "i"), mk("f", ("i:sizex", sym(name, "i"), idx), "i")
                    q, r = bv(ZERO, hh, "q"), bv(ZERO, ww, "q")
                    dims, arr, size = (hh, ww), lam((q, r), sel(av(name, 3), idx, q, r)), Struct("Vector2i", {"x": ww, "y": hh})
                else:
                    return Opaque("seq elem")
                total = ONE
                for d in dims:
                    total = mul(total, d)
                b = next(_cid)
                o = next(_cid)
                ob = eng.raw_struct(st, cls).set("_size", size).set("_data", ptr(("b", b, ZERO)))
                h = cache[idx] = (b, o, Buf(total, dims, arr, (o, ())), ob)
            b, o, bufv, ob = h
            if o not in st.cells:
                st.cells[b] = bufv
                st.cells[o] = ob
            return ptr(("l", o, ()))

        return Seq(n, name, mk_)

    def new(self, cls):
        return self.eng.new_object(self.st, cls, self.fr)

    def call(self, fd, this, vals, null_ok=False):
        """run function fd; vals are engine values"""
        f = Frame(fd)
        f.this = this
        for p, v in zip(fd["ps"], vals):
            if is_ref(p["t"]) and isinstance(v, P) and not is_Ref(p["t"]) and not deref_t(p["t"]).endswith("*"):
                f.env[p["id"]] = self.eng.new_cell(self.st, Struct("$ref", {"p": v}))
            elif is_ref(p["t"]):
                c = self.eng.new_cell(self.st, v)
                f.env[p["id"]] = self.eng.new_cell(self.st, Struct("$ref", {"p": ptr(("l", c, ()))}))
            else:
                f.env[p["id"]] = self.eng.new_cell(self.st, v)
        for p in fd["ps"][len(vals):]:
            if "def" in p:
                f.env[p["id"]] = self.eng.new_cell(self.st, self.eng.rval(self.st, p["def"], self.fr))
        return self.eng.run(self.st, f)

    def obj(self, p):
        """(struct, buf) of a container pointer"""
        if not isinstance(p, P):
            return None, None
        alts = [(c, t) for c, t in p.alts if t is not None]
        if len(p.alts) != 1 or not alts or alts[0][1][0] != "l":
            return None, None
        o = self.eng.read(self.st, alts[0][1])
        if not isinstance(o, Struct) or "_data" not in o.f:
            return None, None
        dp = o.f["_data"]
        if isinstance(dp, P):
            bs = [(c, t) for c, t in dp.alts if t is not None and t[0] == "b"]
            if len(bs) >= 1:
                b = self.eng.buf(self.st, bs[-1][1][1])
                for c, t in reversed(bs[:-1]):
                    b2 = self.eng.buf(self.st, t[1])
                    b = self.eng.join_val(self.st, c, b2, b)
                if isinstance(b, Buf):
                    none = lor(*[c for c, t in dp.alts if t is None])
                    if none is not FALSE:
                        b = Buf(ite(none, ZERO, b.n), b.dims, b.arr, b.owner)
                return o, b
        return o, None

    def dims_of(self, o):
        s = o.f["_size"]
        if isinstance(s, T):
            return (s,)
        if s.cls == "Vector2i":
            return (s.f["y"], s.f["x"])
        return (s.f["z"], s.f["y"], s.f["x"])
