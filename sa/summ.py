"""Function summaries on symbolic operands of arbitrary size."""
import signal
from .model import *
from .terms import _lin, _factors

CONT = {VEC: 1, MAT: 2, TEN: 3}


def ptype(t):
    """pointee class of a Ref<..>/pointer/reference parameter type"""
    t = deref_t(t)
    if t.startswith("Ref<"):
        t = t[4:-1]
    return strip(t.rstrip("* ").strip())


class Out:
    """final content of one container: dims, allocated length, cell term over index variables"""

    __slots__ = ("dims", "n", "vs", "cell", "cls", "null")

    def __repr__(self):
        return "Out(%s alloc %s: %s)" % ([show(d) for d in self.dims], show(self.n) if self.n is not None else None, show(self.cell) if self.cell is not None else None)


class Summary:
    pass


class Shapes:
    """size symbols of the operands; `unify` merges symbols the function requires equal"""

    def __init__(self):
        self.rep = {}
        self.pins = {}      # operand or size name -> term it is fixed to

    def find(self, name):
        while name in self.rep:
            name = self.rep[name]
        return name

    def dim(self, name):
        n = self.find(name)
        return self.pins.get(n, n)

    def unify(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.rep[max(a, b, key=lambda x: (len(x), x))] = min(a, b, key=lambda x: (len(x), x))
        return True


def operand(R, sh, cls, name, t):
    if cls == VEC:
        return R.vec(name, sh.dim("n" + name))
    if cls == MAT:
        return R.mat(name, sh.dim("h" + name), sh.dim("w" + name))
    if cls == TEN:
        return R.ten(name, sh.dim("z" + name), sh.dim("h" + name), sh.dim("w" + name))
    if name in sh.pins:
        return sh.pins[name]
    if "(*)" in t:
        return Struct("$ufn", {"name": name})
    if is_real(cls):
        if t.rstrip().endswith("*"):
            n = R.d(sh.dim("n" + name))
            b = R.eng.new_cell(R.st, Buf(n, (n,), av(name, 1)))
            return ptr(("b", b, ZERO))
        return sym(name, "r")
    if is_int(cls) or cls in R.prog.enum:
        return sym(name, "i")
    if cls == "bool":
        return sym(name, "b")
    if cls in SIMPLE:
        return Struct(cls, {n: sym("%s.%s" % (name, n), s) for n, s in SIMPLE[cls]})
    e = R.eng.seq_type(cls)
    if e is not None:
        n = R.d(sh.dim("n" + name))
        if R.eng.is_scalar_elt(e):
            b = R.eng.new_cell(R.st, Buf(n, (n,), av(name, 1, "i" if is_int(e.split(",")[0]) else "r")))
            return Struct("$vec", {"n": n, "data": ptr(("b", b, ZERO))})
        if e.startswith("Ref<") and e[4:-1] in (VEC, MAT):
            return R.seq_of(name, sh.dim("n" + name), e[4:-1])
        return Seq(n, name)
    if cls in R.prog.rec:
        c = R.eng.new_cell(R.st, R.eng.raw_struct(R.st, cls))
        return ptr(("l", c, ())) if ("*" in t or "Ref<" in t or "&" in t) else R.st.cells[c]
    return Opaque(cls)


def model_obj(R, sh, cls, prefix, ops, depth=0):
    """an object of a model class in an arbitrary state: every field is a fresh operand named after it"""
    f = {}
    for x in R.eng.all_fields(cls):
        n, t = prefix + x["n"], strip(x["t"])
        v = None
        if is_Ref(t):
            k = t[4:-1].strip()
            if n in sh.pins:
                v = sh.pins[n]
            elif k in CONT:
                v = ops[n] = operand(R, sh, k, n, t)
            elif k in R.prog.rec and depth < 2 and k.startswith("MLPP"):
                v = model_obj(R, sh, k, n, ops, depth + 1)
        elif seq_models(R, t) and ("n" + n in sh.pins or "n" + n not in ops):
            # a network: a fixed number of layers, each an object of its own in an arbitrary state
            k = seq_models(R, t)
            cnt = cval(sh.pins.get("n" + n, ONE))
            v = Seq(num(cnt), n, None, tuple((num(i), model_obj(R, sh, k, "%s%d" % (n, i), ops, depth + 1)) for i in range(cnt)))
        elif is_real(t) or is_int(t) or t == "bool" or t in R.prog.enum or t in SIMPLE or R.eng.seq_type(t) is not None:
            v = operand(R, sh, t, n, t)
            ops["." + n] = v
        f[x["n"]] = v if v is not None else R.eng.default_value(R.st, x["t"], cls + "." + x["n"])
    c = R.eng.new_cell(R.st, Struct(cls, f))
    for x in R.eng.all_fields(cls):
        t = strip(x["t"])
        if is_real(t) or is_int(t) or t == "bool" or t in R.prog.enum or is_Ref(t) and t[4:-1].strip() in CONT:
            S_FIELDS.setdefault(id(ops), {})[prefix + x["n"]] = (c, x["n"])
    return ptr(("l", c, ()))


def seq_models(R, t):
    e = R.eng.seq_type(t)
    if e and e.startswith("Ref<"):
        k = e[4:-1].strip()
        if k in R.prog.rec and k.startswith("MLPP") and k not in CONT:
            return k
    return None


S_FIELDS = {}


def names(fd):
    """canonical operand names: receiver M, then A,B,C.. by position"""
    return list("ABCDEFGHIJKL")[: len(fd["ps"])]


def container_out(R, v):
    o, b = R.obj(v)
    if o is None or "_size" not in o.f or o.cls not in CONT:
        return None
    if not isinstance(o.f["_size"], (T, Struct)):
        return None
    r = Out()
    r.cls = o.cls
    r.dims = R.dims_of(o)
    r.vs = tuple(bv(ZERO, d, "q") for d in r.dims)
    r.n = b.n if b is not None else ZERO
    r.cell = sel(b.arr, *r.vs) if b is not None and b.dims is not None and len(b.dims) == len(r.dims) else None
    if b is not None and r.cell is None:
        b2 = R.eng.relayout(b, r.dims)
        r.cell = sel(b2.arr, *r.vs)
    return r


def run_once(prog, fd, sh, intr=None, opaque=None, alias=None, receiver=None, setup=None, own=False, unroll=0):
    R = Run(prog, intr, opaque)
    R.eng.name_arrays = receiver == "named"
    S = Summary()
    S.R, S.fd = R, fd
    this = None
    if receiver is not None or unroll:
        R.eng.unroll_max = unroll or 3
        R.eng.recurse_max = unroll or 1
    S.ops = {}
    S.fields = {}
    if fd.get("cls") and not fd.get("static"):
        if receiver is not None:
            S.ops = {}
            this = model_obj(R, sh, fd["cls"], "", S.ops)
            S.fields = S_FIELDS.pop(id(S.ops), {})
            S.fields0 = {k: v for k, v in S.ops.items() if k.startswith(".")}
        elif fd["cls"] in CONT:
            this = operand(R, sh, fd["cls"], "M", "*")
        else:
            this = R.new(fd["cls"])
        S.ops["M"] = this
    vals = []
    for nm, p in zip(names(fd), fd["ps"]):
        if alias and nm in alias:
            v = S.ops[alias[nm]]
        else:
            v = operand(R, sh, ptype(p["t"]), nm, p["t"])
        vals.append(v)
        S.ops[nm] = v
    if setup:
        setup(R, S)
    if own:
        R.eng.owning = True
        for c, v in list(R.st.cells.items()):
            if isinstance(v, Struct) and isinstance(v.f.get("_data"), P):
                if fd.get("ctor") and this is not None and this.alts[0][1][1] == c:
                    R.st.cells[c] = v.set("_data", P([(TRUE, ("u", "not set by the constructor"))]))
                    continue
                if own == "empty" and this is not None and this.alts[0][1][1] == c:
                    z = v.f["_size"]
                    R.st.cells[c] = v.set("_data", P([(TRUE, None)])).set("_size", Struct(z.cls, {k: ZERO for k in z.f}) if isinstance(z, Struct) else ZERO)
                    continue
                for _, tg in v.f["_data"].alts:
                    if tg and tg[0] == "b" and tg[1] not in R.eng.live:
                        R.eng.track(R.st, tg[1])
    S.this, S.vals = this, vals
    S.cells0 = dict(R.st.cells)
    S.ret = R.call(fd, this, vals)
    S.facts = R.st.facts
    S.eng = R.eng
    S.out = {}
    S.parts = {}
    for k, v in S.ops.items():
        if k in S.fields:
            v = field_now(S, k)
        c = container_out(R, v) if isinstance(v, P) else None
        if c is not None:
            S.out[k] = c
    if fd["ret"] != "void":
        c = container_out(R, S.ret) if isinstance(S.ret, P) else None
        if c is not None:
            S.out["ret"] = c
        else:
            ret_parts(R, S, S.ret, "ret")
    return S


def ret_parts(R, S, v, name, depth=0):
    """members of a returned aggregate: elements of a list of containers are ret0, ret1, .., its length n_ret;
    fields of a structure are ret_<field>"""
    if isinstance(v, P) and len(v.alts) == 1 and v.alts[0][1] and v.alts[0][1][0] == "l":
        c = container_out(R, v)
        if c is not None:
            S.out[name] = c
            return
        v = R.eng.read(R.st, v.alts[0][1])
    if isinstance(v, T):
        S.parts[name] = v
    if isinstance(v, Seq):
        S.parts["n_" + name] = v.n
        k = cval(v.n)
        if k is not None and 0 <= k <= 4:
            for i in range(int(k)):
                ret_parts(R, S, R.eng.seq_get(R.st, v, num(i)), "%s%d" % (name, i), depth + 1)
    elif isinstance(v, Struct) and depth < 3 and not v.cls.startswith("$"):
        for k, x in v.f.items():
            ret_parts(R, S, x, "%s_%s" % (name, k), depth + 1)


def field_now(S, name):
    """current value of a field of the receiver"""
    c, f = S.fields[name]
    v = S.R.st.cells.get(c)
    return v.f.get(f) if isinstance(v, Struct) else None


def size_eqs(facts):
    out = []
    for f in facts:
        if f.op == "eq0":
            c, its = _lin(f.args[0])
            if c == 0 and len(its) == 2:
                (a, x), (b, y) = its.items()
                if a.op == "v" and b.op == "v" and x == -y and a in NONNEG_SYMS and b in NONNEG_SYMS:
                    out.append((a.args[0], b.args[0]))
    return out


class Timeout(Give):
    pass


class limit:
    """wall-clock guard for one analysis (an unfinished one is reported as not analysed)"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise Timeout("time limit")

        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def summarise(prog, fd, **kw):
    """summary under the operand shapes the function accepts"""
    sh = Shapes()
    first = None
    for _ in range(5):
        S = run_once(prog, fd, sh, **kw)
        if first is None:
            first = S
        ch = False
        for a, b in size_eqs(S.facts):
            ch |= sh.unify(a, b)
        if not ch:
            break
    S.first = first
    S.sh = sh
    return S
