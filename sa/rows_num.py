"""Difference quotients, Taylor approximations and iteration schemes of a function the caller supplies."""
from fractions import Fraction
from .terms import *
from .terms import _lin

CLS = "MLPPNumericalAnalysis::"
EPS = {"float": Fraction(1, 2**23), "double": Fraction(1, 2**52)}
QUOTIENTS = {"num_diffr": 1, "num_diff_2r": 2, "num_diff_3r": 3, "num_diffv": 1, "num_diff_2v": 2, "num_diff_3v": 3}


def step(t):
    """the smallest constant displacement between the arguments the supplied function is evaluated at"""
    out = set()
    seen = set()

    def const(x):
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op == "+":
            c = abs(Fraction(x.args[0]))
            if 0 < c < 1:
                out.add(c)
        kids(x, const)

    def kids(x, f):
        def go(a):
            if isinstance(a, T):
                f(a)
            elif isinstance(a, tuple):
                for y in a:
                    go(y)

        go(x.args)

    visited = set()

    def walk(x):
        if x in visited:
            return
        visited.add(x)
        if x.op == "f" and x.args[0] == "u:A":
            kids(x, const)
        kids(x, walk)

    walk(t)
    return min(out) if out else None


def rows(h):
    """h: quotient function -> step found in its current source"""
    C = CLS
    q = lambda f: "(%s/%s)" % (h[f].numerator, h[f].denominator)
    r = []
    f = "u_A"
    d1 = lambda x: "((u_A((%s)+%s)-u_A(%s))/%s)" % (x, q("num_diffr"), x, q("num_diffr"))
    d2 = lambda x: "((u_A((%s)+2*%s)-2*u_A((%s)+%s)+u_A(%s))/(%s*%s))" % (x, q("num_diff_2r"), x, q("num_diff_2r"), x, q("num_diff_2r"), q("num_diff_2r"))
    e = q("num_diff_3r")
    d3 = lambda x: "((u_A((%s)+3*%s)-3*u_A((%s)+2*%s)+3*u_A((%s)+%s)-u_A(%s))/(%s*%s*%s))" % (x, e, x, e, x, e, x, e, e, e)
    r.append(C + "num_diffr(2) | | ret = " + d1("B"))
    r.append(C + "num_diff_2r(2) | | ret = " + d2("B"))
    r.append(C + "num_diff_3r(2) | | ret = " + d3("B"))
    t0, t1 = "u_A(B)", "%s*(C-B)" % d1("B")
    t2, t3 = "%s*(C-B)*(C-B)/2" % d2("B"), "%s*(C-B)*(C-B)*(C-B)/6" % d3("B")
    r.append(C + "constant_approximationr(2) | | ret = " + t0)
    r.append(C + "linear_approximationr(3) | | ret = %s+%s" % (t0, t1))
    r.append(C + "quadratic_approximationr(3) | | ret = %s+%s+%s" % (t0, t1, t2))
    r.append(C + "cubic_approximationr(3) | | ret = %s+%s+%s+%s" % (t0, t1, t2, t3))
    nw = lambda x: "(%s)-u_A(%s)/%s" % (x, x, d1(x))
    hl = lambda x: "(%s)-2*u_A(%s)*%s/(2*%s*%s-u_A(%s)*%s)" % (x, x, d1(x), d1(x), d1(x), x, d2(x))
    for k in range(3):
        for nm, g in (("newton_raphson_method", nw), ("halley_method", hl)):
            L, x = "", "B"
            for i in range(k):
                L += "let x%d=%s; " % (i + 1, g(x))
                x = "x%d" % (i + 1)
            r.append(C + "%s(3) | !C=%d | %s ret = %s" % (nm, k, L, x))
    r.append(C + "growth_method(3) | | ret = A*exp(B*C)")
    w = lambda a, b, c: "(u_A({a})*u_A({b})/((u_A({c})-u_A({a}))*(u_A({c})-u_A({b})))*({c}))".format(a=a, b=b, c=c)
    iq = lambda a, b, c: w(b, c, a) + "+" + w(a, c, b) + "+" + w(a, b, c)
    r.append(C + "inv_quadratic_interpolation(3) | !nB=3,!C=1 | ret = " + iq("B[0]", "B[1]", "B[2]"))
    r.append(C + "inv_quadratic_interpolation(3) | !nB=3,!C=2 | let y=%s; ret = %s" % (iq("B[0]", "B[1]", "B[2]"), iq("B[1]", "B[2]", "y")))

    def at(*ax):
        return "u_A(vec(q,nB,B[q]%s))" % "".join("+(%s if q==%s else 0)" % (s, a) for s, a in ax)

    def pd(*ax):
        s = q(("num_diffv", "num_diff_2v", "num_diff_3v")[len(ax) - 1])
        out = []
        for m in range(2 ** len(ax)):
            sel = [a for i, a in enumerate(ax) if m >> i & 1]
            out.append(("-" if (len(ax) - len(sel)) % 2 else "+") + at(*[(s, a) for a in sel]))
        return "((0" + "".join(out) + ")/(" + "*".join([s] * len(ax)) + "))"

    ok = lambda v: "0<=%s,%s<nB" % (v, v)
    r.append(C + "num_diffv(3) | %s | ret = %s" % (ok("C"), pd("C")))
    r.append(C + "num_diff_2v(4) | %s,%s | ret = %s" % (ok("C"), ok("D"), pd("C", "D")))
    r.append(C + "num_diff_3v(5) | %s,%s,%s | ret = %s" % (ok("C"), ok("D"), ok("E"), pd("C", "D", "E")))
    r.append(C + "jacobian(2) | | ret[nB](i) = " + pd("i"))
    r.append(C + "hessian(2) | | ret[nB,nB](i,j) = " + pd("i", "j"))
    r.append(C + "third_order_tensor(2) | | ret[nB,nB,nB](i,j,k) = " + pd("i", "j", "k"))
    r.append(C + "third_order_tensorvt(2) | !nB=2 | ret0[2,2](i,j) = %s; ret1[2,2](i,j) = %s; n_ret = 2" % (pd("0", "i", "j"), pd("1", "i", "j")))
    r.append(C + "third_order_tensorvt(2) | !nB=3 | ret2[3,3](i,j) = %s; n_ret = 3" % pd("2", "i", "j"))
    r.append(C + "eulerian_methodr(5) | | ret = C+sum(k,0,max(0,trunc((D-B)/E)),E*u_A(B+k*E))")
    r.append(C + "laplacian(2) | | ret = sum(i,0,nB,%s)" % pd("i", "i"))
    t0 = at()
    t1 = "sum(i,0,nB,%s*(C[i]-B[i]))" % pd("i")
    t2 = "sum(i,0,nB,sum(j,0,nB,(C[i]-B[i])*%s*(C[j]-B[j])))/2" % pd("i", "j")
    t3 = "sum(i,0,nB,sum(j,0,nB,sum(k,0,nB,(C[i]-B[i])*(C[j]-B[j])*(C[k]-B[k])*%s)))/6" % pd("i", "j", "k")
    r.append(C + "constant_approximationv(2) | | ret = " + t0)
    r.append(C + "linear_approximationv(3) | nB==nC | ret = %s+%s" % (t0, t1))
    r.append(C + "quadratic_approximationv(3) | nB==nC | ret = %s+%s+%s" % (t0, t1, t2))
    r.append(C + "cubic_approximationv(3) | nB==nC | ret = %s+%s+%s+%s" % (t0, t1, t2, t3))
    return r


def steps(prog):
    """(function -> step, messages about steps the real type cannot carry)"""
    from .analyse import accepted

    h, bad = {}, []
    for nm, k in QUOTIENTS.items():
        fs = [f for (n, _), f in prog.fn.items() if n == CLS + nm]
        if len(fs) != 1:
            bad.append((nm, None, "difference quotient %s is not there" % nm))
            continue
        S = accepted(prog, fs[0], None, receiver="named")
        s = step(S.ret) if isinstance(S.ret, T) else None
        if s is None:
            bad.append((nm, fs[0], "no step found between the arguments the supplied function is evaluated at"))
            continue
        h[nm] = s
        if s**k <= EPS[fs[0]["ret"]]:
            bad.append((nm, fs[0], "step %g is lost in %s: its power %d is below the precision of the type" % (float(s), fs[0]["ret"], k)))
    return h, bad
