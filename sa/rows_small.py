"""Operations whose definition recurses over the size of the matrix: stated for sizes up to a few rows,
where the recursion and the loops of the code unfold completely."""
from .rows_model import REG


def det(rows, cols, a):
    """Laplace expansion along the first row"""
    if not rows:
        return "1"
    if len(rows) == 1:
        return a(rows[0], cols[0])
    t = []
    for n, c in enumerate(cols):
        t.append("%s%s*(%s)" % ("-" if n % 2 else "+", a(rows[0], c), det(rows[1:], cols[:n] + cols[n + 1:], a)))
    return "0" + "".join(t)


def table(n, m, f):
    """entry (i,j) of an n by m table of expressions"""
    e = "0"
    for i in reversed(range(n)):
        for j in reversed(range(m)):
            e = "((%s) if i==%d and j==%d else %s)" % (f(i, j), i, j, e)
    return e


def cof(n, x, i, j):
    R = [r for r in range(n) if r != i]
    C = [c for c in range(n) if c != j]
    return "(%d)*(%s)" % (-1 if (i + j) % 2 else 1, det(R, C, x))


def rows(tier="quick"):
    r = []
    top = 4
    for P, nm, pre in (("M", "MLPPMatrix::", ""), ("A", "MLPPLinAlg::", "m")):
        a = lambda i, j, P=P: "%s[%d,%d]" % (P, i, j)
        for n in range(1, top + 1):
            R = list(range(n))
            sq = "!h%s=%d, !w%s=%d" % (P, n, P, n)
            D = det(R, R, a)
            if P == "M":
                if n < 4:
                    r.append("MLPPMatrix::det(1) | %s, !A=-1 | ret=%s" % (sq, D))
                r.append("MLPPMatrix::det(1) | %s, !A=%d | ret=%s" % (sq, n, D))
                if n < 4:
                    r.append("MLPPMatrix::detb(2) | !hA=%d, !wA=%d, !B=%d | ret=%s" % (n, n, n, det(R, R, lambda i, j: "A[%d,%d]" % (i, j))))
            else:
                r.append("MLPPLinAlg::detm(2) | %s, !B=%d | ret=%s" % (sq, n, D))
            if n > 1:
                for i in range(n):
                    for j in range(n):
                        if n > 3 and (i + j) % 3:
                            continue
                        c = "(k,l)=%s[k+(1 if k>=%d else 0),l+(1 if l>=%d else 0)]" % (P, i, j)
                        if P == "M":
                            r.append("MLPPMatrix::cofactor(3) | %s, !A=%d, !B=%d, !C=%d | ret[%d,%d]%s" % (sq, n, i, j, n - 1, n - 1, c))
                            if n < 4:
                                r.append("MLPPMatrix::cofactoro(4) | %s, !A=%d, !B=%d, !C=%d | D[%d,%d]%s" % (sq, n, i, j, n - 1, n - 1, c))
                        else:
                            r.append("MLPPLinAlg::cofactornm(4) | %s, !B=%d, !C=%d, !D=%d | ret[%d,%d]%s" % (sq, n, i, j, n - 1, n - 1, c))
            if n < 4 or tier != "quick":
                adj = table(n, n, lambda i, j: cof(n, a, j, i))
                inv = table(n, n, lambda i, j: "(%s)/(%s)" % (cof(n, a, j, i), D))
                for stem, e in (("adjoint", adj), ("inverse", inv)):
                    if P == "M":
                        r.append("MLPPMatrix::%s(0) | %s | ret[%d,%d](i,j)=%s" % (stem, sq, n, n, e))
                        r.append("MLPPMatrix::%so(1) | %s | A[%d,%d](i,j)=%s" % (stem, sq, n, n, e))
                    else:
                        r.append("MLPPLinAlg::%snm(1) | %s | ret[%d,%d](i,j)=%s" % (stem, sq, n, n, e))
                sol = "sum(k,0,%d,V[i,k]*%s[k])" % (n, "A" if P == "M" else "B")
                r.append("%ssolve(%d) | %s, !n%s=%d | let V(i,j)=%s; ret[%d](i)=%s" % (nm, 1 if P == "M" else 2, sq, "A" if P == "M" else "B", n, inv, n, sol))
        # power of a matrix
        for n in (1, 2, 3):
            R = list(range(n))
            sq = "!h%s=%d, !w%s=%d" % (P, n, P, n)
            if P == "M":
                for k in (0, 1, 2, 3):
                    let = "let P0(i,j)=1 if i==j else 0; " + "".join("let P%d(i,j)=sum(k,0,%d,P%d[i,k]*M[k,j]); " % (x + 1, n, x) for x in range(k))
                    r.append("MLPPMatrix::matrix_powern(1) | %s, !A=%d | %sret[%d,%d](i,j)=P%d[i,j]" % (sq, k, let, n, n, k))
    # pseudo inverse of a tall matrix
    for h, w in ((2, 1), (2, 2), (3, 2)):
        for P, call in (("M", "MLPPMatrix::pinverse(0)"), ("A", "MLPPLinAlg::pinversenm(1)")):
            g = lambda i, j: "G[%d,%d]" % (i, j)
            W = list(range(w))
            inv = table(w, w, lambda i, j: "(%s)/(%s)" % (cof(w, g, j, i), det(W, W, g)))
            r.append("%s | !h%s=%d, !w%s=%d | let G(i,j)=sum(k,0,%d,%s[k,i]*%s[k,j]); let V(i,j)=%s; ret[%d,%d](i,j)=sum(k,0,%d,V[i,k]*%s[j,k])" % (call, P, h, P, w, h, P, P, inv, w, h, w, P))
    # orthonormalised columns, QR
    for h, w in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3)):
        let = ""
        for c in range(w):
            let += "let p%d(i)=A[i,%d]%s; " % (c, c, "".join("-sum(k,0,%d,A[k,%d]*q%d[k])*q%d[i]" % (h, c, d, d) for d in range(c)))
            let += "let q%d(i)=p%d[i]/sqrt(sum(k,0,%d,p%d[k]*p%d[k])); " % (c, c, h, c, c)
        Q = "0"
        for c in reversed(range(w)):
            Q = "(q%d[i] if j==%d else %s)" % (c, c, Q)
        r.append("MLPPLinAlg::gram_schmidt_process(1) | !hA=%d, !wA=%d | %sret[%d,%d](i,j)=%s" % (h, w, let, h, w, Q))
        if h < 3:
            r.append("MLPPLinAlg::qrd(1) | !hA=%d, !wA=%d | %slet Q(i,j)=%s; ret_Q[%d,%d](i,j)=Q[i,j]; ret_R[%d,%d](i,j)=sum(k,0,%d,Q[k,i]*A[k,j])" % (h, w, let, Q, h, w, w, w, h))
    for n in (1, 2, 3):
        l = {}
        for j in range(n):
            for i in range(j, n):
                s = "".join("-(%s)*(%s)" % (l[i, k], l[j, k]) for k in range(j))
                l[i, j] = "sqrt(A[%d,%d]%s)" % (i, j, s) if i == j else "(A[%d,%d]%s)/(%s)" % (i, j, s, l[j, j])
        L = table(n, n, lambda i, j: l[i, j] if i >= j else "0")
        r.append("MLPPLinAlg::cholesky(1) | !hA=%d, !wA=%d | let L(i,j)=%s; ret_L[%d,%d](i,j)=L[i,j]; ret_Lt[%d,%d](i,j)=L[j,i]" % (n, n, L, n, n, n, n))
    for (h, w), (y, x) in (((1, 2), (2, 1)), ((2, 2), (2, 2)), ((2, 3), (3, 2)), ((3, 1), (2, 3))):
        r.append("MLPPLinAlg::kronecker_productnm(2) | !hA=%d, !wA=%d, !hB=%d, !wB=%d | ret[%d,%d](i,j)=A[i//%d,j//%d]*B[i%%%d,j%%%d]" % (h, w, y, x, h * y, w * x, y, x, y, x))
        for t in ("MLPPMatrix::kronecker_productn(1) | %s | ret", "MLPPMatrix::kronecker_product(1) | %s | M"):
            r.append(t % ("!hM=%d, !wM=%d, !hA=%d, !wA=%d" % (h, w, y, x)) + "[%d,%d](i,j)=M[i//%d,j//%d]*A[i%%%d,j%%%d]" % (h * y, w * x, y, x, y, x))
        r.append("MLPPMatrix::kronecker_productb(2) | !hA=%d, !wA=%d, !hB=%d, !wB=%d | M[%d,%d](i,j)=A[i//%d,j//%d]*B[i%%%d,j%%%d]" % (h, w, y, x, h * y, w * x, y, x, y, x))
    return r


def dist(x, m, w):
    return "sqrt(" + "+".join("(%s-%s)*(%s-%s)" % (x(c), m(c), x(c), m(c)) for c in range(w)) + ")"


def nearest(x, m, k, w):
    """index of the nearest of k centroids, the first one among equals"""
    e, d = "0", dist(x, lambda c: m(0, c), w)
    for j in range(1, k):
        dj = dist(x, lambda c: m(j, c), w)
        t = "(%s) < (%s)" % (dj, d)
        e = "(%d if %s else %s)" % (j, t, e)
        d = "((%s) if %s else (%s))" % (dj, t, d)
    return e


def farthest(n, m, i, w):
    """index of the point with the largest summed distance to the first i centroids"""
    s = lambda j: "+".join(dist(lambda c: "_input_set[%d,%d]" % (j, c), lambda c: m(q, c), w) for q in range(i))
    e, d = "0", s(0)
    for j in range(1, n):
        t = "(%s) > (%s)" % (s(j), d)
        e = "(%d if %s else %s)" % (j, t, e)
        d = "((%s) if %s else (%s))" % (s(j), t, d)
    return e


def kmeans(tier="quick"):
    K = "MLPPKMeans::"
    r = []
    mu = lambda j, c: "_mu[%d,%d]" % (j, c)
    for k, w, n in [(1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 1, 1), (3, 1, 2), (3, 2, 2)] + ([] if tier == "quick" else [(2, 3, 3), (3, 2, 3), (4, 1, 2)]):
        cen = "!_initialized=true,!h_mu=%d,!w_mu=%d" % (k, w)
        sq = "%s,!h_input_set=%d,!w_input_set=%d,!_k=%d" % (cen, n, w, k)
        rs = ",!h_r=%d,!w_r=%d" % (n, k)
        if n == 1:
            r.append(K + "model_test(1) | %s,!nA=%d | ret[%d](l)=_mu[%s,l]" % (cen, w, w, nearest(lambda c: "A[%d]" % c, mu, k, w)))
        r.append(K + "model_set_test(1) | %s,!hA=%d,!wA=%d | ret[%d,%d](i,l)=_mu[%s,l]" % (cen, n, w, n, w, nearest(lambda c: "A[i,%d]" % c, mu, k, w)))
        r.append(K + "score(0) | %s%s | ret=%s" % (sq, rs, "+".join("_r[%d,%d]*(_input_set[%d,%d]-_mu[%d,%d])*(_input_set[%d,%d]-_mu[%d,%d])" % (i, j, i, c, j, c, i, c, j, c) for i in range(n) for j in range(k) for c in range(w))))
        for ep in (1, 2):
            if k * w * n > 6 or ep == 2 and k * w * n > 4:
                continue
            L, m = [], mu
            for t in range(ep):
                q = lambda i, j, m=m: "(1 if %d==%s else 0)" % (j, nearest(lambda c: "_input_set[%d,%d]" % (i, c), m, k, w))
                M = {}
                for j in range(k):
                    L.append("let d%d_%d = %s" % (t, j, "+".join(q(i, j) for i in range(n))))
                    for c in range(w):
                        L.append("let m%d_%d_%d = (%s)/d%d_%d" % (t, j, c, "+".join("%s*_input_set[%d,%d]" % (q(i, j), i, c) for i in range(n)), t, j))
                m = lambda j, c, t=t: "m%d_%d_%d" % (t, j, c)
            tab = "0"
            for j in range(k):
                for c in range(w):
                    tab = "(%s if j==%d and c==%d else %s)" % (m(j, c), j, c, tab)
            r.append(K + "train(2) | %s,!A=%d,!B=false | %s; _mu[%d,%d](j,c)=%s; _r[%d,%d](i,j)=(1 if j==%s else 0)" % (sq, ep, "; ".join(L), k, w, tab, n, k, nearest(lambda c: "_input_set[i,%d]" % c, m, k, w)))
    for k, w, n in [(1, 1, 2), (2, 1, 1), (2, 1, 2), (2, 1, 3), (2, 2, 2), (2, 2, 3), (3, 1, 2), (3, 1, 3)]:
        sq = "!h_input_set=%d,!w_input_set=%d,!_k=%d" % (n, w, k)
        r.append(K + "initialize(0) | %s,!_mean_type=MEAN_TYPE_CENTROID | _mu[%d,%d](j,c)=%s; _initialized=1" % (sq, k, w, "".join("(_input_set[rnd%d,c] if j==%d else " % (j + 1, j) for j in range(k)) + "0" + ")" * k))
        L, m = [], {}
        for i in range(k):
            for c in range(w):
                L.append("let m%d_%d = _input_set[%s,%d]" % (i, c, "rnd1" if not i else "f%d" % i, c))
            if i + 1 < k:
                L.append("let f%d = %s" % (i + 1, farthest(n, lambda j, c: "m%d_%d" % (j, c), i + 1, w)))
        tab = "0"
        for j in range(k):
            for c in range(w):
                tab = "(m%d_%d if j==%d and c==%d else %s)" % (j, c, j, c, tab)
        r.append(K + "initialize(0) | %s,!_mean_type=MEAN_TYPE_KMEANSPP | %s; _mu[%d,%d](j,c)=%s; _initialized=1" % (sq, "; ".join(L), k, w, tab))
    return r


def ranks(n, less, same):
    """p0.. : position of each of n things in a stable sort"""
    return ["let p%d = %s" % (i, "+".join(["0"] + ["(1 if %s else 0)" % less(j, i) for j in range(n) if j != i] + ["(1 if %s else 0)" % same(j, i) for j in range(i)])) for i in range(n)]


def at_rank(x, n, k):
    e = x(n - 1)
    for i in reversed(range(n - 1)):
        e = "(%s if p%d==%s else %s)" % (x(i), i, k, e)
    return e


def picked(x, n, flag):
    """entry i of the list of those of n things whose flag is one"""
    e = x(n - 1)
    for i in reversed(range(n - 1)):
        e = "(%s if %s%d==1 and i==%s else %s)" % (x(i), flag, i, "+".join(["0"] + ["%s%d" % (flag, j) for j in range(i)]), e)
    return "[%s](i)=%s" % ("+".join("%s%d" % (flag, i) for i in range(n)), e)


def by_value(x, n):
    return ranks(n, lambda j, i: "%s<%s" % (x(j), x(i)), lambda j, i: "%s==%s" % (x(j), x(i)))


def knn(tier="quick"):
    K = "MLPPKNN::"
    r = []
    for n, w, k in [(1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1), (3, 1, 2), (3, 1, 3)] + ([] if tier == "quick" else [(3, 2, 2), (4, 1, 2)]):
        pin = "!h_input_set=%d,!w_input_set=%d,!_k=%d" % (n, w, k)
        def place(x):
            return ["let d%d = %s" % (i, dist(x, lambda c: "_input_set[%d,%d]" % (i, c), w)) for i in range(n)] + ranks(n, lambda j, i: "d%d<d%d" % (j, i), lambda j, i: "d%d==d%d" % (j, i))
        # the most frequent class among the neighbours, that of the earliest sample among equals
        lab = lambda i: "trunc(_output_set[%d])" % i
        vote = ["let c%d = %s" % (l, "+".join("(1 if p%d<%d and %s==%s else 0)" % (i, k, lab(i), lab(l)) for i in range(n))) for l in range(n)]
        best = lab(n - 1)
        for l in reversed(range(n - 1)):
            best = "(%s if %s==1 else %s)" % (lab(l), "*".join("(0 if c%d<c%d else 1)" % (l, j) for j in range(l + 1, n)), best)
        R = place(lambda c: "A[%d]" % c)
        r.append(K + "model_test(1) | %s,!n_output_set=%d,!nA=%d | %s; ret=%s" % (pin, n, w, "; ".join(R + vote), best))
        R = place(lambda c: "A[0,%d]" % c)
        r.append(K + "model_set_test(1) | %s,!n_output_set=%d,!hA=1,!wA=%d | %s; ret[1](i)=%s" % (pin, n, w, "; ".join(R + vote), best))
    return r


def order(tier="quick"):
    S = "MLPPStat::"
    r = []
    for n in (1, 2, 3, 4):
        x = lambda i: "A[%d]" % i
        mid = at_rank(x, n, n // 2) if n % 2 else "(%s+%s)/2" % (at_rank(x, n, n // 2 - 1), at_rank(x, n, n // 2))
        r.append(S + "median(1) | !nA=%d | %s; ret=%s" % (n, "; ".join(by_value(x, n)), mid))
        if n < 5:
            L = ["let c%d = %s" % (i, "+".join("(1 if %s==%s else 0)" % (x(i), x(j)) for j in range(n))) for i in range(n)]
            L += ["let m%d = %s" % (i, "*".join(["1"] + ["(0 if %s==%s else 1)" % (x(i), x(j)) for j in range(i)] + ["(0 if c%d<c%d else 1)" % (i, j) for j in range(n)])) for i in range(n)]
            r.append(S + "mode(1) | !nA=%d | %s; ret%s" % (n, "; ".join(L), picked(x, n, "m")))
        m = lambda i: "M[%d]" % i
        r.append("MLPPVector::sort(0) | !nM=%d | %s; M[%d](i)=%s" % (n, "; ".join(by_value(m, n)), n, at_rank(m, n, "i")))
        if n < 4:
            # into a sorted vector, after the elements not greater
            L = ["let q = %s" % "+".join("(0 if A<%s else 1)" % m(i) for i in range(n))]
            up = ",".join("M[%d]<=M[%d]" % (i, i + 1) for i in range(n - 1))
            r.append("MLPPVector::ordered_insert(1) | !nM=%d%s | %s; M[%d](i)=(M[i] if i<q else A if i==q else M[i-1])" % (n, up and "," + up, "; ".join(L), n + 1))
        L = ["let m%d = %s" % (i, "*".join(["1"] + ["(0 if %s==%s else 1)" % (x(i), x(j)) for j in range(i)])) for i in range(n)]
        r.append("MLPPData::vec_to_setnv(1) | !nA=%d | %s; ret%s" % (n, "; ".join(L), picked(x, n, "m")))
    return r


def outliers():
    r = []
    for n in (2, 3):
        x = lambda i: "A[%d]" % i
        L = ["let m = (%s)/%d" % ("+".join(x(i) for i in range(n)), n), "let s = sqrt((%s)/%d)" % ("+".join("(%s-m)*(%s-m)" % (x(i), x(i)) for i in range(n)), n - 1)]
        L += ["let o%d = (1 if abs((%s-m)/s)>_threshold else 0)" % (i, x(i)) for i in range(n)]
        r.append("MLPPOutlierFinder::model_test(1) | !nA=%d | %s; ret%s" % (n, "; ".join(L), picked(x, n, "o")))
    return r


def scaling():
    D = "MLPPData::"
    mean = "let m(i) = sum(k,0,wA,A[i,k])/wA"
    lo, hi = "rmin(k,0,hA,A[k,j])", "rmax(k,0,hA,A[k,j])"
    return [D + "feature_scaling(1) | | ret[hA,wA](i,j) = (A[i,j]-%s)/(%s-%s)" % (lo, hi, lo),
            D + "mean_centering(1) | | %s; ret[hA,wA](i,j) = A[i,j]-m[i]" % mean,
            D + "mean_normalization(1) | ?wA>1 | %s; let d(i) = sqrt(sum(k,0,wA,(A[i,k]-m[i])*(A[i,k]-m[i]))/(wA-1)); ret[hA,wA](i,j) = (A[i,j]-m[i])/d[i]" % mean,
            D + "one_hot_rep(2) | ?B>0 | ret[nA,B](i,j) = (1 if trunc(A[i])==j else 0)"]


def solved():
    """linear regression through the inverse of the second derivative"""
    C, X = "MLPPLinReg::", "_input_set"
    r = []
    for n, w in ((1, 1), (2, 1), (2, 2), (3, 2)):
        pin = "!_initialized=true,!h_input_set=%d,!w_input_set=%d,!n_output_set=%d,!n_weights=%d,!n_y_hat=%d,!_n=%d,!_k=%d" % (n, w, n, w, n, n, w)
        fin = "_weights[%d](i)=w[i]; _bias=b; _y_hat[%d](i)=sum(p,0,%d,%s[i,p]*w[p])+b" % (w, n, w, X)
        G = "let G(i,j)=sum(k,0,%d,%s[k,i]*%s[k,j])" % (n, X, X)
        g = lambda i, j: "G[%d,%d]" % (i, j)
        W = list(range(w))
        V = "let V(i,j)=" + table(w, w, lambda i, j: "(%s)/(%s)" % (cof(w, g, j, i), det(W, W, g)))
        for reg in (0, 1):
            ridge = "+_lambda*(1 if i==j else 0)" if reg else ""
            r.append(C + "normal_equation(0) | %s,!_reg=%d | %s%s; %s; let u(i)=sum(k,0,%d,%s[k,i]*_output_set[k]); let w(i)=sum(k,0,%d,V[i,k]*u[k]); let b=sum(k,0,%d,_output_set[k])/%d-sum(p,0,%d,w[p]*sum(k,0,%d,%s[k,p])/%d); %s" % (pin, reg, G, ridge, V, n, X, w, n, n, w, n, X, n, fin))
            for ep in (1, 2):
                if ep == 2 and (n > 2 or w > 1):
                    continue
                L = [G, V, "let w0(i)=_weights[i]", "let b0=_bias"]
                for t in range(1, ep + 1):
                    L.append("let e%d(k)=sum(p,0,%d,%s[k,p]*w%d[p])+b%d-_output_set[k]" % (t, w, X, t - 1, t - 1))
                    L.append("let u%d(i)=sum(k,0,%d,%s[k,i]*e%d[k])" % (t, n, X, t))
                    L.append("let r%d(i)=w%d[i]-A/_n*sum(k,0,%d,V[i,k]*u%d[k])" % (t, t - 1, w, t))
                    L.append("let w%d(i)=r%d[i]-%s" % (t, t, REG[reg].replace("@", "r%d[i]" % t)))
                    L.append("let b%d=b%d-A/_n*sum(k,0,%d,e%d[k])" % (t, t - 1, n, t))
                r.append(C + "newton_raphson(3) | %s,!_reg=%d,!B=%d,!C=false | %s; let w(i)=w%d[i]; let b=b%d; %s" % (pin, reg, ep, "; ".join(L), ep, ep, fin))
    return r


def bayes():
    C="MLPPGaussianNB::"
    cfg="!_initialized=true,!_class_num=n_mu,!n_sigma=n_mu,!n_priors=n_mu"
    ev="exp(log(_priors[c])+sum(k,0,%s,log(1/sqrt(2*pi*_sigma[c]*_sigma[c])*exp(-(%s-_mu[c])*(%s-_mu[c])/(2*_sigma[c]*_sigma[c])))))"
    r=[C+"model_test(1) | ?n_mu>=1,%s | let s(c) = %s; ret=argmax(c,0,n_mu,s(c))"%(cfg,ev%("nA","A[k]","A[k]")),
    C+"model_set_test(1) | ?n_mu>=1,%s | let s(i,c) = %s; ret[hA](i)=argmax(c,0,n_mu,s(i,c))"%(cfg,ev%("wA","A[i,k]","A[i,k]"))]
    for n, w, k in ((1, 1, 1), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (3, 1, 2), (3, 2, 2)):
        cells = [(i, c) for i in range(n) for c in range(w)]
        L = ["let q%d(c) = (1 if B[%d]==c else 0)" % (i, i) for i in range(n)]
        L += ["let m(c) = %d*(%s)" % (w, "+".join("q%d(c)" % i for i in range(n)))]
        L += ["let u(c) = (%s)/m(c)" % "+".join("q%d(c)*A[%d,%d]" % (i, i, j) for i, j in cells)]
        L += ["let v(c) = sqrt((%s)/(m(c)-1))" % "+".join("q%d(c)*(A[%d,%d]-u(c))*(A[%d,%d]-u(c))" % (i, i, j, i, j) for i, j in cells)]
        L += ["let p(c) = (%s)/%d" % ("+".join("(1 if trunc(B[%d])==c else 0)" % i for i in range(n)), n)]
        L += ["let s(i,c) = exp(log(p(c))+%s)" % "+".join("log(1/sqrt(2*pi*v(c)*v(c))*exp(-(A[i,%d]-u(c))*(A[i,%d]-u(c))/(2*v(c)*v(c))))" % (j, j) for j in range(w))]
        lab = ",".join("?B[%d]>=0,?B[%d]<%d" % (i, i, k) for i in range(n))
        r.append(C + "MLPPGaussianNB(3) | !hA=%d,!wA=%d,!nB=%d,!C=%d,%s | %s; _input_set[%d,%d](i,j)=A[i,j]; _output_set[%d](i)=B[i]; _class_num=%d; _initialized=1; _priors[%d](c)=p(c); _mu[%d](c)=u(c); _sigma[%d](c)=v(c); _y_hat[%d](i)=argmax(c,0,%d,s(i,c))" % (n, w, n, k, lab, "; ".join(L), n, w, n, k, k, k, k, n, k))
    return r
