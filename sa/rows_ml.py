"""What the machine learning building blocks compute, stated from their mathematical definitions."""

# forward value and derivative of every activation, as functions of z
SIG = "(1/(1+exp(-z)))"
SP = "log(1+exp(z))"
TANH = "((exp(z)-exp(-z))/(exp(z)+exp(-z)))"
COSH = "((exp(z)+exp(-z))/2)"
SINH = "((exp(z)-exp(-z))/2)"
ACT = {
    "linear": ("z", "1"),
    "sigmoid": (SIG, "%s*(1-%s)" % (SIG, SIG)),
    "softplus": (SP, SIG),
    "softsign": ("z/(1+abs(z))", "1/((1+abs(z))*(1+abs(z)))"),
    "gaussian_cdf": ("(1+erf(z/sqrt(2)))/2", "exp(0-z*z/2)/sqrt(2*3.14159265358979323846)"),
    "cloglog": ("1-exp(-exp(z))", "exp(z-exp(z))"),
    "logit": ("log(z/(1-z))", "1/z-1/(z-1)"),
    "unit_step": ("(0 if z < 0 else 1)", "0"),
    "swish": ("z*%s" % SIG, "z*{0}+{0}*(1-z*{0})".format(SIG)),
    "mish": ("z*tanh(%s)" % SP, "z*%s/(cosh(%s)*cosh(%s)) + tanh(%s)" % (SIG, SP, SP, SP)),
    "sinc": ("sin(z)/z", "(z*cos(z)-sin(z))/(z*z)"),
    "relu": ("max(z, 0)", "(0 if z <= 0 else 1)"),
    "gelu": ("0.5*z*(1+tanh(sqrt(2/3.14159265358979323846)*(z+0.044715*pow(z,3))))", "0.5*tanh(0.0356774*pow(z,3)+0.797885*z)+(0.0535161*pow(z,3)+0.398942*z)/pow(cosh(0.0356774*pow(z,3)+0.797885*z),2)+0.5"),
    "sign": ("(0-1 if z < 0 else (0 if z == 0 else 1))", "0"),
    "sinh": (SINH, COSH),
    "cosh": (COSH, SINH),
    "tanh": (TANH, "1-tanh(z)*tanh(z)"),
    "csch": ("1/sinh(z)", "0-cosh(z)/(sinh(z)*sinh(z))"),
    "sech": ("1/cosh(z)", "0-sinh(z)/(cosh(z)*cosh(z))"),
    "coth": ("1/tanh(z)", "0-1/(sinh(z)*sinh(z))"),
    "arsinh": ("log(z+sqrt(z*z+1))", "1/sqrt(z*z+1)"),
    "arcosh": ("log(z+sqrt(z*z-1))", "1/sqrt(z*z-1)"),
    "artanh": ("log((1+z)/(1-z))/2", "1/(1-z*z)"),
    "arcsch": ("log(sqrt(1+1/(z*z))+1/z)", "0-1/(z*z*sqrt(1+1/(z*z)))"),
    "arsech": ("log(1/z+sqrt((1/z+1)*(1/z-1)))", "0-1/(z*sqrt(1-z*z))"),
    "arcoth": ("log((1+z)/(z-1))/2", "1/(1-z*z)"),
}
# parameterised forms, parameters after z
ACTP = {
    "leaky_relu": (1, "max(c*z, z)", "(c if z <= 0 else 1)"),
    "elu": (1, "(z if z >= 0 else c*(exp(z)-1))", "(c*exp(z) if z <= 0 else 1)"),
    "selu": (2, "l*(z if z >= 0 else c*(exp(z)-1))", "l*(c*exp(z) if z <= 0 else 1)"),
}

import re


def _sub(f, **kw):
    return re.sub(r"\b([zcl])\b", lambda m: kw.get(m.group(1), m.group(1)), f)


def activation_rows():
    r = []
    for n, (f, d) in ACT.items():
        for mode, e in (("norm", f), ("deriv", d)):
            r.append("MLPPActivation::%s_%sr(1) | | ret = %s" % (n, mode, _sub(e, z="A")))
            r.append("MLPPActivation::%s_%sv(1) | | ret[nA](i) = %s" % (n, mode, _sub(e, z="A[i]")))
            r.append("MLPPActivation::%s_%sm(1) | | ret[hA,wA](i,j) = %s" % (n, mode, _sub(e, z="A[i,j]")))
    for n, (k, f, d) in ACTP.items():
        p = {"c": "B"} if k == 1 else {"l": "B", "c": "C"}
        for mode, e in (("norm", f), ("deriv", d)):
            r.append("MLPPActivation::%s_%sr(%d) | | ret = %s" % (n, mode, k + 1, _sub(e, z="A", **p)))
            r.append("MLPPActivation::%s_%sv(%d) | | ret[nA](i) = %s" % (n, mode, k + 1, _sub(e, z="A[i]", **p)))
            r.append("MLPPActivation::%s_%sm(%d) | | ret[hA,wA](i,j) = %s" % (n, mode, k + 1, _sub(e, z="A[i,j]", **p)))
    sm = "exp(A[i])/sum(k,0,nA,exp(A[k]))"
    smm = "exp(A[i,j])/sum(k,0,wA,exp(A[i,k]))"
    r += [
        "MLPPActivation::softmax_normv(1) | | ret[nA](i) = " + sm,
        "MLPPActivation::softmax_normm(1) | | ret[hA,wA](i,j) = " + smm,
        "MLPPActivation::adj_softmax_normv(1) | | ret[nA](i) = " + sm,
        "MLPPActivation::adj_softmax_normm(1) | | ret[hA,wA](i,j) = " + smm,
        "MLPPActivation::softmax_deriv_normv(1) | | ret[nA,nA](i,j) = (S_i*(1-S_i) if i == j else 0-S_i*S_j)".replace("S_i", "(" + sm + ")").replace("S_j", "(exp(A[j])/sum(k,0,nA,exp(A[k])))"),
        "MLPPActivation::softmax_deriv_derivv(1) | | ret[nA,nA](i,j) = (S_i*(1-S_i) if i == j else 0-S_i*S_j)".replace("S_i", "(" + sm + ")").replace("S_j", "(exp(A[j])/sum(k,0,nA,exp(A[k])))"),
    ]
    return r


def enumval(prog, enum, name):
    for c in prog.enum[enum]["c"]:
        if c["n"] == name:
            return int(c["v"])
    return None


FAMILY = {"SIN_C": "sinc", "C_LOG_LOG": "cloglog"}


def dispatch_rows(prog):
    """selection by enumerator: value forms and function tables"""
    r = []
    en = "MLPPActivation::ActivationFunction"
    smv = "exp(B[i])/sum(k,0,nB,exp(B[k]))"
    smm = "exp(B[i,j])/sum(k,0,wB,exp(B[i,k]))"
    for c in prog.enum[en]["c"]:
        n = c["n"].replace("ACTIVATION_FUNCTION_", "")
        fam = FAMILY.get(n, n.lower())
        v = int(c["v"])
        for mode, k in (("norm", 0), ("deriv", 1)):
            for kind, K, at, lhs in (("real", "r", "B", "ret"), ("vector", "v", "B[i]", "ret[nB](i)"), ("matrix", "m", "B[i,j]", "ret[hB,wB](i,j)")):
                if fam in ACT:
                    e = _sub(ACT[fam][k], z=at)
                elif fam in ("softmax", "adj_softmax") and kind != "real":
                    e = smv if kind == "vector" else smm
                else:
                    e = None
                if e is not None:
                    r.append("MLPPActivation::run_activation_%s_%s(2) | ?A == %d | %s = %s" % (mode, kind, v, lhs, e))
                    r.append("MLPPActivation::run_activation_%s(3) | ?A == %d, ?%sC | %s = %s" % (kind, v, "" if k else "not ", lhs, e))
                t = "&MLPPActivation::%s_%s%s" % (fam, mode, K)
                r.append("MLPPActivation::get_activation_function_ptr_%s_%s(1) | ?A == %d | ret = %s" % ("normal" if k == 0 else "deriv", kind, v, t))
                r.append("MLPPActivation::get_activation_function_ptr_%s(2) | ?A == %d, ?%sB | ret = %s" % (kind, v, "" if k else "not ", t))
    return r


# ---------------------------------------------------------------- cost functions
# element function of y_hat (P) and y (Y), reduction scale; per-sample derivative
COST = {
    "mse": ("SUM((P-Y)*(P-Y))/(2*N)", "P-Y"),
    "rmse": ("sqrt(SUM((P-Y)*(P-Y))/N)", "(P-Y)/(2*sqrt(SUM((P-Y)*(P-Y))/(2*N)))"),
    "mae": ("SUM(abs(P-Y))/N", "(0-1 if P < Y else (0 if P == Y else 1))"),
    "mbe": ("SUM(P-Y)/N", "1"),
    "log_loss": ("SUM(0-Y*log(P+0.00000001)-(1-Y)*log(1-P+0.00000001))/N", "0-Y/P+(1-Y)/(1-P)"),
    "cross_entropy": ("0-SUM(Y*log(P))", "0-Y/P"),
    "hinge_loss": ("SUM(max(0,1-Y*P))/N", "(0-Y if 1-Y*P > 0 else 0)"),
    "wasserstein_loss": ("0-SUM(P*Y)/N", "0-Y"),
}
COSTENUM = {"LOGISTIC_LOSS": "log_loss"}


def _fold(e, a, b, n1, n2):
    """expand SUM(...) over the elements of operands a, b"""

    def sums(s, op, idx):
        out = ""
        while True:
            k = s.find("SUM(")
            if k < 0:
                return out + s
            d, j = 1, k + 4
            while d:
                d += {"(": 1, ")": -1}.get(s[j], 0)
                j += 1
            body = re.sub(r"\bP\b", "%s[%s]" % (a, idx), re.sub(r"\bY\b", "%s[%s]" % (b, idx), s[k + 4 : j - 1]))
            out += s[:k] + op(body)
            s = s[j:]

    if n2 is None:
        r = sums(e, lambda x: "sum(k,0,%s,%s)" % (n1, x), "k")
        r = re.sub(r"\bN\b", n1, r)
        return re.sub(r"\bP\b", "%s[i]" % a, re.sub(r"\bY\b", "%s[i]" % b, r))
    r = sums(e, lambda x: "sum(k,0,%s,sum(l,0,%s,%s))" % (n1, n2, x), "k,l")
    r = re.sub(r"\bN\b", "(%s*%s)" % (n1, n2), r)
    return re.sub(r"\bP\b", "%s[i,j]" % a, re.sub(r"\bY\b", "%s[i,j]" % b, r))


def cost_rows():
    r = []
    for n, (f, d) in COST.items():
        vq = "nA==nB"
        mq = "?hA==hB,?wA==wB"
        r.append("MLPPCost::%sv(2) | %s | ret = %s" % (n, vq, _fold(f, "A", "B", "nA", None)))
        r.append("MLPPCost::%sm(2) | %s | ret = %s" % (n, mq, _fold(f, "A", "B", "hA", "wA")))
        r.append("MLPPCost::%s_derivv(2) | ?%s | ret[nA](i) = %s" % (n, vq, _fold(d, "A", "B", "nA", None)))
        r.append("MLPPCost::%s_derivm(2) | %s | ret[hA,wA](i,j) = %s" % (n, mq, _fold(d, "A", "B", "hA", "wA")))
    hub = "SUM((P-Y)*(P-Y) if abs(P-Y) <= C else 2*C*abs(P-Y)-C*C)"
    hubd = "(2*(P-Y) if abs(P-Y) <= C else (2*C if P > Y else 0-2*C))"
    hw, hwd = COST["hinge_loss"]
    for suf, q, a in (("v", "nA==nB", ("nA", None)), ("m", "?hA==hB,?wA==wB", ("hA", "wA"))):
        lhs = "ret[nA](i)" if suf == "v" else "ret[hA,wA](i,j)"
        pen = "sum(k,0,nC,C[k]*C[k])/2" if suf == "v" else "sum(k,0,hC,sum(l,0,wC,C[k,l]*C[k,l]))/2"
        r.append("MLPPCost::huber_loss%s(3) | %s,?C>=0 | ret = %s" % (suf, q, _fold(hub, "A", "B", *a)))
        r.append("MLPPCost::huber_loss_deriv%s(3) | %s,?C>=0 | %s = %s" % (suf, q, lhs, _fold(hubd, "A", "B", *a)))
        r.append("MLPPCost::hinge_lossw%s(4) | %s | ret = D*(%s) + %s" % (suf, q, _fold(hw, "A", "B", *a), pen))
        r.append("MLPPCost::hinge_loss_derivw%s(3) | %s | %s = C*%s" % (suf, q, lhs, _fold(hwd, "A", "B", *a)))
    r.append("MLPPCost::dual_form_svm(3) | ?nA==hB,?nC==hB | ret = 0-sum(k,0,nA,A[k]) + sum(p,0,nA,sum(q,0,nA,A[p]*A[q]*C[p]*C[q]*sum(r,0,wB,B[p,r]*B[q,r])))/2")
    r.append("MLPPCost::dual_form_svm_deriv(3) | ?nA==hB,?nC==hB | ret[nA](i) = sum(q,0,nA,A[q]*C[i]*C[q]*sum(r,0,wB,B[i,r]*B[q,r])) - 1")
    return r


def cost_dispatch_rows(prog):
    r = []
    for c in prog.enum["MLPPCost::CostTypes"]["c"]:
        n = c["n"].replace("COST_TYPE_", "")
        fam = COSTENUM.get(n, n.lower())
        if fam not in COST:
            continue
        v = int(c["v"])
        f, d = COST[fam]
        for mode, e, suf in (("normal", f, ""), ("deriv", d, "_deriv")):
            for kind, K in (("vector", "v"), ("matrix", "m")):
                q = "nB==nC" if K == "v" else "?hB==hC,?wB==wC"
                if mode == "deriv" and K == "v":
                    q = "?" + q
                lhs = "ret" if mode == "normal" else "ret[nB](i)" if K == "v" else "ret[hB,wB](i,j)"
                x = _fold(e, "B", "C", "nB", None) if K == "v" else _fold(e, "B", "C", "hB", "wB")
                r.append("MLPPCost::run_cost_%s_%s(3) | ?A == %d, %s | %s = %s" % ("norm" if mode == "normal" else "deriv", kind, v, q, lhs, x))
                r.append("MLPPCost::get_cost_function_ptr_%s_%s(1) | ?A == %d | ret = &MLPPCost::%s%s%s" % (mode, kind, v, fam, suf, K))
    return r


# ---------------------------------------------------------------- regularisation
SGN = "(0-1 if W < 0 else (0 if W == 0 else 1))"
REG = {
    "NONE": ("0", "0"),
    "RIDGE": ("B/2*SUM(W*W)", "B*W"),
    "LASSO": ("B*SUM(abs(W))", "B*" + SGN),
    "ELASTIC_NET": ("B*SUM(C*abs(W)+(1-C)/2*W*W)", "C*B*%s+(1-C)*B*W" % SGN),
    "WEIGHT_CLIPPING": ("0", "(C if W > C else (B if W < B else W))"),
}


def reg_rows(prog):
    r = []
    for c in prog.enum["MLPPReg::RegularizationType"]["c"]:
        n = c["n"].replace("REGULARIZATION_TYPE_", "")
        if n not in REG:
            continue
        v = int(c["v"])
        f, d = REG[n]
        for suf, dims, lhs, at in (("v", ("nA", None), "ret[nA](i)", "A[i]"), ("m", ("hA", "wA"), "ret[hA,wA](i,j)", "A[i,j]")):
            ff = _fold(re.sub(r"\bW\b", "P", f), "A", "A", *dims)
            dd = re.sub(r"\bW\b", at, d)
            r.append("MLPPReg::reg_term%s(4) | ?D == %d | ret = %s" % (suf, v, ff))
            r.append("MLPPReg::reg_deriv_term%s(4) | ?D == %d | %s = %s" % (suf, v, lhs, dd))
            r.append("MLPPReg::reg_weights%s(4) | ?D == %d | %s = %s" % (suf, v, lhs, dd if n == "WEIGHT_CLIPPING" else "%s-(%s)" % (at, dd)))
    return r
