"""Model classes: prediction and training steps, from an arbitrary object state."""


def steps(batches, epochs):
    """(epoch, first row of the batch, rows of the batch) in training order"""
    for t in range(1, epochs + 1):
        for q in range(batches):
            yield t, q


REG = {0: "0", 1: "_lambda*@"}


def trainer(rule, out="y(k)", err="y(k)-Y(k)", reg=0, batches=1, epochs=1, p=None, act="z"):
    """lets describing `epochs` passes over `batches` batches; the last step defines w and b.
    rule: plain | momentum | nag | adagrad | adadelta | adam | adamax | nadam;  p: names of the rule's parameters"""
    p = p or {}
    nb = "_n" if batches == 1 else "S"
    L = ["let w0(i) = _weights[i]", "let b0 = _bias", "let m0(i) = 0", "let v0(i) = 0"]
    if batches > 1:
        L.append("let S = %s" % p["S"])
    s = 0
    for t, q in steps(batches, epochs):
        o = "" if batches == 1 else "+%d*S" % q
        wi = "w%d" % s
        if rule == "nag":
            L.append("let x%d(i) = w%d(i)-%s*v%d(i)" % (s, s, p["g"], s))
            wi = "x%d" % s
        n = s + 1
        L.append("let y%d(k) = sum(p,0,w_input_set,_input_set[k%s,p]*%s(p))+b%d" % (n, o, wi, s))
        L.append("let e%d(k) = y%d(k)-_output_set[k%s]" % (n, n, o))
        L.append("let b%d = b%d-A*sum(k,0,%s,e%d(k))/%s" % (n, s, nb, n, nb))
        L.append("let g%d(i) = sum(k,0,%s,_input_set[k%s,i]*e%d(k))/%s" % (n, nb, o, n, nb))
        L.append("let d%d(i) = g%d(i)+%s" % (n, n, REG[reg].replace("@", "%s(i)" % wi)))
        f = dict(p, n=n, s=s, t=t, x=wi)
        rules = {
            "plain": ["let r{n}(i) = {x}(i)-A*g{n}(i)", "let w{n}(i) = r{n}(i)-" + REG[reg].replace("@", "r{n}(i)")],
            "momentum": ["let v{n}(i) = {g}*v{s}(i)+A*d{n}(i)", "let w{n}(i) = {x}(i)-v{n}(i)"],
            "nag": ["let v{n}(i) = {g}*v{s}(i)+A*d{n}(i)", "let w{n}(i) = {x}(i)-v{n}(i)"],
            "adagrad": ["let v{n}(i) = v{s}(i)+d{n}(i)*d{n}(i)", "let w{n}(i) = {x}(i)-A*d{n}(i)/sqrt(v{n}(i)+{e})"],
            "adadelta": ["let v{n}(i) = {b1}*v{s}(i)+(1-{b1})*d{n}(i)*d{n}(i)", "let w{n}(i) = {x}(i)-A*d{n}(i)/sqrt(v{n}(i)+{e})"],
            "adam": ["let m{n}(i) = {b1}*m{s}(i)+(1-{b1})*d{n}(i)", "let v{n}(i) = {b2}*v{s}(i)+(1-{b2})*d{n}(i)*d{n}(i)", "let w{n}(i) = {x}(i)-A*m{n}(i)/(1-{b1}**{t})/({e}+sqrt(v{n}(i)/(1-{b2}**{t})))"],
            "adamax": ["let m{n}(i) = {b1}*m{s}(i)+(1-{b1})*d{n}(i)", "let v{n}(i) = max({b2}*v{s}(i),abs(d{n}(i)))", "let w{n}(i) = {x}(i)-A*m{n}(i)/(1-{b1}**{t})/v{n}(i)"],
            "nadam": ["let m{n}(i) = {b1}*m{s}(i)+(1-{b1})*d{n}(i)", "let v{n}(i) = {b2}*v{s}(i)+(1-{b2})*d{n}(i)*d{n}(i)", "let w{n}(i) = {x}(i)-A*({b1}*m{n}(i)+(1-{b1})/(1-{b1}**{t})*d{n}(i))/({e}+sqrt(v{n}(i)/(1-{b2}**{t})))"],
        }[rule]
        L += [x.format(**f) for x in rules]
        s = n
    L += ["let w(i) = w%d(i)" % s, "let b = b%d" % s]
    return "; ".join(L)


def lin(w, b, x):
    """w . x + b with x an element template in @"""
    return "sum(p,0,w_input_set,%s*%s(p))+%s" % (x, w, b)


def glm_train(kind, f, df, reg="0", batches=1, epochs=1, nb="_n", size=None, bias="_bias", div=None, both=False):
    """kind full|batch|sgd.  f: prediction of z (@), df: factor of the residual (@ = z).  reg: subtracted after the step"""
    L = ["let w0(i) = _weights[i]", "let b0 = %s" % bias]
    if batches > 1:
        L.append("let S = %s" % size)
    s = 0
    for t, q in steps(batches, epochs):
        n = s + 1
        row = "rnd%d" % n if kind == "sgd" else "k" if batches == 1 else "k+%d*S" % q
        cnt = "1" if kind == "sgd" else nb if batches == 1 else "S"
        d = div or cnt
        L.append("let z%d(k) = %s" % (n, lin("w%d" % s, "b%d" % s, "_input_set[%s,p]" % row)))
        L.append("let y%d(k) = %s" % (n, f.replace("@", "z%d(k)" % n)))
        if callable(df):
            L.append("let e%d(k) = %s" % (n, df("z%d(k)" % n, "_output_set[%s]" % row)))
        else:
            L.append("let e%d(k) = (y%d(k)-_output_set[%s])*(%s)" % (n, n, row, df.replace("@", "z%d(k)" % n)))
        L.append("let b%d = b%d-A*sum(k,0,%s,e%d(k))/%s" % (n, s, cnt, n, d))
        L.append("let r%d(i) = w%d(i)-A*sum(k,0,%s,_input_set[%s,i]*e%d(k))/%s" % (n, s, cnt, row, n, d))
        L.append("let w%d(i) = r%d(i)-%s" % (n, n, reg.replace("@", "r%d(i)" % n)))
        s = n
    L += ["let w(i) = w%d(i)" % s, "let b = b%d" % s]
    return "; ".join(L)


SIGMOID = "1/(1+exp(-(@)))"
GCDF = "0.5*(1+erf((@)/sqrt(2)))"
GPDF = "1/sqrt(2*pi)*exp(-(@)*(@)/2)"
CLOGLOG = "1-exp(-exp(@))"
DCLOGLOG = "exp((@)-exp(@))"
SIGN = "(-1 if (@)<0 else 0 if (@)==0 else 1)"
TANH = "tanh(@)"
DTANH = "1-tanh(@)*tanh(@)"


def hinge(z, y):
    return "(0 if 1-%s*(%s)<=0 else -%s*_c)" % (y, z, y)


# class, prediction, gradient factor, bias field, z field, initialisation, row count, trainers, rejects untrained
GLM = [
    ("MLPPLogReg", SIGMOID, "1", "_bias", False, "flag", {"full": "gradient_descent", "mle": "mle", "sgd": "sgd", "batch": "mbgd"}, None),
    ("MLPPProbitReg", GCDF, GPDF, "_bias", True, "sets", {"full": "train_gradient_descent", "mle": "train_mle", "sgd": "train_sgd", "batch": "train_mbgd"}, None),
    ("MLPPCLogLogReg", CLOGLOG, DCLOGLOG, "bias", True, "none", {"full": "gradient_descent", "mle": "mle", "sgd": "sgd", "batch": "mbgd"}, "_n"),
    ("MLPPTanhReg", TANH, DTANH, "_bias", True, "sets", {"full": "train_gradient_descent", "sgd": "train_sgd", "batch": "train_mbgd"}, "h_input_set"),
    ("MLPPSVC", SIGN, hinge, "_bias", True, "sets", {"full": "train_gradient_descent", "sgd": "train_sgd", "batch": "train_mbgd"}, "h_input_set"),
]


def glm_config(c, init, extra="", rows="h_input_set"):
    n = [] if init == "sets" else ["!_n=" + rows]
    if init == "flag":
        n.append("!_initialized=true")
    n += ["!n_weights=w_input_set", "!n_output_set=h_input_set", "!n_y_hat=h_input_set"]
    return ",".join(n) + extra


def predictions():
    r = []
    for c, f, df, bias, z, init, tr, div in GLM + [("MLPPLinReg", "@", "1", "_bias", False, "flag", {}, None)]:
        ok = {"flag": "?_initialized,", "sets": "?h_input_set==n_y_hat,?w_input_set==n_weights,", "none": ""}[init]
        v = "sum(k,0,nA,A[k]*_weights[k])+" + bias
        m = "sum(k,0,wA,A[i,k]*_weights[k])+" + bias
        r.append("%s::evaluatev(1) | nA==n_weights | ret = %s" % (c, f.replace("@", v)))
        r.append("%s::evaluatem(1) | wA==n_weights | ret[hA](i) = %s" % (c, f.replace("@", m)))
        r.append("%s::model_test(1) | %snA==n_weights | ret = %s" % (c, ok, f.replace("@", v)))
        r.append("%s::model_set_test(1) | %swA==n_weights | ret[hA](i) = %s" % (c, ok, f.replace("@", m)))
        if z:
            r.append("%s::propagatev(1) | nA==n_weights | ret = %s" % (c, v))
            r.append("%s::propagatem(1) | wA==n_weights | ret[hA](i) = %s" % (c, m))
        g = "sum(k,0,w_input_set,_input_set[i,k]*_weights[k])+" + bias
        zz = "_z[h_input_set](i) = %s; " % g if z else ""
        r.append("%s::forward_pass(0) | w_input_set==n_weights | %s_y_hat[h_input_set](i) = %s" % (c, zz, f.replace("@", g)))
    return r


def glm_trainers(tier="quick"):
    r = []
    for c, f, df, bias, z, init, tr, div in GLM:
        for kind, m in tr.items():
            kk = "full" if kind == "mle" else kind
            base = "" if c == "MLPPSVC" else None
            for reg in ((0, 1) if base is None else (0,)):
                if base is None:
                    pin, rg = ",!_reg=%d" % reg, REG[reg]
                else:
                    pin, rg = "", {"full": "A/h_input_set*@", "batch": "A/h_input_set*@", "sgd": "A*@"}[kk]
                g = "sum(p,0,w_input_set,_input_set[i,p]*w(p))+b"
                fin = "; _weights[n_weights](i) = w(i); %s = b; " % bias + ("_z[h_input_set](i) = %s; " % g if z else "") + "_y_hat[h_input_set](i) = " + f.replace("@", g)
                na = 4 if kk == "batch" else 3
                nb = "h_input_set"
                one = ",!C=h_input_set" if kk == "batch" else ""
                dv = div if kk == "batch" else None
                for ep in (1, 2):
                    if ep == 2 and (reg == 1 or tier == "quick" and c == "MLPPTanhReg" and kk != "sgd"):
                        continue
                    t = glm_train(kk, f, df, rg, 1, ep, nb, None, bias, dv)
                    r.append("%s::%s(%d) | %s%s%s,!B=%d | %s%s" % (c, m, na, glm_config(c, init), one, pin, ep, t, fin))
                if kk == "batch" and reg == 0 and (tier == "thorough" or c != "MLPPTanhReg"):
                    t = glm_train(kk, f, df, rg, 2, 1, nb, "C", bias, dv)
                    r.append("%s::%s(%d) | !h_input_set=2*C,%s%s,!B=1,?C>=1 | %s%s" % (c, m, na, glm_config(c, init, rows="2*C"), pin, t, fin))
    return r


def linreg(tier="quick"):
    C = "MLPPLinReg::"
    INIT = "!_initialized=true,!n_weights=w_input_set,!n_output_set=h_input_set,!n_y_hat=h_input_set"
    r = []
    fin = "_weights[n_weights](i) = w(i); _bias = b; _y_hat[_n](i) = sum(p,0,w_input_set,_input_set[i,p]*w(p))+b"
    OPT = (("gradient_descent", 3, "plain", {}), ("mbgd", 4, "plain", {}), ("momentum", 5, "momentum", {"g": "D"}), ("nag", 5, "nag", {"g": "D"}), ("adagrad", 5, "adagrad", {"e": "D"}),
           ("adadelta", 6, "adadelta", {"b1": "D", "e": "E"}), ("adam", 7, "adam", {"b1": "D", "b2": "E", "e": "F"}), ("adamax", 7, "adamax", {"b1": "D", "b2": "E"}), ("nadam", 7, "nadam", {"b1": "D", "b2": "E", "e": "F"}))
    for reg in (0, 1):
        for ep in (1, 2):
            L, s = ["let w0(i) = _weights[i]", "let b0 = _bias"], 0
            for n in range(1, ep + 1):
                L.append("let e%d = sum(k,0,n_weights,w%d(k)*_input_set[rnd%d,k])+b%d-_output_set[rnd%d]" % (n, n - 1, n, n - 1, n))
                L.append("let r%d(i) = w%d(i)-A*e%d*_input_set[rnd%d,i]" % (n, n - 1, n, n))
                L.append("let w%d(i) = r%d(i)-%s" % (n, n, REG[reg].replace("@", "r%d(i)" % n)))
                L.append("let b%d = b%d-A*e%d" % (n, n - 1, n))
            L += ["let w(i) = w%d(i)" % ep, "let b = b%d" % ep]
            r.append(C + "sgd(3) | %s,!_reg=%d,!_n=h_input_set,!B=%d | %s; %s" % (INIT, reg, ep, "; ".join(L), fin))
        for m, na, rule, par in OPT:
            cfg = INIT + ",!_reg=%d" % reg
            full = m == "gradient_descent"
            one = ",!_n=h_input_set" + ("" if full else ",!C=h_input_set")
            r.append(C + "%s(%d) | %s%s,!B=1 | %s; %s" % (m, na, cfg, one, trainer(rule, reg=reg, p=par), fin))
            if tier == "quick" and rule == "adamax":
                continue
            r.append(C + "%s(%d) | %s%s,!B=2 | %s; %s" % (m, na, cfg, one, trainer(rule, reg=reg, epochs=2, p=par), fin))
            if not full:
                r.append(C + "%s(%d) | %s,!h_input_set=2*C,!_n=2*C,!B=1,?C>=1 | %s; %s" % (m, na, cfg, trainer(rule, reg=reg, batches=2, p=dict(par, S="C")), fin))
    return r


def rows():
    return predictions() + glm_trainers() + linreg()


def expreg():
    C = "MLPPExpReg::"
    cfg = "!_n=%s,!_k=w_input_set,!n_weights=w_input_set,!n_initial=w_input_set,!n_output_set=h_input_set,!n_y_hat=h_input_set"
    r = []
    v = "sum(k,0,nA,_initial[k]*_weights[k]**A[k])+_bias"
    m = "sum(k,0,wA,_initial[k]*_weights[k]**A[i,k])+_bias"
    for n in ("evaluate", "model_"):
        r.append(C + "%s(1) | ?nA==n_weights,?nA==n_initial | ret = %s" % ({"evaluate": "evaluatev", "model_": "model_test"}[n], v))
        r.append(C + "%s(1) | ?wA==n_weights,?wA==n_initial | ret[hA](i) = %s" % ({"evaluate": "evaluatem", "model_": "model_set_test"}[n], m))
    r.append(C + "forward_pass(0) | ?w_input_set==n_weights,?w_input_set==n_initial | _y_hat[h_input_set](i) = sum(k,0,w_input_set,_initial[k]*_weights[k]**_input_set[i,k])+_bias")
    for kind, meth, na in (("full", "gradient_descent", 3), ("sgd", "sgd", 3), ("batch", "mbgd", 4)):
        for reg, ep, nb in ((0, 1, 1), (1, 1, 1), (0, 2, 1), (0, 1, 2)):
            if nb == 2 and kind != "batch":
                continue
            L = ["let w0(i) = _weights[i]", "let c0(i) = _initial[i]", "let b0 = _bias"]
            rows = "h_input_set"
            pin = ",!_reg=%d,!B=%d" % (reg, ep)
            if kind == "batch":
                pin += ",!C=h_input_set" if nb == 1 else ",?C>=1"
                rows = rows if nb == 1 else "2*C"
            s = 0
            for t, q in steps(nb, ep):
                n = s + 1
                row = "rnd%d" % n if kind == "sgd" else "k" if nb == 1 else "k+%d*C" % q
                cnt = "1" if kind == "sgd" else "h_input_set" if nb == 1 else "C"
                L.append("let e%d(k) = sum(p,0,w_input_set,c%d(p)*w%d(p)**_input_set[%s,p])+b%d-_output_set[%s]" % (n, s, s, row, s, row))
                L.append("let r%d(i) = w%d(i)-A*sum(k,0,%s,e%d(k)*c%d(i)*_input_set[%s,i]*w%d(i)**(_input_set[%s,i]-1))/%s" % (n, s, cnt, n, s, row, s, row, cnt))
                L.append("let c%d(i) = c%d(i)-A*sum(k,0,%s,e%d(k)*w%d(i)**_input_set[%s,i])/%s" % (n, s, cnt, n, s, row, cnt))
                L.append("let w%d(i) = r%d(i)-%s" % (n, n, REG[reg].replace("@", "r%d(i)" % n)))
                L.append("let b%d = b%d-A*sum(k,0,%s,e%d(k))/%s" % (n, s, cnt, n, cnt))
                s = n
            fin = "_weights[w_input_set](i) = w%d(i); _initial[w_input_set](i) = c%d(i); _bias = b%d; _y_hat[h_input_set](i) = sum(p,0,w_input_set,c%d(p)*w%d(p)**_input_set[i,p])+b%d" % (s, s, s, s, s, s)
            pre = "!h_input_set=2*C," if nb == 2 else ""
            r.append(C + "%s(%d) | %s%s%s | %s; %s" % (meth, na, pre, cfg % rows, pin, "; ".join(L), fin))
    return r


def softmaxreg():
    C = "MLPPSoftmaxReg::"
    cfg = "!w_output_set=w_weights,!h_weights=w_input_set,!n_bias=w_weights,!h_output_set=h_input_set,!h_y_hat=h_input_set"
    r = []
    lg = "let z(i,j) = sum(k,0,w_input_set,%s*_weights[k,j])+_bias[j]"
    z1 = "let z(j) = sum(k,0,w_input_set,A[k]*_weights[k,j])+_bias[j]; let d = sum(q,0,w_weights,exp(z(q)))"
    z2 = "let z(i,j) = sum(k,0,w_input_set,A[i,k]*_weights[k,j])+_bias[j]"
    for m in ("evaluatev", "model_test"):
        r.append(C + "%s(1) | !nA=w_input_set,%s | %s; ret[w_weights](i) = exp(z(i))/d" % (m, cfg, z1))
    for m in ("evaluatem", "model_set_test"):
        r.append(C + "%s(1) | !wA=w_input_set,%s | %s; ret[hA,w_weights](i,j) = exp(z(i,j))/sum(q,0,w_weights,exp(z(i,q)))" % (m, cfg, z2))
    r.append(C + "forward_pass(0) | %s | %s; _y_hat[h_input_set,w_weights](i,j) = exp(z(i,j))/sum(q,0,w_weights,exp(z(i,q)))" % (cfg, lg % "_input_set[i,k]"))
    for kind, meth, na in (("full", "train_gradient_descent", 3), ("sgd", "train_sgd", 3), ("batch", "train_mbgd", 4)):
        for reg, ep, nb in ((0, 1, 1), (1, 1, 1), (0, 2, 1), (0, 1, 2)):
            if nb == 2 and kind != "batch":
                continue
            L = ["let w0(p,c) = _weights[p,c]", "let b0(c) = _bias[c]"]
            pin = ",!_reg=%d,!B=%d" % (reg, ep)
            if kind == "batch":
                pin += ",!C=h_input_set" if nb == 1 else ",?C>=1"
            s = 0
            for t, q in steps(nb, ep):
                n = s + 1
                row = "rnd%d" % n if kind == "sgd" else "k" if nb == 1 else "k+%d*C" % q
                cnt = "1" if kind == "sgd" else "h_input_set" if nb == 1 else "C"
                L.append("let z%d(k,c) = sum(p,0,w_input_set,_input_set[%s,p]*w%d(p,c))+b%d(c)" % (n, row, s, s))
                L.append("let e%d(k,c) = exp(z%d(k,c))/sum(q,0,w_weights,exp(z%d(k,q)))-_output_set[%s,c]" % (n, n, n, row))
                L.append("let r%d(p,c) = w%d(p,c)-A*sum(k,0,%s,_input_set[%s,p]*e%d(k,c))" % (n, s, cnt, row, n))
                L.append("let w%d(p,c) = r%d(p,c)-%s" % (n, n, REG[reg].replace("@", "r%d(p,c)" % n)))
                L.append("let b%d(c) = b%d(c)-A*sum(k,0,%s,e%d(k,c))" % (n, s, cnt, n))
                s = n
            fin = "_weights[h_weights,w_weights](p,c) = w%d(p,c); _bias[n_bias](c) = b%d(c); let z(i,c) = sum(p,0,w_input_set,_input_set[i,p]*w%d(p,c))+b%d(c); _y_hat[h_input_set,w_weights](i,c) = exp(z(i,c))/sum(q,0,w_weights,exp(z(i,q)))" % (s, s, s, s)
            pre = "!h_input_set=2*C," if nb == 2 else ""
            r.append(C + "%s(%d) | %s%s%s | %s; %s" % (meth, na, pre, cfg, pin, "; ".join(L), fin))
    return r


def dualsvc():
    C = "MLPPDualSVC::"
    cfg = "!n_alpha=h_input_set,!n_output_set=h_input_set,!n_y_hat=h_input_set"
    r = []
    p = "sum(j,0,h_input_set,_alpha[j]*_output_set[j]*sum(k,0,w_input_set,_input_set[j,k]*%s))+_bias"
    v, m, x = p % "A[k]", p % "A[i,k]", p % "_input_set[i,k]"
    r.append(C + "propagatev(1) | !nA=w_input_set,%s | ret = %s" % (cfg, v))
    r.append(C + "propagatem(1) | !wA=w_input_set,%s | ret[hA](i) = %s" % (cfg, m))
    for n in ("evaluatev", "model_test"):
        r.append(C + "%s(1) | !nA=w_input_set,%s | let z = %s; ret = %s" % (n, cfg, v, SIGN.replace("@", "z")))
    for n in ("evaluatem", "model_set_test"):
        r.append(C + "%s(1) | !wA=w_input_set,%s | let z(i) = %s; ret[hA](i) = %s" % (n, cfg, m, SIGN.replace("@", "z(i)")))
    r.append(C + "forward_pass(0) | %s | let z(i) = %s; _z[h_input_set](i) = z(i); _y_hat[h_input_set](i) = %s" % (cfg, x, SIGN.replace("@", "z(i)")))
    r.append(C + "alpha_projection(0) | - | _alpha[n_alpha](i) = (_C if _alpha[i]>_C else 0 if _alpha[i]<0 else _alpha[i])".replace("| - |", "| |"))
    L = ["let a0(i) = _alpha[i]"]
    L.append("let s1(i) = a0(i)-A*(sum(j,0,h_input_set,_output_set[i]*_output_set[j]*sum(k,0,w_input_set,_input_set[i,k]*_input_set[j,k])*a0(j))-1)")
    L.append("let a1(i) = (_C if s1(i)>_C else 0 if s1(i)<0 else s1(i))")
    r.append(C + "gradient_descent(3) | !B=1,%s | %s; _alpha[h_input_set](i) = a1(i); ~_bias; ~_z; ~_y_hat" % (cfg, "; ".join(L)))
    return r


def ctor_rows():
    """what constructing from data and initialising leave behind"""
    U = "u_draw_uniform(0,1,1)"
    X = "_input_set[hA,wA](i,j)=A[i,j]; _output_set[nB](i)=B[i]; "
    XM = "_input_set[hA,wA](i,j)=A[i,j]; _output_set[hB,wB](i,j)=B[i,j]; "
    R = "_reg=C; _lambda=D; _alpha=E; "
    RH = "_reg=D; _lambda=E; _alpha=F; "
    WV = "_y_hat[hA]=any; _weights[wA](i)=%s; " % U
    r = []
    for c, bias, nk, extra in (("LinReg", "_bias", 1, "_initialized=1"), ("LogReg", "_bias", 1, "_initialized=1"), ("CLogLogReg", "bias", 1, "~_z"), ("ExpReg", "_bias", 1, "_initial[wA](i)=" + U),
                               ("ProbitReg", "_bias", 0, "~_z"), ("TanhReg", "_bias", 0, "~_z")):
        r.append("MLPP%s::MLPP%s(5) | ?hA==nB | %s%s%s%s~%s; %s" % (c, c, X, R, WV, "_n=hA; _k=wA; " if nk else "", bias, extra))
    r.append("MLPPSVC::MLPPSVC(3) | ?hA==nB | %s_c=C; %s~_bias; ~_z" % (X, WV))
    S1 = "~_y_hat; _weights[wA,wB](i,j)=%s; _bias[wB](i)=%s" % (U, U)
    r.append("MLPPSoftmaxReg::MLPPSoftmaxReg(5) | ?hA==hB | %s%s%s" % (XM, R, S1.rstrip("; ")))
    S2 = "~_y_hat; _weights1[wA,C](i,j)=%s; _bias1[C](i)=%s; _weights2[C,wB](i,j)=%s; _bias2[wB](i)=%s; ~_z2;~_a2" % (U, U, U, U)
    r.append("MLPPSoftmaxNet::MLPPSoftmaxNet(6) | ?hA==hB,?C>0 | %s_n_hidden=C; %s%s" % (XM, RH, S2))
    r.append("MLPPMLP::MLPPMLP(6) | ?hA==nB,?C>0 | %s_n_hidden=C; %s_n=hA; _k=wA; _y_hat[hA]=any; _weights1[wA,C](i,j)=%s; _weights2[C](i)=%s; _bias1[C](i)=%s; ~_bias2; ~_z2; ~_a2; _initialized=1" % (X, RH, U, U, U))
    r.append("MLPPAutoEncoder::MLPPAutoEncoder(2) | ?B>0 | _input_set[hA,wA](i,j)=A[i,j]; _n_hidden=B; _n=hA; _k=wA; _y_hat[hA,wA]=any; _weights1[wA,B](i,j)=%s; _bias1[B](i)=%s; _weights2[B,wA](i,j)=%s; _bias2[wA](i)=%s; _initialized=1" % (U, U, U, U))
    r.append("MLPPANN::MLPPANN(2) | ?hA==nB | %s_n=hA; _k=wA; _lr_scheduler=0; _decay_constant=0; _drop_rate=0" % X)
    r.append("MLPPMANN::MLPPMANN(2) | ?hA==hB | %s_n=hA; _k=wA; _n_output=wB; _initialized=1" % XM)
    r.append("MLPPWGAN::MLPPWGAN(2) | | _output_set[hB,wB](i,j)=B[i,j]; _k=A; ~_y_hat")
    r.append("MLPPUniLinReg::MLPPUniLinReg(2) | nA==nB | _input_set[nA](i)=A[i]; _output_set[nB](i)=B[i]; let mx=sum(k,0,nA,A[k])/nA; let my=sum(k,0,nA,B[k])/nA; let b=(sum(q,0,nA,(A[q]-mx)*(B[q]-my))/(nA-1))/(sum(q,0,nA,(A[q]-mx)*(A[q]-mx))/(nA-1)); _b1=b; _b0=my-b*mx")
    H = lambda n, f: "_weights[wC,A](i,j)=%s; _bias[A](i)=%s" % (n, U)
    r.append("MLPPHiddenLayer::MLPPHiddenLayer(7) | ?A>0 | _n_hidden=A; _activation=B; _input[hC,wC](i,j)=C[i,j]; _weight_init=D; _reg=E; _lambda=F; _alpha=G; ~_z; ~_a; ~_z_test; ~_a_test; ~_delta; _initialized=1; " + "_weights[wC,A]=any; _bias[A](i)=%s" % U)
    r.append("MLPPOutputLayer::MLPPOutputLayer(8) | ?A>0 | _n_hidden=A; _activation=B; _cost=C; _input[hD,wD](i,j)=D[i,j]; _weight_init=E; _reg=F; _lambda=G; _alpha=H; ~_z; ~_a; ~_z_test; ~_a_test; ~_delta; _initialized=1; _weights[A]=any; ~_bias")
    r.append("MLPPMultiOutputLayer::MLPPMultiOutputLayer(9) | ?A>0,?B>0 | _n_output=A; _n_hidden=B; _activation=C; _cost=D; _input[hE,wE](i,j)=E[i,j]; _weight_init=F; _reg=G; _lambda=H; _alpha=I; ~_z; ~_a; ~_z_test; ~_a_test; ~_delta; _weights[B,A]=any; _bias[A](i)=%s" % U)
    # the same for data set afterwards
    I = "h_input_set==n_output_set"
    for c in ("ProbitReg", "TanhReg", "SVC"):
        r.append("MLPP%s::initialize(0) | ?%s | _y_hat[h_input_set]=any; _weights[w_input_set](i)=%s; ~_bias" % (c, I, U))
    I = "h_input_set==h_output_set"
    r.append("MLPPSoftmaxReg::initialize(0) | ?%s | ~_y_hat; _weights[w_input_set,w_output_set](i,j)=%s; _bias[w_output_set](i)=%s" % (I, U, U))
    r.append("MLPPSoftmaxNet::initialize(0) | ?%s,?_n_hidden>0 | ~_y_hat; _weights1[w_input_set,_n_hidden](i,j)=%s; _bias1[_n_hidden](i)=%s; _weights2[_n_hidden,w_output_set](i,j)=%s; _bias2[w_output_set](i)=%s" % (I, U, U, U, U))
    r.append("MLPPMLP::initialize(0) | !_initialized=0,?h_input_set==n_output_set,?_n_hidden>0 | _n=h_input_set; _k=w_input_set; _y_hat[h_input_set]=any; _weights1[w_input_set,_n_hidden](i,j)=%s; _weights2[_n_hidden](i)=%s; _bias1[_n_hidden](i)=%s; ~_bias2; ~_z2; ~_a2; _initialized=1" % (U, U, U))
    for t, d in (("DEFAULT", U), ("XAVIER_NORMAL", "u_draw_normal(0,sqrt(2/(w_input+_n_hidden)),1)"), ("HE_NORMAL", "u_draw_normal(0,sqrt(2/_n_hidden),1)")):
        r.append("MLPPHiddenLayer::initialize(0) | !_initialized=0,!_weight_init=WEIGHT_DISTRIBUTION_TYPE_%s,?_n_hidden>0 | _weights[w_input,_n_hidden](i,j)=%s; _bias[_n_hidden](i)=%s; _initialized=1" % (t, d, U))
    r.append("MLPPOutputLayer::initialize(0) | !_initialized=0,!_weight_init=WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL,?_n_hidden>0 | _weights[_n_hidden](i)=u_draw_normal(0,sqrt(2/_n_hidden),1); ~_bias; _initialized=1")
    return r
