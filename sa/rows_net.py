"""Networks: predictions and training steps, from an arbitrary object state."""
from .rows_model import REG, SIGMOID, steps

HID = "1/(1+exp(-(%s)))"


def forward(c, x, s=None, tag=""):
    """lets z2<tag>(i,j), a2, o2 (before the output function), y"""
    kk = {"A[p]": "nA", "A[i,p]": "wA"}.get(x, "w_input_set")
    one = x == "A[p]"
    i = "" if one else "i,"
    I = "" if one else "(i)"
    w1, b1, w2, b2 = ("_weights1[p,j]", "_bias1[j]", "_weights2[j%s]", "_bias2%s") if s is None else ("w1_%d(p,j)" % s, "b1_%d(j)" % s, "w2_%d(j%%s)" % s, "b2_%d%%s" % s)
    L = ["let xw%s(%sj) = sum(p,0,%s,%s*%s)" % (tag, i, kk, x, w1), "let z2%s(%sj) = xw%s(%sj)+%s" % (tag, i, tag, i, b1), "let a2%s(%sj) = " % (tag, i) + HID % ("z2%s(%sj)" % (tag, i))]
    if c == "MLPPMLP":
        L.append("let s2%s%s = sum(j,0,n_weights2,a2%s(%sj)*%s)" % (tag, I, tag, i, w2 % ""))
        L.append("let o%s%s = s2%s%s+%s" % (tag, I, tag, I, b2 % ""))
        L.append("let y%s%s = %s" % (tag, I, SIGMOID.replace("@", "o%s%s" % (tag, I))))
    else:
        L.append("let s2%s(%sc) = sum(j,0,h_weights2,a2%s(%sj)*%s)" % (tag, i, tag, i, w2 % ",c"))
        L.append("let o%s(%sc) = s2%s(%sc)+%s" % (tag, i, tag, i, b2 % ("[c]" if s is None else "(c)")))
        if c == "MLPPSoftmaxNet":
            L.append("let y%s(%sc) = exp(o%s(%sc))/sum(q,0,w_weights2,exp(o%s(%sq)))" % (tag, i, tag, i, tag, i))
        else:
            L.append("let y%s(%sc) = o%s(%sc)" % (tag, i, tag, i))
    return L


CFG = {
    "MLPPMLP": "!_initialized=true,!_n=h_input_set,!n_output_set=h_input_set,!n_y_hat=h_input_set,!h_weights1=w_input_set,!n_bias1=w_weights1,!n_weights2=w_weights1",
    "MLPPSoftmaxNet": "!_n_hidden=w_weights1,!w_weights2=w_output_set,!h_output_set=h_input_set,!h_y_hat=h_input_set,!h_weights1=w_input_set,!n_bias1=w_weights1,!h_weights2=w_weights1,!n_bias2=w_weights2",
    "MLPPAutoEncoder": "!_initialized=true,!_n=h_input_set,!h_y_hat=h_input_set,!w_y_hat=w_input_set,!h_weights1=w_input_set,!n_bias1=w_weights1,!h_weights2=w_weights1,!w_weights2=w_input_set,!n_bias2=w_input_set",
}
TRAIN = {
    "MLPPMLP": ("gradient_descent", "sgd", "mbgd"),
    "MLPPSoftmaxNet": ("train_gradient_descent", "train_sgd", "train_mbgd"),
    "MLPPAutoEncoder": ("gradient_descent", "sgd", "mbgd"),
}


def predictions():
    r = []
    for c in CFG:
        cfg = CFG[c]
        vec = c == "MLPPMLP"
        for m in ("evaluatev", "model_test"):
            r.append("%s::%s(1) | !nA=w_input_set,%s | %s; %s" % (c, m, cfg, "; ".join(forward(c, "A[p]")), "ret = y" if vec else "ret[w_weights2](c) = y(c)"))
        for m in ("evaluatem", "model_set_test"):
            r.append("%s::%s(1) | !wA=w_input_set,%s | %s; %s" % (c, m, cfg, "; ".join(forward(c, "A[i,p]")), "ret[hA](i) = y(i)" if vec else "ret[hA,w_weights2](i,c) = y(i,c)"))
        r.append("%s::forward_pass(0) | %s | %s; %s" % (c, cfg, "; ".join(forward(c, "_input_set[i,p]")), final(c, None)))
    return r


def final(c, s):
    L = ["_z2[h_input_set,w_weights1](i,j) = z2(i,j)", "_a2[h_input_set,w_weights1](i,j) = a2(i,j)"]
    L.append("_y_hat[h_input_set](i) = y(i)" if c == "MLPPMLP" else "_y_hat[h_input_set,w_weights2](i,c) = y(i,c)")
    if s is not None:
        vec = c == "MLPPMLP"
        L.append("_weights1[h_weights1,w_weights1](p,j) = w1_%d(p,j)" % s)
        L.append("_bias1[w_weights1](j) = b1_%d(j)" % s)
        L.append("_weights2[n_weights2](j) = w2_%d(j)" % s if vec else "_weights2[h_weights2,w_weights2](j,c) = w2_%d(j,c)" % s)
        L.append("_bias2 = b2_%d" % s if vec else "_bias2[n_bias2](c) = b2_%d(c)" % s)
    return "; ".join(L)


def training(tier="quick"):
    r = []
    for c in CFG:
        vec = c == "MLPPMLP"
        target = "_input_set" if c == "MLPPAutoEncoder" else "_output_set"
        for kind, meth in zip(("full", "sgd", "batch"), TRAIN[c]):
            for reg, ep, nb in ((0, 1, 1), (1, 1, 1), (0, 2, 1), (0, 1, 2)):
                if nb == 2 and kind != "batch" or c == "MLPPAutoEncoder" and reg:
                    continue
                if c == "MLPPSoftmaxNet" and (nb == 2 or tier == "quick" and ep == 2):
                    continue
                pin = ",!B=%d" % ep + (",!_reg=REGULARIZATION_TYPE_" + REGNAME[reg] if c != "MLPPAutoEncoder" else "")
                cfg = CFG[c]
                pre = ""
                if kind == "batch":
                    pin += ",!C=h_input_set" if nb == 1 else ",?C>=1"
                    if nb == 2:
                        pre = "!h_input_set=2*C,"
                L = ["let w1_0(p,j) = _weights1[p,j]", "let b1_0(j) = _bias1[j]"]
                L += ["let w2_0(j) = _weights2[j]", "let b2_0 = _bias2"] if vec else ["let w2_0(j,c) = _weights2[j,c]", "let b2_0(c) = _bias2[c]"]
                s = 0
                for t, q in steps(nb, ep):
                    n = s + 1
                    row = "rnd%d" % n if kind == "sgd" else "i" if nb == 1 else "i+%d*C" % q
                    cnt = "1" if kind == "sgd" else "h_input_set" if nb == 1 else "C"
                    d = cnt if c != "MLPPSoftmaxNet" else "1"
                    R = REG[reg]
                    L += forward(c, "_input_set[%s,p]" % row, s, "_%d" % n)
                    f = dict(n=n, s=s, row=row, d=d, t=target, S="(" if kind == "sgd" else "sum(i,0,%s," % cnt)
                    if vec:
                        T = ["let e_{n}(i) = y_{n}(i)-{t}[{row}]", "let g2_{n}(j) = {S}a2_{n}(i,j)*e_{n}(i))", "let h2_{n}(j) = A*g2_{n}(j)/{d}",
                             "let r2_{n}(j) = w2_{s}(j)-h2_{n}(j)", "let w2_{n}(j) = r2_{n}(j)-" + R.replace("@", "r2_{n}(j)"), "let b2_{n} = b2_{s}-A*{S}e_{n}(i))/{d}",
                             "let u_{n}(i,j) = e_{n}(i)*w2_{s}(j)"]
                    else:
                        T = ["let e_{n}(i,c) = y_{n}(i,c)-{t}[{row},c]", "let g2_{n}(j,c) = {S}a2_{n}(i,j)*e_{n}(i,c))", "let h2_{n}(j,c) = A*g2_{n}(j,c)/{d}",
                             "let r2_{n}(j,c) = w2_{s}(j,c)-h2_{n}(j,c)", "let w2_{n}(j,c) = r2_{n}(j,c)-" + R.replace("@", "r2_{n}(j,c)"), "let b2_{n}(c) = b2_{s}(c)-A*{S}e_{n}(i,c))/{d}",
                             "let u_{n}(i,j) = sum(c,0,w_weights2,e_{n}(i,c)*w2_{s}(j,c))"]
                    T += ["let d_{n}(i,j) = u_{n}(i,j)*a2_{n}(i,j)*(1-a2_{n}(i,j))", "let g1_{n}(p,j) = {S}_input_set[{row},p]*d_{n}(i,j))", "let h1_{n}(p,j) = A*g1_{n}(p,j)/{d}",
                          "let r1_{n}(p,j) = w1_{s}(p,j)-h1_{n}(p,j)", "let w1_{n}(p,j) = r1_{n}(p,j)-" + R.replace("@", "r1_{n}(p,j)"), "let b1_{n}(j) = b1_{s}(j)-A*{S}d_{n}(i,j))/{d}"]
                    L += [x.format(**f) for x in T]
                    if kind == "sgd":       # one sample: no sample index
                        L = [x.replace("(i,", "(").replace("(i)", "") for x in L]
                    s = n
                L += forward(c, "_input_set[i,p]", s)
                r.append("%s::%s(%d) | %s%s%s | %s; %s" % (c, meth, 4 if kind == "batch" else 3, pre, cfg, pin, "; ".join(L), final(c, s)))
    return r


# ------------------------------------------------------------------ networks with a list of layers
DSIG = "(1/(1+exp(-(@))))*(1-1/(1+exp(-(@))))"
# activation code -> value, derivative (of the pre-activation @)
ACT = {0: ("@", "1"), 1: (SIGMOID, DSIG)}
# cost code -> derivative at prediction @ and target #
COST = {0: "(@-#)", 4: "(-#/@+(1-#)/(1-@))"}
ACTNAME = {0: "LINEAR", 1: "SIGMOID", "softmax": "SOFTMAX"}
COSTNAME = {0: "MSE", 4: "LOGISTIC_LOSS", 5: "CROSS_ENTROPY", 7: "WASSERSTEIN_LOSS"}
REGNAME = {0: "NONE", 1: "RIDGE"}


def act(a):
    return "ACTIVATION_FUNCTION_" + ACTNAME[a]


def layers_cfg(H, multi, hact, oact, cost, reg, rows="h_input_set"):
    c = ["!n_network=%d" % H]
    prev = "w_input_set"
    for k in range(H):
        c += ["!_network%d_initialized=true" % k, "!_network%d_activation=%s" % (k, act(hact)), "!_network%d_reg=REGULARIZATION_TYPE_%s" % (k, REGNAME[reg]), "!h_network%d_weights=%s" % (k, prev), "!n_network%d_bias=w_network%d_weights" % (k, k)]
        prev = "w_network%d_weights" % k
    c += ["!_output_layer_initialized=true", "!_output_layer_activation=" + act(oact), "!_output_layer_reg=REGULARIZATION_TYPE_" + REGNAME[reg], "!_output_layer_cost=COST_TYPE_" + COSTNAME[cost]]
    c += ["!h_output_layer_weights=" + prev, "!n_output_layer_bias=w_output_layer_weights"] if multi else ["!n_output_layer_weights=" + prev]
    return c


def layer_width(k):
    return "w_input_set" if k == 0 else "w_network%d_weights" % (k - 1)


def initial(H, multi):
    L = []
    for k in range(H):
        L += ["let W%d_0(p,j) = _network%d_weights[p,j]" % (k, k), "let c%d_0(j) = _network%d_bias[j]" % (k, k)]
    return L + (["let V_0(p,c) = _output_layer_weights[p,c]", "let d_0(c) = _output_layer_bias[c]"] if multi else ["let V_0(p) = _output_layer_weights[p]", "let d_0 = _output_layer_bias"])


def net_forward(H, multi, hact, oact, x, n, s, one=False):
    """lets x<k>_n, z<k>_n, a<k>_n, xo_n, zo_n, y_n of the network in state s on input cells x (sample i, feature p)"""
    L, src, wid = [], x, "n" + x[0] if one and x[0].isupper() else "w_" + x.split("[")[0].lstrip("_") if not x[0].isupper() else "w" + x[0]
    f = dict(n=n, s=s)
    for k in range(H):
        f.update(k=k, src=src, w=wid)
        L += [t.format(**f) for t in ("let x{k}_{n}(i,j) = sum(p,0,{w},{src}*W{k}_{s}(p,j))", "let z{k}_{n}(i,j) = x{k}_{n}(i,j)+c{k}_{s}(j)")]
        L.append("let a%d_%s(i,j) = %s" % (k, n, ACT[hact][0].replace("@", "z%d_%s(i,j)" % (k, n))))
        src, wid = "a%d_%s(i,p)" % (k, n), "w_network%d_weights" % k
    f.update(src=src, w=wid)
    c = ",c" if multi else ""
    L.append("let xo_{n}(i{c}) = sum(p,0,{w},{src}*V_{s}(p{c}))".format(c=c, **f))
    L.append("let zo_{n}(i{c}) = xo_{n}(i{c})+d_{s}{d}".format(c=c, d="(c)" if multi else "", **f))
    y = ACT[oact][0].replace("@", "zo_%s(i%s)" % (n, c)) if oact != "softmax" else "exp(zo_%s(i,c))/sum(q,0,w_output_layer_weights,exp(zo_%s(i,q)))" % (n, n)
    L.append("let y_%s(i%s) = %s" % (n, c, y))
    return unsample(L) if one else L


def unsample(L):
    return [x.replace("(i,", "(").replace("(i)", "") for x in L]


UPD = {   # optimiser -> state lets and the update direction u of gradient G at cell @
    "gd": ([], "{q}*G{n}(@)"),
    "momentum": (["let o{v}v_{n}(@) = {g}*o{v}v_{s}(@)+{q}*G{n}(@)"], "o{v}v_{n}(@)"),
    "adagrad": (["let o{v}v_{n}(@) = o{v}v_{s}(@)+G{n}(@)**2"], "{q}*(G{n}(@)/({e}+sqrt(o{v}v_{n}(@))))"),
    "adadelta": (["let o{v}v_{n}(@) = {b1}*o{v}v_{s}(@)+(1-{b1})*G{n}(@)**2"], "{q}*(G{n}(@)/({e}+sqrt(o{v}v_{n}(@))))"),
    "adam": (["let o{v}m_{n}(@) = {b1}*o{v}m_{s}(@)+(1-{b1})*G{n}(@)", "let o{v}v_{n}(@) = {b2}*o{v}v_{s}(@)+(1-{b2})*G{n}(@)**2"], "{q}*(o{v}m_{n}(@)/(1-{b1}**{t})/({e}+sqrt(o{v}v_{n}(@)/(1-{b2}**{t}))))"),
    "adamax": (["let o{v}m_{n}(@) = {b1}*o{v}m_{s}(@)+(1-{b1})*G{n}(@)", "let o{v}v_{n}(@) = max({b2}*o{v}v_{s}(@),abs(G{n}(@)))"], "{q}*(o{v}m_{n}(@)/(1-{b1}**{t})/({e}+o{v}v_{n}(@)))"),
    "nadam": (["let o{v}m_{n}(@) = {b1}*o{v}m_{s}(@)+(1-{b1})*G{n}(@)", "let o{v}v_{n}(@) = {b2}*o{v}v_{s}(@)+(1-{b2})*G{n}(@)**2"],
              "{q}*(({b1}*o{v}m_{n}(@)/(1-{b1}**{t})+(1-{b1})/(1-{b1}**{t})*G{n}(@))/({e}+sqrt(o{v}v_{n}(@)/(1-{b2}**{t}))))"),
    "amsgrad": (["let o{v}m_{n}(@) = {b1}*o{v}m_{s}(@)+(1-{b1})*G{n}(@)", "let o{v}v_{n}(@) = {b2}*o{v}v_{s}(@)+(1-{b2})*G{n}(@)**2", "let o{v}x_{n}(@) = max(o{v}x_{s}(@),o{v}v_{n}(@))"],
                "{q}*(o{v}m_{n}(@)/({e}+sqrt(o{v}x_{n}(@))))"),
}


def net_step(H, multi, hact, oact, cost, reg, n, s, t, row, cnt, upd, par, lr, regstep=False):
    """lets of one step from state s to state n"""
    c = ",c" if multi else ""
    R = "0" if not reg or regstep else "{l}_lambda*{w}"
    L = net_forward(H, multi, hact, oact, "_input_set[%s,p]" % row, n, s)
    Y = "_output_set[%s%s]" % (row, c)
    if oact == "softmax":
        L.append("let eo_%d(i,c) = y_%d(i,c)-%s" % (n, n, Y))
    else:
        L.append("let eo_%d(i%s) = %s*(%s)" % (n, c, COST[cost].replace("@", "y_%d(i%s)" % (n, c)).replace("#", Y), ACT[oact][1].replace("@", "zo_%d(i%s)" % (n, c))))
    src = lambda k: "_input_set[%s,p]" % row if k == 0 else "a%d_%d(i,p)" % (k - 1, n)
    G = []                                        # name, indices, gradient, weights
    L.append("let so_%d(p%s) = sum(i,0,%s,%s*eo_%d(i%s))" % (n, c, cnt, src(H), n, c))
    G.append(("o", "p" + c, "so_%d(p%s)" % (n, c), "V", R.format(l="_output_layer", w="V_%d(p%s)" % (s, c)), "_output_layer"))
    for k in range(H - 1, -1, -1):
        if k == H - 1:
            up = "sum(c,0,w_output_layer_weights,eo_%d(i,c)*V_%d(j,c))" % (n, s) if multi else "eo_%d(i)*V_%d(j)" % (n, s)
        else:
            up = "sum(q,0,w_network%d_weights,e%d_%d(i,q)*W%d_%d(j,q))" % (k + 1, k + 1, n, k + 1, s)
        L.append("let u%d_%d(i,j) = %s" % (k, n, up))
        L.append("let e%d_%d(i,j) = u%d_%d(i,j)*(%s)" % (k, n, k, n, ACT[hact][1].replace("@", "z%d_%d(i,j)" % (k, n))))
        L.append("let s%d_%d(p,j) = sum(i,0,%s,%s*e%d_%d(i,j))" % (k, n, cnt, src(k), k, n))
        G.append((str(k), "p,j", "s%d_%d(p,j)" % (k, n), "W%d" % k, R.format(l="_network%d" % k, w="W%d_%d(p,j)" % (k, s)), "_network%d" % k))
    q = "%s/_n" % lr
    st, u = UPD[upd]
    for v, ix, g, w, r, lay in G:
        gn = "g%s_" % v
        L.append("let %s%d(%s) = %s+%s" % (gn, n, ix, g, r))
        f = dict(par, v=v, n=n, s=s, t=t, q=q)
        for x in st:
            L.append(x.replace("G{n}", gn + "{n}").format(**f).replace("@", ix))
        L.append("let h%s_%d(%s) = %s" % (v, n, ix, u.replace("G{n}", gn + "{n}").format(**f).replace("@", ix)))
        if regstep and reg:
            L.append("let r%s_%d(%s) = %s_%d(%s)-h%s_%d(%s)" % (v, n, ix, w, s, ix, v, n, ix))
            L.append("let %s_%d(%s) = r%s_%d(%s)-%s_lambda*r%s_%d(%s)" % (w, n, ix, v, n, ix, lay, v, n, ix))
        else:
            L.append("let %s_%d(%s) = %s_%d(%s)-h%s_%d(%s)" % (w, n, ix, w, s, ix, v, n, ix))
    L.append("let d_%d(c) = d_%d(c)-sum(i,0,%s,%s*eo_%d(i,c))" % (n, s, cnt, q, n) if multi else "let d_%d = d_%d-%s*sum(i,0,%s,eo_%d(i))/_n" % (n, s, lr, cnt, n))
    for k in range(H):
        L.append("let c%d_%d(j) = c%d_%d(j)-sum(i,0,%s,%s*e%d_%d(i,j))" % (k, n, k, s, cnt, q, k, n))
    return L


def net_final(H, multi, s, trained=True, x="_input_set", yh=True):
    """final state: parameters of state s, the layers' working values of state s on x"""
    L = []
    for k in range(H):
        if trained:
            L += ["_network%d_weights[h_network%d_weights,w_network%d_weights](p,j) = W%d_%d(p,j)" % (k, k, k, k, s), "_network%d_bias[n_network%d_bias](j) = c%d_%d(j)" % (k, k, k, s)]
        L += ["~_network%d_%s" % (k, f) for f in ("z", "a", "input", "delta")]
    if trained:
        L += ["_output_layer_weights[h_output_layer_weights,w_output_layer_weights](p,c) = V_%d(p,c)" % s, "_output_layer_bias[n_output_layer_bias](c) = d_%d(c)" % s] if multi else ["_output_layer_weights[n_output_layer_weights](p) = V_%d(p)" % s, "_output_layer_bias = d_%d" % s]
    L += ["~_output_layer_%s" % f for f in ("z", "a", "input", "delta")]
    if yh:
        L.append("_y_hat[h_input_set,w_output_layer_weights](i,c) = y_F(i,c)" if multi else "_y_hat[h_input_set](i) = y_F(i)")
    return L


def net_row(cls, meth, nargs, cfg, L):
    return "%s::%s(%d) | %s | %s" % (cls, meth, nargs, ",".join(cfg), "; ".join(L))


def layer_predictions():
    r = []
    for cls, multi in (("MLPPANN", False), ("MLPPMANN", True)):
        acts = ((1, 0), (1, 1), (0, 1)) if not multi else ((1, 0), (1, "softmax"))
        for H in (0, 1, 2):
            for ha, oa in acts:
                if H == 0 and ha == 0:
                    continue
                cfg = layers_cfg(H, multi, ha, oa, 0, 0) + (["!_initialized=true"] if multi else [])
                I = initial(H, multi)
                r.append(net_row(cls, "forward_pass", 0, cfg, I + net_forward(H, multi, ha, oa, "_input_set[i,p]", "F", 0) + net_final(H, multi, 0, False)))
                ret = "ret[hA,w_output_layer_weights](i,c) = y_F(i,c)" if multi else "ret[hA](i) = y_F(i)"
                r.append(net_row(cls, "model_set_test", 1, ["!wA=w_input_set"] + cfg, I + net_forward(H, multi, ha, oa, "A[i,p]", "F", 0) + net_final(H, multi, 0, False, yh=False) + [ret]))
                ret = "ret[w_output_layer_weights](c) = y_F(c)" if multi else "ret = y_F"
                free = ["~_network%d_%s_test" % (k, f) for k in range(H) for f in "za"] + ["~_output_layer_%s_test" % f for f in "za"]
                r.append(net_row(cls, "model_test", 1, ["!nA=w_input_set"] + cfg, I + net_forward(H, multi, ha, oa, "A[p]", "F", 0, True) + free + [ret]))
    return r


def ann_training(tier="quick"):
    r = []
    OPT = [("gradient_descent", 3, "full", "gd", {}), ("sgd", 3, "sgd", "gd", {}), ("mbgd", 4, "batch", "gd", {}), ("momentum", 6, "batch", "momentum", {"g": "D"}), ("adagrad", 5, "batch", "adagrad", {"e": "D"}),
           ("adadelta", 6, "batch", "adadelta", {"b1": "D", "e": "E"})] + [(m, 7, "batch", m, {"b1": "D", "b2": "E", "e": "F"}) for m in ("adam", "adamax", "nadam", "amsgrad")]
    for meth, na, kind, upd, par in OPT:
        for H, ha, oa, cost, reg, ep in ((0, 1, 0, 0, 0, 1), (1, 1, 0, 0, 1, 1), (2, 1, 0, 0, 0, 1), (1, 1, 0, 0, 0, 2), (1, 1, 1, 4, 0, 1)):
            if upd not in ("gd", "momentum", "adagrad") and (cost or tier == "quick" and ep == 2 and upd != "adam"):
                continue
            if upd == "adamax" and (ep == 2 or tier == "quick" and H == 2):
                continue
            cfg = layers_cfg(H, False, ha, oa, cost, reg) + ["!_n=h_input_set", "!n_output_set=h_input_set", "!n_y_hat=h_input_set", "!_lr_scheduler=SCHEDULER_TYPE_NONE", "!B=%d" % ep]
            if kind == "batch":
                cfg.append("!C=h_input_set")
            if upd == "momentum":
                cfg.append("!E=false")
            L = initial(H, False)
            for v, ix in [("o", "p")] + [(str(k), "p,j") for k in range(H)]:
                if UPD[upd][0]:
                    L += ["let o%s%s_0(%s) = 0" % (v, x, ix) for x in "mvx"]
            for t in range(1, ep + 1):
                lets = net_step(H, False, ha, oa, cost, reg, t, t - 1, t, "rnd%d" % t if kind == "sgd" else "i", "1" if kind == "sgd" else "h_input_set", upd, par, "A")
                L += lets
            L += net_forward(H, False, ha, oa, "_input_set[i,p]", "F", ep)
            r.append(net_row("MLPPANN", meth, na, cfg, L + net_final(H, False, ep)))
    return r


def mann_training(tier="quick"):
    r = []
    for H, ha, oa, cost, reg, ep in ((0, 1, 0, 0, 0, 1), (1, 1, 0, 0, 1, 1), (2, 1, 0, 0, 0, 1), (1, 1, 0, 0, 0, 2), (1, 1, "softmax", 5, 0, 1), (0, 1, "softmax", 5, 1, 1)):
        cfg = layers_cfg(H, True, ha, oa, cost, reg) + ["!_initialized=true", "!_n=h_input_set", "!h_output_set=h_input_set", "!w_output_set=w_output_layer_weights", "!h_y_hat=h_input_set", "!w_y_hat=w_output_layer_weights", "!B=%d" % ep]
        L = initial(H, True)
        for t in range(1, ep + 1):
            L += net_step(H, True, ha, oa, cost, reg, t, t - 1, t, "i", "h_input_set", "gd", {}, "A", True)
        L += net_forward(H, True, ha, oa, "_input_set[i,p]", "F", ep)
        r.append(net_row("MLPPMANN", "gradient_descent", 3, cfg, L + net_final(H, True, ep)))
    return r


# ------------------------------------------------------------------ single layers, costs, schedules
def layer_rows():
    r = []
    for cls, oacts in (("MLPPHiddenLayer", (0, 1, "softmax")), ("MLPPMultiOutputLayer", (0, 1, "softmax")), ("MLPPOutputLayer", (0, 1))):
        for a in oacts:
            cfg = "!_initialized=true,!_activation=" + act(a)
            if cls == "MLPPOutputLayer":
                z, zt = "sum(p,0,w_input,_input[i,p]*_weights[p])+_bias", "sum(p,0,nA,A[p]*_weights[p])+_bias"
                r.append("%s::forward_pass(0) | !n_weights=w_input,%s | let z(i) = %s; _z[h_input](i) = z(i); _a[h_input](i) = %s" % (cls, cfg, z, ACT[a][0].replace("@", "z(i)")))
                r.append("%s::test(1) | !n_weights=nA,%s | let z = %s; _z_test = z; _a_test = %s" % (cls, cfg, zt, ACT[a][0].replace("@", "z")))
                continue
            z, zt = "sum(p,0,w_input,_input[i,p]*_weights[p,j])+_bias[j]", "sum(p,0,nA,A[p]*_weights[p,j])+_bias[j]"
            e = "exp(z(i,j))/sum(q,0,w_weights,exp(z(i,q)))" if a == "softmax" else ACT[a][0].replace("@", "z(i,j)")
            et = "exp(z(j))/sum(q,0,w_weights,exp(z(q)))" if a == "softmax" else ACT[a][0].replace("@", "z(j)")
            r.append("%s::forward_pass(0) | !h_weights=w_input,!n_bias=w_weights,%s | let z(i,j) = %s; _z[h_input,w_weights](i,j) = z(i,j); _a[h_input,w_weights](i,j) = %s" % (cls, cfg, z, e))
            r.append("%s::test(1) | !h_weights=nA,!n_bias=w_weights,%s | let z(j) = %s; _z_test[w_weights](j) = z(j); _a_test[w_weights](j) = %s" % (cls, cfg, zt, et))
    return r


def cost_rows():
    r = []
    for cls, multi, low in (("MLPPANN", False, 0), ("MLPPMANN", True, 0), ("MLPPWGAN", False, 0)):
        for H in (0, 1, 2):
            for cost in (0, 7):
                if H == 0 and cls == "MLPPWGAN":
                    continue
                c = ["!n_network=%d" % H, "!_output_layer_reg=REGULARIZATION_TYPE_RIDGE", "!_output_layer_cost=COST_TYPE_" + COSTNAME[cost]] + ["!_network%d_reg=REGULARIZATION_TYPE_RIDGE" % k for k in range(H)]
                c += ["!hB=hA", "!wB=wA"] if multi else ["!nB=nA"]
                at = "k,l" if multi else "k"
                e = "(A[{0}]-B[{0}])*(A[{0}]-B[{0}])/2" if cost == 0 else "-A[{0}]*B[{0}]"
                t = ("sum(k,0,hA,sum(l,0,wA,%s))/(hA*wA)" if multi else "sum(k,0,nA,%s)/nA") % e.format(at)
                w = ["_network%d" % k for k in range(H)]
                for x in w:
                    t += "+%s_lambda/2*sum(p,0,h%s_weights,sum(q,0,w%s_weights,%s_weights[p,q]*%s_weights[p,q]))" % (x, x, x, x, x)
                o = "_output_layer"
                t += "+%s_lambda/2*" % o + ("sum(p,0,h_output_layer_weights,sum(q,0,w_output_layer_weights,%s_weights[p,q]*%s_weights[p,q]))" if multi else "sum(p,0,n_output_layer_weights,%s_weights[p]*%s_weights[p])") % (o, o)
                r.append("%s::cost(2) | %s | ret = %s" % (cls, ",".join(c), t))
    return r


def schedule_rows():
    s = "MLPPANN::apply_learning_rate_scheduler(4) | !_lr_scheduler=SCHEDULER_TYPE_"
    return [s + x for x in ("NONE | ret = A", "STEP | ret = A*pow(B,trunc((1+C)/D))", "TIME | ret = A/(1+B*C)", "EPOCH | ret = A*(B/sqrt(C))", "EXPONENTIAL | ret = A*exp(-B*C)")]


def wgan_rows():
    r = []
    for H in (3, 4, 5):
        mid = H // 2
        base = layers_cfg(H, False, 1, 0, 7, 0)
        I = initial(H, False)
        # generator: layers 0..mid
        cfg = ["!wA=h_network0_weights"] + [c for c in base if not c.startswith("!h_network0_w")]
        L, src, wid = [], "A[i,p]", "wA"
        free = []
        for k in range(mid + 1):
            L.append("let z%d(i,j) = sum(p,0,%s,%s*W%d_0(p,j))+c%d_0(j)" % (k, wid, src, k, k))
            L.append("let a%d(i,j) = %s" % (k, SIGMOID.replace("@", "z%d(i,j)" % k)))
            src, wid = "a%d(i,p)" % k, "w_network%d_weights" % k
            free += ["~_network%d_%s" % (k, f) for f in ("z", "a", "input")]
        r.append(net_row("MLPPWGAN", "model_set_test_generator", 1, cfg, I + L + free + ["ret[hA,w_network%d_weights](i,j) = a%d(i,j)" % (mid, mid)]))
        # discriminator: the rest
        cfg = ["!wA=h_network%d_weights" % (mid + 1)] + [c for c in base if not c.startswith("!h_network%d_w" % (mid + 1)) and not c.startswith("!h_network0_w")]
        L, src, wid, free = [], "A[i,p]", "wA", []
        for k in range(mid + 1, H):
            L.append("let z%d(i,j) = sum(p,0,%s,%s*W%d_0(p,j))+c%d_0(j)" % (k, wid, src, k, k))
            L.append("let a%d(i,j) = %s" % (k, SIGMOID.replace("@", "z%d(i,j)" % k)))
            src, wid = "a%d(i,p)" % k, "w_network%d_weights" % k
            free += ["~_network%d_%s" % (k, f) for f in ("z", "a", "input")]
        free += ["~_output_layer_%s" % f for f in ("z", "a", "input")]
        r.append(net_row("MLPPWGAN", "model_set_test_discriminator", 1, cfg, I + L + free + ["ret[hA](i) = sum(p,0,%s,%s*V_0(p))+d_0" % (wid, src)]))
    return r
