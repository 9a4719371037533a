"""Statistics, convolutions, transforms and the smaller models."""
from . import rows_net


def stat_rows():
    S = "MLPPStat::"
    mean = "(sum(k,0,n@,@[k])/n@)"
    mA, mB = mean.replace("@", "A"), mean.replace("@", "B")
    cov = "(sum(q,0,nA,(A[q]-mA)*(B[q]-mB))/(nA-1))"
    var = "(sum(q,0,n@,(@[q]-m@)*(@[q]-m@))/(n@-1))"
    vA, vB = var.replace("@", "A"), var.replace("@", "B")
    ml = "let mA=%s; " % mA
    mlb = ml + "let mB=%s; " % mB
    r = []
    r.append(S + "meanv(1) | | ret = sum(k,0,nA,A[k])/nA")
    r.append(S + "variancev(1) | | %s ret = %s" % (ml, vA))
    r.append(S + "standard_deviationv(1) | | %s ret = sqrt(%s)" % (ml, vA))
    r.append(S + "covariancev(2) | nA==nB | %s ret = %s" % (mlb, cov))
    r.append(S + "correlation(2) | nA==nB | %s ret = %s/(sqrt(%s)*sqrt(%s))" % (mlb, cov, vA, vB))
    r.append(S + "r2(2) | nA==nB | %s let c=%s/(sqrt(%s)*sqrt(%s)); ret = c*c" % (mlb, cov, vA, vB))
    r.append(S + "b1_estimation(2) | nA==nB | %s ret = %s/%s" % (mlb, cov, vA))
    r.append(S + "b0_estimation(2) | nA==nB | %s ret = mB-%s/%s*mA" % (mlb, cov, vA))
    r.append(S + "range(1) | | ret = rmax(k,0,nA,A[k])-rmin(k,0,nA,A[k])")
    r.append(S + "midrange(1) | | ret = (rmax(k,0,nA,A[k])-rmin(k,0,nA,A[k]))/2")
    r.append(S + "abs_avg_deviation(1) | | %s ret = sum(q,0,nA,abs(A[q]-mA))/nA" % ml)
    r.append(S + "chebyshev_ineq(1) | | ret = 1-1/(A*A)")
    r.append(S + "weighted_mean(2) | nA==nB | ret = sum(k,0,nA,A[k]*B[k])/sum(k,0,nA,B[k])")
    r.append(S + "geometric_mean(1) | | ret = pow(prod(k,0,nA,A[k]),1/nA)")
    r.append(S + "harmonic_mean(1) | | ret = nA/sum(k,0,nA,1/A[k])")
    r.append(S + "rms(1) | | ret = sqrt(sum(k,0,nA,A[k]*A[k])/nA)")
    r.append(S + "power_mean(2) | | ret = pow(sum(k,0,nA,pow(A[k],B))/nA,1/B)")
    r.append(S + "lehmer_mean(2) | | ret = sum(k,0,nA,pow(A[k],B))/sum(k,0,nA,pow(A[k],B-1))")
    r.append(S + "weighted_lehmer_mean(3) | nA==nB | ret = sum(k,0,nA,B[k]*pow(A[k],C))/sum(k,0,nA,B[k]*pow(A[k],C-1))")
    r.append(S + "contra_harmonic_mean(1) | | ret = sum(k,0,nA,A[k]*A[k])/sum(k,0,nA,A[k])")
    r.append(S + "heronian_mean(2) | | ret = (A+sqrt(A*B)+B)/3")
    r.append(S + "heinz_mean(3) | | ret = (pow(A,C)*pow(B,1-C)+pow(A,1-C)*pow(B,C))/2")
    r.append(S + "neuman_sandor_mean(2) | | let t=(A-B)/(A+B); ret = (A-B)/2*log(t+sqrt(t*t+1))")
    r.append(S + "stolarsky_mean(3) | | ret = A if A==B else pow((pow(A,C)-pow(B,C))/(C*(A-B)),1/(C-1))")
    r.append(S + "identric_mean(2) | | ret = A if A==B else pow(pow(A,A)/pow(B,B),1/(A-B))/2.7182818284590452354")
    r.append(S + "log_mean(2) | | ret = A if A==B else (B-A)/(log(B)-log(A))")
    r.append("MLPPUniLinReg::model_test(1) | | ret = _b0+_b1*A")
    r.append("MLPPUniLinReg::model_set_test(1) | | ret[nA](i) = _b0+_b1*A[i]")
    r.append("MLPPUniLinReg::train(0) | n_input_set==n_output_set | let mx=sum(k,0,n_input_set,_input_set[k])/n_input_set; let my=sum(k,0,n_input_set,_output_set[k])/n_input_set; let b=(sum(q,0,n_input_set,(_input_set[q]-mx)*(_output_set[q]-my))/(n_input_set-1))/(sum(q,0,n_input_set,(_input_set[q]-mx)*(_input_set[q]-mx))/(n_input_set-1)); _b1 = b; _b0 = my-b*mx")
    return r


def conv_rows(tier="quick"):
    C = "MLPPConvolutions::"
    r = []
    win = "A[i*C+k,j*C+p]"
    sq = "?hA==wA,?hB==wB,?hB<=hA"
    pad = "(0 if (i*C+k-D<0 or j*C+p-D<0 or i*C+k-D>=hA or j*C+p-D>=wA) else A[i*C+k-D,j*C+p-D])"
    r.append(C + "convolve_2d(4) | %s,%%hP=(hA-hB)//wQ+1,!C=wQ,!D=0 | ret[hP,hP](i,j) = sum(k,0,hB,sum(p,0,hB,%s*B[k,p]))" % (sq, win))
    r.append(C + "convolve_2d(4) | %s,%%hP=(hA-hB+2*nQ)//wQ+1,!C=wQ,!D=nQ | ret[hP,hP](i,j) = sum(k,0,hB,sum(p,0,hB,%s*B[k,p]))" % (sq, pad))
    for t, f in (("AVERAGE", "sum(k,0,B,sum(p,0,B,%s))/(B*B)"), ("MIN", "rmin(k,0,B,rmin(p,0,B,%s))"), ("MAX", "rmax(k,0,B,rmax(p,0,B,%s))")):
        r.append(C + "pool_2d(4) | ?hA==wA,?hQ<=hA,%%hP=(hA-hQ)//wQ+1,!B=hQ,!C=wQ,!D=POOL_TYPE_%s | let m=hP; ret[m,m](i,j) = %s" % (t, f % win))
        r.append(C + "pool_3d(4) | ?hA==wA,?hQ<=hA,%%hP=(hA-hQ)//wQ+1,!B=hQ,!C=wQ,!D=POOL_TYPE_%s | let m=hP; ret[zA,m,m](q,i,j) = %s" % (t, f % "A[q,i*C+k,j*C+p]"))
    for t, f in (("AVERAGE", "sum(k,0,hA,sum(p,0,wA,%s))/(hA*wA)"), ("MIN", "rmin(k,0,hA,rmin(p,0,wA,%s))"), ("MAX", "rmax(k,0,hA,rmax(p,0,wA,%s))")):
        r.append(C + "global_pool_2d(2) | !B=POOL_TYPE_%s | ret = %s" % (t, f % "A[k,p]"))
        r.append(C + "global_pool_3d(2) | !B=POOL_TYPE_%s | ret[zA](i) = %s" % (t, f % "A[i,k,p]"))
    r.append(C + "gaussian_2d(3) | | ret = exp(-(A*A+B*B)/(2*C*C))/(2*pi*C*C)")
    r.append(C + "gaussian_filter_2d(2) | ?A>=1 | let x(i)=i-(A-1)//2; ret[A,A](i,j) = exp(-(x(i)*x(i)+x(j)*x(j))/(2*B*B))/(2*pi*B*B)")
    dx = "((A[i,j+1] if j+1<wA else 0)-(A[i,j-1] if j>0 else 0))"
    dy = "((A[i-1,j] if i>0 else 0)-(A[i+1,j] if i+1<hA else 0))"
    r.append(C + "dx(1) | ?wA>=2 | ret[hA,wA](i,j) = %s" % dx)
    r.append(C + "dy(1) | ?hA>=2 | ret[hA,wA](i,j) = %s" % dy)
    r.append(C + "grad_magnitude(1) | ?hA>=2,?wA>=2 | let x(i,j)=%s; let y(i,j)=%s; ret[hA,wA](i,j) = sqrt(x(i,j)*x(i,j)+y(i,j)*y(i,j))" % (dx, dy))
    r.append(C + "grad_orientation(1) | ?hA>=2,?wA>=2 | let x(i,j)=%s; let y(i,j)=%s; ret[hA,wA](i,j) = atan2(y(i,j),x(i,j))" % (dx, dy))
    g = "exp(-((k-1)*(k-1)+(p-1)*(p-1))/2)/(2*pi)"
    P = "(0 if (i+k-1<0 or j+p-1<0 or i+k-1>=hA or j+p-1>=hA) else %s)"
    sm = "sum(k,0,3,sum(p,0,3,%s*%s))" % (P, g)
    i1 = "(i+k-1,j+p-1)"
    if tier == "thorough":
        r.append(C + "compute_m(1) | ?hA>=2,?hA==wA | let x(i,j)=%s; let y(i,j)=%s; ret[3,hA,hA](q,i,j) = %s if q==0 else (%s if q==1 else %s)" % (dx, dy, sm % ("x%s*x%s" % (i1, i1)), sm % ("y%s*y%s" % (i1, i1)), sm % ("x%s*y%s" % (i1, i1))))
    K = lambda n, f: "_%s[3,3](i,j)=%s" % (n, f)
    r.append(C + "MLPPConvolutions(0) | | " + "; ".join([K("prewitt_horizontal", "1-i"), K("prewitt_vertical", "1-j"), K("sobel_horizontal", "(1-i)*(2 if j==1 else 1)"), K("sobel_vertical", "(j-1)*(2 if i==1 else 1)"),
                                                          K("scharr_horizontal", "(1-i)*(10 if j==1 else 3)"), K("scharr_vertical", "(1-j)*(10 if i==1 else 3)"), "_roberts_horizontal[2,2](i,j)=j-i", "_roberts_vertical[2,2](i,j)=1-i-j"]))
    r.append("MLPPTransforms::discrete_cosine_transform(1) | ?hA==wA | let a(i)=sqrt(1/hA) if i==0 else sqrt(2/hA); ret[hA,hA](i,j) = sum(k,0,hA,sum(p,0,hA,(A[k,p]-128)*cos(pi*i*(2*k+1)/(2*hA))*cos(pi*j*(2*p+1)/(2*hA))))*a(i)*a(j)")
    for z, f in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)):
        for d, w in (("%%hP=(hA-%d)//wQ+1,!D=0" % f, "A[t,i*C+k,j*C+p]"),):
            r.append(C + "convolve_3d(4) | !zA=%d,!hB=%d,!wB=%d,?hA==wA,?hB<=hA,!C=wQ,%s,?zB>=zA | let m=hP; ret[zB//zA,m,m](q,i,j) = sum(t,0,%d,sum(k,0,%d,sum(p,0,%d,%s*B[q*%d+t,k,p])))" % (z, f, f, d, z, f, f, w, z))
    return r


def util_rows():
    U = "MLPPUtilities::"
    W = "WEIGHT_DISTRIBUTION_TYPE_"
    r = []
    N = lambda v, f: "u_draw_normal(0,sqrt(%s),%d)" % (v, f)
    F = lambda b, f: "u_draw_uniform(-sqrt(%s),sqrt(%s),%d)" % (b, b, f)
    for nm, par, n, nm1 in (("weight_initializationv", "A[nA](i)", "nA", "(nA+1)"), ("weight_initializationm", "A[hA,wA](i,j)", "wA", "(wA+hA)")):
        for t, e in (("DEFAULT", "u_draw_uniform(0,1,1)"), ("XAVIER_NORMAL", N("2/" + nm1, 1)), ("XAVIER_UNIFORM", F("6/" + nm1, 1)), ("HE_NORMAL", N("2/" + n, 1)), ("HE_UNIFORM", F("6/" + n, 1)),
                     ("LE_CUN_NORMAL", N("1/" + n, 1)), ("LE_CUN_UNIFORM", F("3/" + n, 1)), ("UNIFORM", "u_draw_uniform(-1/sqrt(%s),1/sqrt(%s),1)" % (n, n))):
            r.append(U + "%s(2) | !B=%s%s | %s=%s" % (nm, W, t, par, e))
    r.append(U + "bias_initializationv(1) | | A[nA](i)=u_draw_uniform(0,1,1)")
    r.append(U + "bias_initializationr(0) | | ret=u_draw_uniform(0,1,0)")
    eq = "u_Math__is_equal_approx(u_Math__round(A[%s]),B[%s])"
    r.append(U + "performance_vec(2) | ?nA==nB | ret = sum(k,0,nA,1 if u_Math__is_equal_approx(round(A[k]),B[k]) else 0)/nA")
    r.append(U + "performance(2;(std::vector<float>, std::vector<float>)) | ?nA==nB | ret = sum(k,0,nA,1 if round(A[k])==B[k] else 0)/nA")
    cnt2 = lambda k, q: "hA//%d" % k if q < k - 1 else "z"
    r.append(U + "performance_pool_int_array_vec(2) | ?nA==nB | ret = sum(k,0,nA,1 if A[k]==round(B[k]) else 0)/nA")
    r.append(U + "performance_mat(2) | ?hA==hB,?wA==wB | let m(i)=sum(k,0,wA,1 if u_Math__is_equal_approx(round(A[i,k]),B[i,k]) else 0); ret = sum(i,0,hA,1 if m(i)==wA else 0)/hA")
    cnt = "sum(k,0,nA,1 if A[k]%sB[k] and A[k]%s1 else 0)"
    c = "let tp=%s; let fp=%s; let tn=%s; let fn=%s; " % tuple(cnt % x for x in (("==", "=="), ("!=", "=="), ("==", "!="), ("!=", "!=")))
    r.append(U + "TF_PN(2) | ?nA==nB | %sret_0=tp; ret_1=fp; ret_2=tn; ret_3=fn" % c)
    r.append(U + "recall(2) | ?nA==nB | %sret=tp/(tp+fn)" % c)
    r.append(U + "precision(2) | ?nA==nB | %sret=tp/(tp+fp)" % c)
    r.append(U + "accuracy(2) | ?nA==nB | %sret=(tp+tn)/(tp+fp+fn+tn)" % c)
    r.append(U + "f1_score(2) | ?nA==nB | %slet p=tp/(tp+fp); let q=tp/(tp+fn); ret=2*p*q/(p+q)" % c)
    for k in (1, 2, 3):
        for f, na, parts in (("create_mini_batchesmv", 3, ("input_sets", "output_sets[n]")), ("create_mini_batchesmm", 3, ("input_sets", "output_sets"))):
            o = ["n_ret_%s=%d" % (x.split("[")[0], k) for x in parts]
            for q in range(k):
                for x, src in zip(parts, "AB"):
                    b, v = x.split("[")[0], x.endswith("[n]")
                    o[:0] = ["let z=hA-%d*(hA//%d)" % (k - 1, k)] if len(o) == len(parts) else []
                    o.append("ret_%s%d[%s%s](%s)=%s[%d*(hA//%d)+i%s]" % (b, q, cnt2(k, q), "" if v else ",w" + src, "i" if v else "i,j", src, q, k, "" if v else ",j"))
            r.append(U + "%s(3) | ?hA>=%d,%s,!C=%d | %s" % (f, k, "?hA==nB" if f.endswith("v") else "?hA==hB", k, "; ".join(o)))
        r.append(U + "create_mini_batchesm(2) | ?hA>=%d,!B=%d | let z=hA-%d*(hA//%d); n_ret=%d; " % (k, k, k - 1, k, k) + "; ".join("ret%d[%s,wA](i,j)=A[%d*(hA//%d)+i,j]" % (q, cnt2(k, q), q, k) for q in range(k)))
    return r


def score_rows():
    """score(): the share of a model's stored predictions that round to the target."""
    r = []
    acc = "sum(k,0,n_y_hat,1 if u_Math__is_equal_approx(round(_y_hat[k]),_output_set[k]) else 0)/n_y_hat"
    sz = "!n_y_hat=h_input_set,!n_output_set=h_input_set,!n_weights=w_input_set"
    for c, g in (("LogReg", "!_initialized=true"), ("LinReg", "!_initialized=true"), ("MLP", "!_initialized=true"), ("GaussianNB", "!_initialized=true"), ("CLogLogReg", ""), ("ExpReg", ""), ("DualSVC", ""),
                 ("SVC", sz), ("ProbitReg", sz), ("TanhReg", sz)):
        r.append("MLPP%s::score(0) | ?n_y_hat==n_output_set%s | ret=%s" % (c, "," + g if g else "", acc))
    mat = "let m(i)=sum(k,0,w_y_hat,1 if u_Math__is_equal_approx(round(_y_hat[i,k]),%s[i,k]) else 0); ret=sum(i,0,h_y_hat,1 if m(i)==w_y_hat else 0)/h_y_hat"
    sz = ",!h_y_hat=h_input_set,!h_output_set=h_input_set,!w_output_set=w_y_hat,"
    for c, t, g in (("SoftmaxReg", "_output_set", sz + "!h_weights=w_input_set,!w_weights=w_y_hat,!n_bias=w_y_hat"),
                    ("SoftmaxNet", "_output_set", sz + "!h_weights1=w_input_set,!w_weights1=h_weights2,!_n_hidden=h_weights2,!w_weights2=w_y_hat,!n_bias1=h_weights2,!n_bias2=w_y_hat"), ("AutoEncoder", "_input_set", ",!_initialized=true")):
        r.append("MLPP%s::score(0) | ?h_y_hat==h%s,?w_y_hat==w%s%s | %s" % (c, t, t, g, mat % t))
    for cls, multi in (("MLPPANN", False), ("MLPPMANN", True)):
        for H in (0, 1, 2):
            cfg = rows_net.layers_cfg(H, multi, 1, 1, 0, 0) + (["!_initialized=true", "!h_output_set=h_input_set", "!w_output_set=w_output_layer_weights"] if multi else ["!n_output_set=h_input_set"])
            pre = rows_net.initial(H, multi) + rows_net.net_forward(H, multi, 1, 1, "_input_set[i,p]", "F", 0) + rows_net.net_final(H, multi, 0, False)
            hit = "u_Math__is_equal_approx(round(y_F(%s)),_output_set[%s])"
            if multi:
                pre += ["let m(i)=sum(k,0,w_output_layer_weights,1 if %s else 0)" % (hit % ("i,k", "i,k")), "ret=sum(i,0,h_input_set,1 if m(i)==w_output_layer_weights else 0)/h_input_set"]
            else:
                pre += ["ret=sum(k,0,h_input_set,1 if %s else 0)/h_input_set" % (hit % ("k", "k"))]
            r.append(rows_net.net_row(cls, "score", 0, cfg, pre))
    return r


def score_small():
    """the same shares with the rows and columns taken one by one"""
    r = []
    for n in (1, 2, 3):
        e = "+".join("(1 if u_Math__is_equal_approx(round(A[%d]),B[%d]) else 0)" % (i, i) for i in range(n))
        r.append("MLPPUtilities::performance_vec(2) | !nA=%d,!nB=%d | ret=(%s)/%d" % (n, n, e, n))
    for h, w in ((1, 2), (2, 2), (3, 2), (2, 3)):
        e = "+".join("(1 if %s==%d else 0)" % ("+".join("(1 if u_Math__is_equal_approx(round(A[%d,%d]),B[%d,%d]) else 0)" % (i, k, i, k) for k in range(w)), w) for i in range(h))
        r.append("MLPPUtilities::performance_mat(2) | !hA=%d,!hB=%d,!wA=%d,!wB=%d | ret=(%s)/%d" % (h, h, w, w, e, h))
    return r
