"""Linear algebra helper library: the same operations as free-standing functions."""


def linalg_rows():
    r = []
    L = "MLPPLinAlg::"
    MM = "hA==hB,wA==wB"
    for n, op in (("additionnm", "A[i,j]+B[i,j]"), ("subtractionnm", "A[i,j]-B[i,j]"), ("hadamard_productnm", "A[i,j]*B[i,j]"), ("division_element_wisenvnm", "A[i,j]/B[i,j]"), ("maxnm", "max(A[i,j],B[i,j])")):
        r.append(L + "%s(2) | %s | ret[hA,wA](i,j) = %s" % (n, MM, op))
    r.append(L + "matmultnm(2) | wA==hB | ret[hA,wB](i,j) = sum(k,0,wA,A[i,k]*B[k,j])")
    r.append(L + "transposenm(1) | | ret[wA,hA](i,j) = A[j,i]")
    r.append(L + "gram_matrix(1) | | ret[wA,wA](i,j) = sum(k,0,hA,A[k,i]*A[k,j])")
    r.append(L + "scalar_multiplynm(2) | | ret[hB,wB](i,j) = A*B[i,j]")
    r.append(L + "scalar_addnm(2) | | ret[hB,wB](i,j) = A+B[i,j]")
    r.append(L + "exponentiatenm(2) | | ret[hA,wA](i,j) = pow(A[i,j],B)")
    r.append(L + "exponentiatenv(2) | | ret[nA](i) = pow(A[i],B)")
    for n, f in (("log", "log(@)"), ("log10", "log10(@)"), ("exp", "exp(@)"), ("erf", "erf(@)"), ("sqrt", "sqrt(@)"), ("cbrt", "pow(@,1/3)"), ("abs", "abs(@)"), ("sin", "sin(@)"), ("cos", "cos(@)")):
        r.append(L + "%snm(1) | | ret[hA,wA](i,j) = %s" % (n, f.replace("@", "A[i,j]")))
        r.append(L + "%s(1) | | ret[nA](i) = %s" % (n + ("nv" if n != "abs" else "v"), f.replace("@", "A[i]")))
    r.append(L + "zeromatnm(2) | ?A>=1,?B>=1 | ret[A,B](i,j) = 0")
    r.append(L + "onematnm(2) | ?A>=1,?B>=1 | ret[A,B](i,j) = 1")
    r.append(L + "fullnm(3) | ?A>=1,?B>=1 | ret[A,B](i,j) = C")
    r.append(L + "identitym(1) | ?A>=1 | ret[A,A](i,j) = 1 if i==j else 0")
    r.append(L + "zerovecnv(1) | ?A>=1 | ret[A](i) = 0")
    r.append(L + "onevecnv(1) | ?A>=1 | ret[A](i) = 1")
    r.append(L + "fullnv(2) | ?A>=1 | ret[A](i) = B")
    r.append(L + "covnm(1) | | ret[hA,hA](i,j) = sum(k,0,wA,(A[i,k]-sum(p,0,wA,A[i,p])/wA)*(A[j,k]-sum(p,0,wA,A[j,p])/wA))/(wA-1)")
    VV = "nA==nB"
    for n, n2, op in (("hadamard_product", "hadamard_productv", "A[i]*B[i]"), ("division_element_wise", None, "A[i]/B[i]"), ("addition", "additionv", "A[i]+B[i]"), ("subtraction", "subtractionv", "A[i]-B[i]")):
        r.append(L + "%snv(2) | %s | ret[nA](i) = %s" % (n, VV, op))
        if n2:
            r.append(L + "%s(3) | %s | C[nA](i) = %s" % (n2, VV, op))
    r.append(L + "maxnvv(2) | %s | ret[nA](i) = max(A[i],B[i])" % VV)
    r.append(L + "scalar_multiplynv(2) | | ret[nB](i) = A*B[i]")
    r.append(L + "scalar_multiplyv(3) | | C[nB](i) = A*B[i]")
    r.append(L + "scalar_addnv(2) | | ret[nB](i) = A+B[i]")
    r.append(L + "scalar_addv(3) | | C[nB](i) = A+B[i]")
    r.append(L + "dotnv(2) | %s | ret = sum(k,0,nA,A[k]*B[k])" % VV)
    r.append(L + "maxvr(1) | | ret = rmax(k,0,nA,A[k])")
    r.append(L + "minvr(1) | | ret = rmin(k,0,nA,A[k])")
    r.append(L + "euclidean_distance(2) | %s | ret = sqrt(sum(k,0,nA,(A[k]-B[k])*(A[k]-B[k])))" % VV)
    r.append(L + "euclidean_distance_squared(2) | %s | ret = sum(k,0,nA,(A[k]-B[k])*(A[k]-B[k]))" % VV)
    r.append(L + "norm_sqv(1) | | ret = sum(k,0,nA,A[k]*A[k])")
    r.append(L + "sum_elementsv(1) | | ret = sum(k,0,nA,A[k])")
    r.append(L + "mat_vec_multnv(2) | nB<=wA | ret[hA](i) = sum(k,0,nB,A[i,k]*B[k])")
    r.append(L + "subtract_matrix_rowsnv(2) | ?nA==wB | ret[nA](i) = A[i]-sum(k,0,hB,B[k,i])")
    r.append(L + "outer_product(2) | | ret[nA,nB](i,j) = A[i]*B[j]")
    r.append(L + "mat_vec_addnm(2) | wA==nB | ret[hA,wA](i,j) = A[i,j]+B[j]")
    r.append(L + "diagnm(1) | | ret[nA,nA](i,j) = A[i] if i==j else 0")
    r.append(L + "flattenvvnv(1) | | ret[hA*wA](i) = A[i//wA,i%wA]")
    r.append(L + "vector_projection(2) | ?nA==nB | ret[nA](i) = A[i]*sum(k,0,nA,A[k]*B[k])/sum(k,0,nA,A[k]*A[k])")
    return r
