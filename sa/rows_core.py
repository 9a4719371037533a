"""What the container operations compute, stated from their names and documentation."""


class Fam:
    def __init__(self, cls, letter_dims):
        self.cls = cls
        self.ld = letter_dims     # e.g. ("n",) ("h","w") ("z","h","w")
        self.vs = ("i", "j", "k")[: len(letter_dims)]

    def dims(self, x):
        return ",".join(d + x for d in self.ld)

    def at(self, x):
        return "%s[%s]" % (x, ",".join(self.vs))

    def lhs(self, out, x):
        return "%s[%s](%s)" % (out, self.dims(x), ",".join(self.vs))

    def same(self, a, b):
        return ",".join("%s%s==%s%s" % (d, a, d, b) for d in self.ld)


def unary(F, name, f, out):
    """X(), Xn(), Xb(a)"""
    out.append("%s::%s(0) | | %s = %s" % (F.cls, name, F.lhs("M", "M"), f(F.at("M"))))
    out.append("%s::%sn(0) | | %s = %s" % (F.cls, name, F.lhs("ret", "M"), f(F.at("M"))))
    out.append("%s::%sb(1) | | %s = %s" % (F.cls, name, F.lhs("M", "A"), f(F.at("A"))))


def binary(F, name, f, out, resb=True):
    """X(b), Xn(b), Xb(a,b)"""
    out.append("%s::%s(1) | %s | %s = %s" % (F.cls, name, F.same("A", "M"), F.lhs("M", "M"), f(F.at("M"), F.at("A"))))
    out.append("%s::%sn(1) | %s | %s = %s" % (F.cls, name, F.same("A", "M"), F.lhs("ret", "M"), f(F.at("M"), F.at("A"))))
    out.append("%s::%sb(2) | %s | %s = %s" % (F.cls, name, F.same("A", "B"), F.lhs("M", "A"), f(F.at("A"), F.at("B"))))


def scalar(F, name, f, out, sfirst=True):
    out.append("%s::%s(1) | | %s = %s" % (F.cls, name, F.lhs("M", "M"), f(F.at("M"), "A")))
    out.append("%s::%sn(1) | | %s = %s" % (F.cls, name, F.lhs("ret", "M"), f(F.at("M"), "A")))
    if sfirst:
        out.append("%s::%sb(2) | | %s = %s" % (F.cls, name, F.lhs("M", "B"), f(F.at("B"), "A")))
    else:
        out.append("%s::%sb(2) | | %s = %s" % (F.cls, name, F.lhs("M", "A"), f(F.at("A"), "B")))


V = Fam("MLPPVector", ("n",))
M = Fam("MLPPMatrix", ("h", "w"))
T = Fam("MLPPTensor3", ("z", "h", "w"))


def elementwise():
    r = []
    for F in (V, M, T):
        vm = F is not T
        binary(F, "add", lambda a, b: "%s + %s" % (a, b), r)
        binary(F, "sub", lambda a, b: "%s - %s" % (a, b), r)
        binary(F, "hadamard_product", lambda a, b: "%s * %s" % (a, b), r)
        binary(F, "division_element_wise", lambda a, b: "%s / %s" % (a, b), r)
        binary(F, "max", lambda a, b: "max(%s, %s)" % (a, b), r)
        if vm:
            binary(F, "min", lambda a, b: "min(%s, %s)" % (a, b), r)
        scalar(F, "scalar_multiply", lambda x, s: "%s * %s" % (x, s), r)
        scalar(F, "scalar_add", lambda x, s: "%s + %s" % (x, s), r)
        scalar(F, "exponentiate", lambda x, p: "pow(%s, %s)" % (x, p), r, False)
        unary(F, "sqrt", lambda x: "sqrt(%s)" % x, r)
        unary(F, "abs", lambda x: "abs(%s)" % x, r)
        if vm:
            for n in ("log", "log10", "exp", "erf", "sin", "cos"):
                unary(F, n, lambda x, n=n: "%s(%s)" % (n, x), r)
            unary(F, "cbrt", lambda x: "pow(%s, 1.0/3)" % x, r)
    r += [
        "MLPPVector::invert(0) | | M[nM](i) = M[nM-1-i]",
        "MLPPVector::fill(1) | | M[nM](i) = A",
        "MLPPMatrix::fill(1) | | M[hM,wM](i,j) = A",
        "MLPPTensor3::fill(1) | | M[zM,hM,wM](i,j,k) = A",
    ]
    return r


def products():
    return [
        # vectors
        "MLPPVector::dot(1) | nA==nM | ret = sum(k,0,nM, M[k]*A[k])",
        "MLPPVector::norm_sq(0) | | ret = sum(k,0,nM, M[k]*M[k])",
        "MLPPVector::norm_2(0) | | ret = sqrt(sum(k,0,nM, M[k]*M[k]))",
        "MLPPVector::sum_elements(0) | | ret = sum(k,0,nM, M[k])",
        "MLPPVector::euclidean_distance(1) | nA==nM | ret = sqrt(sum(k,0,nM, (M[k]-A[k])*(M[k]-A[k])))",
        "MLPPVector::euclidean_distance_squared(1) | nA==nM | ret = sum(k,0,nM, (M[k]-A[k])*(M[k]-A[k]))",
        "MLPPVector::max_element(0) | | ret = rmax(k,0,nM, M[k])",
        "MLPPVector::min_element(0) | | ret = rmin(k,0,nM, M[k])",
        "MLPPVector::max_element_index(0) | | ret = argmax(k,0,nM, M[k])",
        "MLPPVector::min_element_index(0) | | ret = argmin(k,0,nM, M[k])",
        "MLPPVector::outer_product(1) | | ret[nM,nA](i,j) = M[i]*A[j]",
        "MLPPVector::diagnm(0) | | ret[nM,nM](i,j) = (M[i] if i == j else 0)",
        "MLPPVector::subtract_matrix_rows(1) | wA==nM | M[nM](i) = M[i] - sum(k,0,hA, A[k,i])",
        "MLPPVector::subtract_matrix_rowsn(1) | wA==nM | ret[nM](i) = M[i] - sum(k,0,hA, A[k,i])",
        "MLPPVector::subtract_matrix_rowsb(2) | wB==nA | M[nA](i) = A[i] - sum(k,0,hB, B[k,i])",
        "MLPPVector::is_equal_approx(2) | | ret = nA==nM and not any(k,0,nM, not u_Math__is_equal_approx(M[k],A[k],B))",
        # matrices
        "MLPPMatrix::mult(1) | wM==hA | M[hM,wA](i,j) = sum(k,0,wM, M[i,k]*A[k,j])",
        "MLPPMatrix::multn(1) | wM==hA | ret[hM,wA](i,j) = sum(k,0,wM, M[i,k]*A[k,j])",
        "MLPPMatrix::multb(2) | wA==hB | M[hA,wB](i,j) = sum(k,0,wA, A[i,k]*B[k,j])",
        "MLPPMatrix::kronecker_productn(1) | | ret[hM*hA,wM*wA](i,j) = M[i//hA,j//wA]*A[i%hA,j%wA]",
        "MLPPMatrix::kronecker_productb(2) | | M[hA*hB,wA*wB](i,j) = A[i//hB,j//wB]*B[i%hB,j%wB]",
        "MLPPMatrix::kronecker_product(1) | | M[hM*hA,wM*wA](i,j) = M[i//hA,j//wA]*A[i%hA,j%wA]",
        "MLPPMatrix::transpose(0) | | M[wM,hM](i,j) = M[j,i]",
        "MLPPMatrix::transposen(0) | | ret[wM,hM](i,j) = M[j,i]",
        "MLPPMatrix::transposeb(1) | | M[wA,hA](i,j) = A[j,i]",
        "MLPPMatrix::trace(0) | | ret = sum(k,0,min(hM,wM), M[k,k])",
        "MLPPMatrix::mult_vec(1) | nA<=wM | ret[hM](i) = sum(k,0,nA, M[i,k]*A[k])",
        "MLPPMatrix::mult_veco(2) | nA<=wM | B[hM](i) = sum(k,0,nA, M[i,k]*A[k])",
        "MLPPMatrix::add_vec(1) | nA==wM | M[hM,wM](i,j) = M[i,j]+A[j]",
        "MLPPMatrix::add_vecn(1) | nA==wM | ret[hM,wM](i,j) = M[i,j]+A[j]",
        "MLPPMatrix::add_vecb(2) | nB==wA | M[hA,wA](i,j) = A[i,j]+B[j]",
        "MLPPMatrix::outer_product(2) | | M[nA,nB](i,j) = A[i]*B[j]",
        "MLPPMatrix::outer_productn(2) | | ret[nA,nB](i,j) = A[i]*B[j]",
        "MLPPMatrix::flatten(0) | | ret[hM*wM](i) = M[i//wM,i%wM]",
        "MLPPMatrix::flatteno(1) | | A[hM*wM](i) = M[i//wM,i%wM]",
        "MLPPMatrix::identity(0) | | M[hM,wM](i,j) = (1 if i == j else 0)",
        "MLPPMatrix::identityn(0) | | ret[hM,wM](i,j) = (1 if i == j else 0)",
        "MLPPMatrix::identity_mat(1) | ?0<=A | ret[A,A](i,j) = (1 if i == j else 0)",
        "MLPPMatrix::create_identity_mat(1) | ?0<=A | ret[A,A](i,j) = (1 if i == j else 0)",
        "MLPPMatrix::matn_zero(2) | ?0<=A, ?0<=B | ret[A,B](i,j) = 0",
        "MLPPMatrix::matn_one(2) | ?0<=A, ?0<=B | ret[A,B](i,j) = 1",
        "MLPPMatrix::matn_full(3) | ?0<=A, ?0<=B | ret[A,B](i,j) = C",
        "MLPPMatrix::is_equal_approx(2) | | ret = hA==hM and wA==wM and not any(y,0,hM, any(x,0,wM, not u_Math__is_equal_approx(M[y,x],A[y,x],B)))",
        "MLPPVector::vecn_zero(1) | ?0<=A | ret[A](i) = 0",
        "MLPPVector::vecn_one(1) | ?0<=A | ret[A](i) = 1",
        "MLPPVector::vecn_full(2) | ?0<=A | ret[A](i) = B",
        "MLPPVector::create_vec_zero(1) | ?0<=A | ret[A](i) = 0",
        "MLPPVector::create_vec_one(1) | ?0<=A | ret[A](i) = 1",
        "MLPPVector::create_vec_full(2) | ?0<=A | ret[A](i) = B",
        "MLPPMatrix::create_rotation_matrix(2) | ?B == 0-1 | ret[2,2](i,j) = (cos(A) if i == j else (sin(A) if i == 1 else 0-sin(A)))",
        "MLPPMatrix::create_rotation_matrix(2) | ?B == 0 | ret[3,3](i,j) = (1 if i == 0 and j == 0 else (0 if i == 0 or j == 0 else (cos(A) if i == j else (sin(A) if i == 2 else 0-sin(A)))))",
        "MLPPMatrix::create_rotation_matrix(2) | ?B == 1 | ret[3,3](i,j) = (1 if i == 1 and j == 1 else (0 if i == 1 or j == 1 else (cos(A) if i == j else (sin(A) if i == 0 else 0-sin(A)))))",
        "MLPPMatrix::create_rotation_matrix(2) | ?B == 2 | ret[3,3](i,j) = (1 if i == 2 and j == 2 else (0 if i == 2 or j == 2 else (cos(A) if i == j else (sin(A) if i == 1 else 0-sin(A)))))",
        "MLPPMatrix::rotaten(2) | ?B == 0-1, wM==2 | ret[hM,2](i,j) = (M[i,0]*cos(A)+M[i,1]*sin(A) if j == 0 else M[i,1]*cos(A)-M[i,0]*sin(A))",
        "MLPPMatrix::rotate(2) | ?B == 0-1, wM==2 | M[hM,2](i,j) = (M[i,0]*cos(A)+M[i,1]*sin(A) if j == 0 else M[i,1]*cos(A)-M[i,0]*sin(A))",
        "MLPPMatrix::rotateb(3) | ?C == 0-1, wA==2 | M[hA,2](i,j) = (A[i,0]*cos(B)+A[i,1]*sin(B) if j == 0 else A[i,1]*cos(B)-A[i,0]*sin(B))",
        "MLPPMatrix::cov(0) | | ret[hM,hM](i,j) = sum(k,0,wM,(M[i,k]-sum(l,0,wM,M[i,l])/wM)*(M[j,k]-sum(l,0,wM,M[j,l])/wM))/(wM-1)",
        "MLPPMatrix::covo(1) | | A[hM,hM](i,j) = sum(k,0,wM,(M[i,k]-sum(l,0,wM,M[i,l])/wM)*(M[j,k]-sum(l,0,wM,M[j,l])/wM))/(wM-1)",
        "MLPPVector::cross(1) | nM==3, nA==3 | ret[3](i) = (M[1]*A[2]-M[2]*A[1] if i == 0 else (M[2]*A[0]-M[0]*A[2] if i == 1 else M[0]*A[1]-M[1]*A[0]))",
        # tensors
        "MLPPTensor3::flatten(0) | | ret[zM*hM*wM](i) = M[i//(hM*wM),(i//wM)%hM,i%wM]",
        "MLPPTensor3::flatteno(1) | | A[zM*hM*wM](i) = M[i//(hM*wM),(i//wM)%hM,i%wM]",
        "MLPPTensor3::tensor_vec_mult(1) | nA==wM | ret[zM,hM](i,j) = sum(k,0,wM, M[i,j,k]*A[k])",
        "MLPPTensor3::is_equal_approx(2) | | ret = zA==zM and hA==hM and wA==wM and not any(z,0,zM, any(y,0,hM, any(x,0,wM, not u_Math__is_equal_approx(M[z,y,x],A[z,y,x],B))))",
    ]


def accessors():
    return [
        "MLPPVector::element_get(1) | 0<=A<nM | ret = M[A]",
        "MLPPVector::element_set(2) | 0<=A<nM | M[nM](i) = (B if i == A else M[i])",
        "MLPPVector::push_back(1) | | M[nM+1](i) = (A if i == nM else M[i])",
        "MLPPVector::append_mlpp_vector(1) | | M[nM+nA](i) = (M[i] if i < nM else A[i-nM])",
        "MLPPVector::remove(1) | 0<=A<nM | M[nM-1](i) = (M[i] if i < A else M[i+1])",
        "MLPPVector::remove_unordered(1) | 0<=A<nM | M[nM-1](i) = (M[nM-1] if i == A else M[i])",
        "MLPPVector::insert(2) | 0<=A<=nM | M[nM+1](i) = (M[i] if i < A else (B if i == A else M[i-1]))",
        "MLPPVector::find(2) | 0<=B | ret = (first(k,B,nM, M[k] == A) if any(k,B,nM, M[k] == A) else 0-1)",
        "MLPPVector::to_vector(0) | | ret[nM](i) = M[i]",
        "MLPPVector::to_pool_vector(0) | | ret[nM](i) = M[i]",
        "MLPPVector::get_data(0) | | ret[nM](i) = M[i]",
        "MLPPVector::to_std_vector(0) | | ret[nM](i) = M[i]",
        "MLPPVector::duplicate_fast(0) | | ret[nM](i) = M[i]",
        "MLPPVector::set_from_mlpp_vectorr(1) | | M[nA](i) = A[i]",
        "MLPPVector::set_from_mlpp_vector(1) | | M[nA](i) = A[i]",
        "MLPPVector::set_from_vector(1) | | M[nA](i) = A[i]",
        "MLPPVector::set_from_pool_vector(1) | | M[nA](i) = A[i]",
        "MLPPVector::set_from_std_vector(1) | | M[nA](i) = A[i]",
        "MLPPVector::set_data(1) | | M[nA](i) = A[i]",
        "MLPPVector::size(0) | | ret = nM",
        # matrix
        "MLPPMatrix::data_size(0) | | ret = hM*wM",
        "MLPPMatrix::calculate_index(2) | | ret = A*wM+B",
        "MLPPMatrix::element_get(2) | 0<=A<hM, 0<=B<wM | ret = M[A,B]",
        "MLPPMatrix::element_set(3) | 0<=A<hM, 0<=B<wM | M[hM,wM](i,j) = (C if i == A and j == B else M[i,j])",
        "MLPPMatrix::element_get_index(1) | 0<=A<hM*wM | ret = M[A//wM,A%wM]",
        "MLPPMatrix::element_set_index(2) | 0<=A<hM*wM | M[hM,wM](i,j) = (B if i*wM+j == A else M[i,j])",
        "MLPPMatrix::row_add(1) | nA==wM | M[hM+1,wM](i,j) = (M[i,j] if i < hM else A[j])",
        "MLPPMatrix::row_add_pool_vector(1) | nA==wM | M[hM+1,wM](i,j) = (M[i,j] if i < hM else A[j])",
        "MLPPMatrix::row_add_mlpp_vector(1) | nA==wM | M[hM+1,wM](i,j) = (M[i,j] if i < hM else A[j])",
        "MLPPMatrix::rows_add_mlpp_matrix(1) | wA==wM | M[hM+hA,wM](i,j) = (M[i,j] if i < hM else A[i-hM,j])",
        "MLPPMatrix::row_remove(1) | 0<=A<hM | M[hM-1,wM](i,j) = (M[i,j] if i < A else M[i+1,j])",
        "MLPPMatrix::row_remove_unordered(1) | 0<=A<hM | M[hM-1,wM](i,j) = (M[hM-1,j] if i == A else M[i,j])",
        "MLPPMatrix::row_swap(2) | 0<=A<hM, 0<=B<hM | M[hM,wM](i,j) = (M[B,j] if i == A else (M[A,j] if i == B else M[i,j]))",
        "MLPPMatrix::row_get_vector(1) | 0<=A<hM | ret[wM](i) = M[A,i]",
        "MLPPMatrix::row_get_pool_vector(1) | 0<=A<hM | ret[wM](i) = M[A,i]",
        "MLPPMatrix::row_get_mlpp_vector(1) | 0<=A<hM | ret[wM](i) = M[A,i]",
        "MLPPMatrix::row_get_into_mlpp_vector(2) | 0<=A<hM | B[wM](i) = M[A,i]",
        "MLPPMatrix::row_set_vector(2) | 0<=A<hM, nB==wM | M[hM,wM](i,j) = (B[j] if i == A else M[i,j])",
        "MLPPMatrix::row_set_pool_vector(2) | 0<=A<hM, nB==wM | M[hM,wM](i,j) = (B[j] if i == A else M[i,j])",
        "MLPPMatrix::row_set_mlpp_vector(2) | 0<=A<hM, nB==wM | M[hM,wM](i,j) = (B[j] if i == A else M[i,j])",
        "MLPPMatrix::set_row_std_vector(2) | 0<=A<hM, nB==wM | M[hM,wM](i,j) = (B[j] if i == A else M[i,j])",
        "MLPPMatrix::to_flat_vector(0) | | ret[hM*wM](i) = M[i//wM,i%wM]",
        "MLPPMatrix::to_flat_pool_vector(0) | | ret[hM*wM](i) = M[i//wM,i%wM]",
        "MLPPMatrix::to_flat_std_vector(0) | | ret[hM*wM](i) = M[i//wM,i%wM]",
        "MLPPMatrix::duplicate_fast(0) | | ret[hM,wM](i,j) = M[i,j]",
        "MLPPMatrix::set_from_mlpp_matrix(1) | | M[hA,wA](i,j) = A[i,j]",
        "MLPPMatrix::set_from_mlpp_matrixr(1) | | M[hA,wA](i,j) = A[i,j]",
        "MLPPMatrix::set_from_ptr(3) | ?0<=B, ?0<=C, ?B*C<=nA | M[B,C](i,j) = A[i*C+j]",
        "MLPPMatrix::diagonal_set(1) | | M[hM,wM](i,j) = (A[i] if i == j and i < nA else M[i,j])",
        "MLPPMatrix::diagonal_setn(1) | | ret[hM,wM](i,j) = (A[i] if i == j and i < nA else M[i,j])",
        "MLPPMatrix::diagonal_zeroed(1) | | M[hM,wM](i,j) = (A[i] if i == j and i < nA else 0)",
        "MLPPMatrix::diagonal_zeroedn(1) | | ret[hM,wM](i,j) = (A[i] if i == j and i < nA else 0)",
        # tensor
        "MLPPTensor3::data_size(0) | | ret = zM*hM*wM",
        "MLPPTensor3::z_slice_data_size(0) | | ret = hM*wM",
        "MLPPTensor3::calculate_index(3) | | ret = (A*hM+B)*wM+C",
        "MLPPTensor3::calculate_z_slice_index(1) | | ret = A*hM*wM",
        "MLPPTensor3::element_get(3) | 0<=A<zM, 0<=B<hM, 0<=C<wM | ret = M[A,B,C]",
        "MLPPTensor3::element_set(4) | 0<=A<zM, 0<=B<hM, 0<=C<wM | M[zM,hM,wM](i,j,k) = (D if i == A and j == B and k == C else M[i,j,k])",
        "MLPPTensor3::element_get_index(1) | 0<=A<zM*hM*wM | ret = M[A//(hM*wM),(A//wM)%hM,A%wM]",
        "MLPPTensor3::element_set_index(2) | 0<=A<zM*hM*wM | M[zM,hM,wM](i,j,k) = (B if (i*hM+j)*wM+k == A else M[i,j,k])",
        "MLPPTensor3::row_get_vector(2) | 0<=A<zM, 0<=B<hM | ret[wM](i) = M[A,B,i]",
        "MLPPTensor3::row_get_pool_vector(2) | 0<=A<zM, 0<=B<hM | ret[wM](i) = M[A,B,i]",
        "MLPPTensor3::row_get_mlpp_vector(2) | 0<=A<zM, 0<=B<hM | ret[wM](i) = M[A,B,i]",
        "MLPPTensor3::row_get_into_mlpp_vector(3) | 0<=A<zM, 0<=B<hM | C[wM](i) = M[A,B,i]",
        "MLPPTensor3::row_set_vector(3) | 0<=A<zM, 0<=B<hM, nC==wM | M[zM,hM,wM](i,j,k) = (C[k] if i == A and j == B else M[i,j,k])",
        "MLPPTensor3::row_set_pool_vector(3) | 0<=A<zM, 0<=B<hM, nC==wM | M[zM,hM,wM](i,j,k) = (C[k] if i == A and j == B else M[i,j,k])",
        "MLPPTensor3::row_set_mlpp_vector(3) | 0<=A<zM, 0<=B<hM, nC==wM | M[zM,hM,wM](i,j,k) = (C[k] if i == A and j == B else M[i,j,k])",
        "MLPPTensor3::z_slice_add(1) | nA==hM*wM | M[zM+1,hM,wM](i,j,k) = (M[i,j,k] if i < zM else A[j*wM+k])",
        "MLPPTensor3::z_slice_add_pool_vector(1) | nA==hM*wM | M[zM+1,hM,wM](i,j,k) = (M[i,j,k] if i < zM else A[j*wM+k])",
        "MLPPTensor3::z_slice_add_mlpp_vector(1) | nA==hM*wM | M[zM+1,hM,wM](i,j,k) = (M[i,j,k] if i < zM else A[j*wM+k])",
        "MLPPTensor3::z_slice_add_mlpp_matrix(1) | hA==hM, wA==wM | M[zM+1,hM,wM](i,j,k) = (M[i,j,k] if i < zM else A[j,k])",
        "MLPPTensor3::z_slice_remove(1) | 0<=A<zM | M[zM-1,hM,wM](i,j,k) = (M[i,j,k] if i < A else M[i+1,j,k])",
        "MLPPTensor3::z_slice_remove_unordered(1) | 0<=A<zM | M[zM-1,hM,wM](i,j,k) = (M[zM-1,j,k] if i == A else M[i,j,k])",
        "MLPPTensor3::z_slice_swap(2) | 0<=A<zM, 0<=B<zM | M[zM,hM,wM](i,j,k) = (M[B,j,k] if i == A else (M[A,j,k] if i == B else M[i,j,k]))",
        "MLPPTensor3::z_slice_get_vector(1) | 0<=A<zM | ret[hM*wM](i) = M[A,i//wM,i%wM]",
        "MLPPTensor3::z_slice_get_pool_vector(1) | 0<=A<zM | ret[hM*wM](i) = M[A,i//wM,i%wM]",
        "MLPPTensor3::z_slice_get_mlpp_vector(1) | 0<=A<zM | ret[hM*wM](i) = M[A,i//wM,i%wM]",
        "MLPPTensor3::z_slice_get_into_mlpp_vector(2) | 0<=A<zM | B[hM*wM](i) = M[A,i//wM,i%wM]",
        "MLPPTensor3::z_slice_get_mlpp_matrix(1) | 0<=A<zM | ret[hM,wM](i,j) = M[A,i,j]",
        "MLPPTensor3::z_slice_get_into_mlpp_matrix(2) | 0<=A<zM | B[hM,wM](i,j) = M[A,i,j]",
        "MLPPTensor3::z_slice_set_vector(2) | 0<=A<zM, nB==hM*wM | M[zM,hM,wM](i,j,k) = (B[j*wM+k] if i == A else M[i,j,k])",
        "MLPPTensor3::z_slice_set_pool_vector(2) | 0<=A<zM, nB==hM*wM | M[zM,hM,wM](i,j,k) = (B[j*wM+k] if i == A else M[i,j,k])",
        "MLPPTensor3::z_slice_set_mlpp_vector(2) | 0<=A<zM, nB==hM*wM | M[zM,hM,wM](i,j,k) = (B[j*wM+k] if i == A else M[i,j,k])",
        "MLPPTensor3::z_slice_set_mlpp_matrix(2) | 0<=A<zM, hB==hM, wB==wM | M[zM,hM,wM](i,j,k) = (B[j,k] if i == A else M[i,j,k])",
        "MLPPTensor3::x_slice_get(1) | 0<=A<wM | ret[zM,hM](i,j) = M[i,j,A]",
        "MLPPTensor3::x_slice_get_into(2) | 0<=A<wM | B[zM,hM](i,j) = M[i,j,A]",
        "MLPPTensor3::x_slice_set(2) | 0<=A<wM, hB==zM, wB==hM | M[zM,hM,wM](i,j,k) = (B[i,j] if k == A else M[i,j,k])",
        "MLPPTensor3::y_slice_get(1) | 0<=A<hM | ret[zM,wM](i,j) = M[i,A,j]",
        "MLPPTensor3::y_slice_get_into(2) | 0<=A<hM | B[zM,wM](i,j) = M[i,A,j]",
        "MLPPTensor3::y_slice_set(2) | 0<=A<hM, hB==zM, wB==wM | M[zM,hM,wM](i,j,k) = (B[i,k] if j == A else M[i,j,k])",
        "MLPPTensor3::to_flat_vector(0) | | ret[zM*hM*wM](i) = M[i//(hM*wM),(i//wM)%hM,i%wM]",
        "MLPPTensor3::to_flat_pool_vector(0) | | ret[zM*hM*wM](i) = M[i//(hM*wM),(i//wM)%hM,i%wM]",
        "MLPPTensor3::to_flat_std_vector(0) | | ret[zM*hM*wM](i) = M[i//(hM*wM),(i//wM)%hM,i%wM]",
        "MLPPTensor3::duplicate_fast(0) | | ret[zM,hM,wM](i,j,k) = M[i,j,k]",
        "MLPPTensor3::set_from_mlpp_tensor3(1) | | M[zA,hA,wA](i,j,k) = A[i,j,k]",
        "MLPPTensor3::set_from_mlpp_tensor3r(1) | | M[zA,hA,wA](i,j,k) = A[i,j,k]",
        "MLPPTensor3::set_from_mlpp_matrix(1) | | M[1,hA,wA](i,j,k) = A[j,k]",
        "MLPPTensor3::set_from_mlpp_matrixr(1) | | M[1,hA,wA](i,j,k) = A[j,k]",
    ]


def all_rows():
    return elementwise() + products() + accessors()
