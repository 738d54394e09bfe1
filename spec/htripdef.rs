// ================================================================ integrals of products of three orthonormal Hermite polynomials
pub open spec fn qs(n: int) -> real { sqrt_spec(ireal(n)) }
// htrip(k, i, j) = integral of h_k h_i h_j against the Gaussian: orthonormality for i = 0, then the three-term recurrence of h_i
// (x h_k = sqrt(k+1) h_{k+1} + sqrt(k) h_{k-1})
#[verifier::opaque]
pub open spec fn htrip(k: int, i: int, j: int) -> real decreases i {
    if i <= 0 { if k == j { 1real } else { 0real } }
    else { (qs(k + 1) * htrip(k + 1, i - 1, j) + (if k >= 1 { qs(k) * htrip(k - 1, i - 1, j) } else { 0real }) - (if i >= 2 { qs(i - 1) * htrip(k, i - 2, j) } else { 0real })) / qs(i) }
}
