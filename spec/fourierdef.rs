// ================================================================ products of three real Fourier functions, integrated over one period
// index 0: 1/sqrt(2 pi); index 2k-1: sin(k x)/sqrt(pi); index 2k: cos(k x)/sqrt(pi).  fq = frequency, sn = is a sine
pub open spec fn fq(a: int) -> int { (a + 1) / 2 }
pub open spec fn sn(a: int) -> bool { a % 2 == 1 }
pub open spec fn den(a: int) -> real { if a == 0 { sqrt_spec(2real * PI()) } else { sqrt_spec(PI()) } }
pub open spec fn dl(x: int) -> int { if x == 0 { 1 } else { 0 } }
// 2/pi times the integral over [-pi, pi] of cos(x t) cos(y t) cos(z t)   (product to sum)
pub open spec fn ccc(x: int, y: int, z: int) -> int { dl(x + y + z) + dl(x + y - z) + dl(x - y + z) + dl(x - y - z) }
// 2/pi times the integral of sin(x t) sin(y t) cos(z t)
pub open spec fn ssc(x: int, y: int, z: int) -> int { dl(x - y + z) + dl(x - y - z) - dl(x + y + z) - dl(x + y - z) }
pub open spec fn fnum(k: int, i: int, j: int) -> int {
    if !sn(k) && !sn(i) && !sn(j) { ccc(fq(k), fq(i), fq(j)) }
    else if sn(k) && sn(i) && !sn(j) { ssc(fq(k), fq(i), fq(j)) }
    else if sn(k) && !sn(i) && sn(j) { ssc(fq(k), fq(j), fq(i)) }
    else if !sn(k) && sn(i) && sn(j) { ssc(fq(i), fq(j), fq(k)) }
    else { 0 }
}
// the integral of the product of the three orthonormal functions
#[verifier::opaque]
pub open spec fn ftrip(k: int, i: int, j: int) -> real { (PI() / 2real * ireal(fnum(k, i, j))) / (den(k) * den(i) * den(j)) }
pub open spec fn nzero(k: int, i: int, j: int) -> int { dl(k) + dl(i) + dl(j) }
pub proof fn lemma_dens() ensures PI() > 3real,
    sqrt_spec(2real * PI()) > 0real, sqrt_spec(PI()) > 0real, sqrt_spec(2real * PI()) * sqrt_spec(2real * PI()) == 2real * PI(), sqrt_spec(PI()) * sqrt_spec(PI()) == PI()
{
    ax_pi(); ax_sqrt(PI()); ax_sqrt(2real * PI());
    let p = PI(); let s = sqrt_spec(p); let t = sqrt_spec(2real * p);
    assert(s != 0real) by (nonlinear_arith) requires s * s == p, p > 3real;
    assert(t != 0real) by (nonlinear_arith) requires t * t == 2real * p, p > 3real;
}
pub open spec fn in3(d: int, k: int, i: int, j: int) -> bool { 0 <= k <= 2 * d && 0 <= i <= d && 0 <= j <= d }
