pub open spec fn fval(z: int, n: int) -> real {
    if z == 3 { 2real * PI() / (sqrt_spec(2real * PI()) * (2real * PI())) } else if z == 1 { PI() / (sqrt_spec(2real * PI()) * PI()) }
    else if n == 1 { PI() / 2real / (sqrt_spec(PI()) * PI()) } else if n == -1 { -PI() / 2real / (sqrt_spec(PI()) * PI()) } else { 0real }
}
pub proof fn lemma_ftrip(k: int, i: int, j: int)
    requires k >= 0, i >= 0, j >= 0
    ensures fnum(k, i, j) == 0 ==> ftrip(k, i, j) == 0real,
        nzero(k, i, j) == 3 && fnum(k, i, j) == 4 ==> ftrip(k, i, j) == fval(3, 4),
        nzero(k, i, j) == 1 && fnum(k, i, j) == 2 ==> ftrip(k, i, j) == fval(1, 2),
        nzero(k, i, j) == 0 && (fnum(k, i, j) == 1 || fnum(k, i, j) == -1) ==> ftrip(k, i, j) == fval(0, fnum(k, i, j)),
{
    reveal(ftrip);
    lemma_dens();
    let p = PI(); let s = sqrt_spec(p); let t = sqrt_spec(2real * p);
    let d = den(k) * den(i) * den(j);
    let n = fnum(k, i, j);
    assert(d > 0real) by (nonlinear_arith) requires d == den(k) * den(i) * den(j), den(k) > 0real, den(i) > 0real, den(j) > 0real;
    if n == 0 {
        assert(p / 2real * 0real == 0real) by (nonlinear_arith);
        assert(0real / d == 0real) by (nonlinear_arith) requires d > 0real;
    }
    if nzero(k, i, j) == 3 {
        assert(d == t * (2real * p)) by (nonlinear_arith) requires d == t * t * t, t * t == 2real * p;
        assert(n == 4 ==> p / 2real * ireal(n) == 2real * p) by { assert(p / 2real * 4real == 2real * p) by (nonlinear_arith); }
    }
    if nzero(k, i, j) == 1 {
        assert(d == t * p) by (nonlinear_arith) requires d == t * s * s || d == s * t * s || d == s * s * t, s * s == p;
        assert(n == 2 ==> p / 2real * ireal(n) == p) by { assert(p / 2real * 2real == p) by (nonlinear_arith); }
    }
    if nzero(k, i, j) == 0 {
        assert(d == s * p) by (nonlinear_arith) requires d == s * s * s, s * s == p;
        assert(n == 1 ==> p / 2real * ireal(n) == p / 2real) by { assert(p / 2real * 1real == p / 2real) by (nonlinear_arith); }
        assert(n == -1 ==> p / 2real * ireal(n) == -p / 2real) by { assert(p / 2real * (-1real) == -p / 2real) by (nonlinear_arith); }
    }
}
// the code writes these quotients
pub proof fn lemma_fdiv(x: real, y: real) requires y > 0real ensures -(x / 2real) / y == -x / 2real / y, (x / 2real) * 1real / y == x / 2real / y, (x / 2real) * (-1real) / y == -x / 2real / y
{ }
// which (i, j) columns are complete when the outer loop reaches frequency f, and within it when the inner loop reaches g
pub open spec fn fdone(i: int, j: int, f: int) -> bool { i == 0 && fq(j) < f || 0 < fq(i) < f }
pub open spec fn fdone2(i: int, j: int, f: int, g: int) -> bool { fdone(i, j, f) || i == 0 && fq(j) == f || fq(i) == f && (j == 0 || fq(j) == f || fq(j) < g) }
pub open spec fn fst(p: Vec<Vec<Vec<R>>>, d: int, f: int) -> bool {
    forall|k: int, i: int, j: int| in3(d, k, i, j) ==> #[trigger] at3(p, k, i, j) == (if fdone(i, j, f) { ftrip(k, i, j) } else { 0real })
}
pub open spec fn fst2(p: Vec<Vec<Vec<R>>>, d: int, f: int, g: int) -> bool {
    forall|k: int, i: int, j: int| in3(d, k, i, j) ==> #[trigger] at3(p, k, i, j) == (if fdone2(i, j, f, g) { ftrip(k, i, j) } else { 0real })
}
pub proof fn lemma_f00(k: int) requires k >= 0 ensures fnum(k, 0, 0) == (if k == 0 { 4int } else { 0 }) { }
pub proof fn lemma_f0(k: int, j: int) requires k >= 0, j > 0 ensures fnum(k, 0, j) == (if k == j { 2int } else { 0 }), fnum(k, j, 0) == (if k == j { 2int } else { 0 }) { }
pub proof fn lemma_feq(k: int, i: int, j: int, f: int) requires k >= 0, f > 0, i == 2 * f || i == 2 * f - 1, j == 2 * f || j == 2 * f - 1
    ensures i == j && k == 0 ==> fnum(k, i, j) == 2,
        k == 4 * f && i == j ==> fnum(k, i, j) == (if sn(i) { -1int } else { 1 }),
        k == 4 * f - 1 && i != j ==> fnum(k, i, j) == 1,
        !(i == j && k == 0) && !(k == 4 * f && i == j) && !(k == 4 * f - 1 && i != j) ==> fnum(k, i, j) == 0
{ }
pub open spec fn sgn(x: int) -> int { if x > 0 { 1 } else if x < 0 { -1 } else { 0 } }
pub open spec fn iabs(x: int) -> int { if x >= 0 { x } else { -x } }
pub proof fn lemma_fne(k: int, i: int, j: int, f: int, g: int) requires k >= 0, f > 0, g > 0, f != g, i == 2 * f || i == 2 * f - 1, j == 2 * g || j == 2 * g - 1
    ensures fnum(k, i, j) == (
        if !sn(i) && !sn(j) { if k == 2 * (f + g) || k == 2 * iabs(f - g) { 1int } else { 0 } }
        else if sn(i) && sn(j) { if k == 2 * (f + g) { -1int } else if k == 2 * iabs(f - g) { 1 } else { 0 } }
        else if !sn(i) { if k == 2 * (f + g) - 1 { 1int } else if k == 2 * iabs(f - g) - 1 { sgn(g - f) } else { 0 } }
        else { if k == 2 * (f + g) - 1 { 1int } else if k == 2 * iabs(f - g) - 1 { sgn(f - g) } else { 0 } })
{ }
