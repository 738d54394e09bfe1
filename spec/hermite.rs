// ================================================================ orthonormal Hermite polynomials
pub open spec fn herm(n: nat, x: real) -> real decreases n {
    if n == 0 { 1real } else if n == 1 { x }
    else { (x * herm((n - 1) as nat, x) - sqrt_spec((n - 1) as real) * herm((n - 2) as nat, x)) / sqrt_spec(n as real) }
}
pub proof fn lemma_sqrt_pos(n: int) requires n >= 1 ensures sqrt_spec(n as real) > 0real
{ ax_sqrt(n as real); let s = sqrt_spec(n as real); assert(s != 0real) by (nonlinear_arith) requires s * s == n as real, n >= 1; }
pub proof fn lemma_rec_div(p: real, s: real, i: real) requires s > 0real, i == 1real / s ensures p / s == p * i { assert(p / s == p * i) by (nonlinear_arith) requires s > 0real, i == 1real / s; }
pub proof fn lemma_rec_sub(u: real, v: real, i: real) ensures (u - v) * i == u * i - v * i { assert((u - v) * i == u * i - v * i) by (nonlinear_arith); }
pub proof fn lemma_rec_rot(i: real, x: real, a: real) ensures i * x * a == (x * a) * i { assert(i * x * a == (x * a) * i) by (nonlinear_arith); }
pub proof fn lemma_rec_rot2(q: real, i: real, b: real) ensures q * i * b == (q * b) * i { assert(q * i * b == (q * b) * i) by (nonlinear_arith); }
pub proof fn lemma_rec(s: real, q: real, x: real, a: real, b: real) requires s > 0real
    ensures (1real / s) * x * a - (q / s) * b == (x * a - q * b) / s
{
    let i = 1real / s;
    lemma_rec_div(q, s, i); lemma_rec_div(x * a - q * b, s, i);
    lemma_rec_sub(x * a, q * b, i); lemma_rec_rot(i, x, a); lemma_rec_rot2(q, i, b);
}
