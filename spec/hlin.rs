// ================================================================ linearisation: h_i(x) h_j(x) = sum_k htrip(k, i, j) h_k(x) for every x
// (so, by orthonormality of the h_k, htrip(k, i, j) is the integral of h_k h_i h_j)
pub open spec fn hh(n: int, x: real) -> real { if n < 0 { 0real } else { herm(n as nat, x) } }
pub proof fn lemma_x_hh(k: int, x: real) requires k >= 0 ensures x * hh(k, x) == qs(k) * hh(k - 1, x) + qs(k + 1) * hh(k + 1, x)
{
    lemma_qs(k); lemma_qs(k + 1);
    let q = qs(k + 1);
    if k == 0 {
        assert(qs(1) == 1real) by { let s = qs(1); assert(s * s == 1real && s > 0real); assert(s == 1real) by (nonlinear_arith) requires s * s == 1real, s > 0real; }
        assert(herm(0, x) == 1real && herm(1, x) == x);
        assert(qs(0) * hh(-1, x) == 0real) by (nonlinear_arith) requires qs(0) == 0real;
        assert(x * 1real == 0real + 1real * x) by (nonlinear_arith);
    } else {
        let n = x * herm(k as nat, x) - qs(k) * herm((k - 1) as nat, x);
        assert(herm((k + 1) as nat, x) == n / q) by { assert(((k + 1) as nat - 1) as nat == k as nat); assert(((k + 1) as nat - 2) as nat == (k - 1) as nat); }
        assert(q * (n / q) == n) by (nonlinear_arith) requires q > 0real;
    }
}
pub open spec fn hsum(i: int, j: int, x: real, n: int) -> real decreases n { if n <= 0 { 0real } else { hsum(i, j, x, n - 1) + ht(n - 1, i, j) * hh(n - 1, x) } }
pub open spec fn xsum(i: int, j: int, x: real, n: int) -> real decreases n { if n <= 0 { 0real } else { xsum(i, j, x, n - 1) + xk(n - 1, i, j) * hh(n - 1, x) } }
pub proof fn lemma_d2(a: real, x: real, y: real) ensures a * (x + y) == a * x + a * y, (x + y) * a == x * a + y * a, a * (x - y) == a * x - a * y { assert(a * (x + y) == a * x + a * y) by (nonlinear_arith); assert((x + y) * a == x * a + y * a) by (nonlinear_arith); assert(a * (x - y) == a * x - a * y) by (nonlinear_arith); }
pub proof fn lemma_as(a: real, b: real, c: real) ensures a * b * c == a * (b * c), a * b == b * a { assert(a * b * c == a * (b * c)) by (nonlinear_arith); assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lemma_parts(i: int, j: int, x: real, n: int) requires n >= 0, i >= 0, j >= 0
    ensures xsum(i, j, x, n) == x * hsum(i, j, x, n) + qs(n) * (ht(n, i, j) * hh(n - 1, x)) - qs(n) * (ht(n - 1, i, j) * hh(n, x)) decreases n
{
    lemma_qs(0);
    if n == 0 {
        assert(qs(0) * (ht(0, i, j) * hh(-1, x)) == 0real) by (nonlinear_arith) requires qs(0) == 0real;
        assert(qs(0) * (ht(-1, i, j) * hh(0, x)) == 0real) by (nonlinear_arith) requires qs(0) == 0real;
        assert(x * 0real == 0real);
    } else {
        let k = n - 1;
        lemma_parts(i, j, x, k);
        lemma_x_hh(k, x);
        let (mp, m, mm) = (ht(k + 1, i, j), ht(k, i, j), ht(k - 1, i, j));
        let (hp, h, hm) = (hh(k + 1, x), hh(k, x), hh(k - 1, x));
        let (a, b) = (qs(k + 1), qs(k));
        let s = hsum(i, j, x, k);
        assert(xsum(i, j, x, n) == x * s + b * (m * hm) - b * (mm * h) + (a * mp + b * mm) * h);
        assert(hsum(i, j, x, n) == s + m * h);
        lemma_d2(h, a * mp, b * mm); lemma_as(a, mp, h); lemma_as(b, mm, h); lemma_d2(x, s, m * h);
        // x (m h) = m (b hm + a hp)
        lemma_swap(x, m, h); lemma_d2(m, b * hm, a * hp); lemma_swap(m, b, hm); lemma_swap(m, a, hp);
        assert(x * (m * h) == b * (m * hm) + a * (m * hp));
    }
}
pub proof fn lemma_rsum(i: int, j: int, x: real, n: int) requires n >= 0, i >= 1, j >= 0
    ensures qs(i) * hsum(i, j, x, n) == xsum(i - 1, j, x, n) - qs(i - 1) * hsum(i - 2, j, x, n) decreases n
{
    if n == 0 { assert(qs(i) * 0real == 0real); assert(qs(i - 1) * 0real == 0real); }
    else {
        let k = n - 1;
        lemma_rsum(i, j, x, k); lemma_rec3(k, i, j);
        let (q, c, h) = (qs(i), qs(i - 1), hh(k, x));
        lemma_d2(q, hsum(i, j, x, k), ht(k, i, j) * h); lemma_d2(c, hsum(i - 2, j, x, k), ht(k, i - 2, j) * h);
        lemma_as(q, ht(k, i, j), h); lemma_as(c, ht(k, i - 2, j), h);
        let (u, v) = (xk(k, i - 1, j), c * ht(k, i - 2, j));
        assert((u - v) * h == u * h - v * h) by (nonlinear_arith);
    }
}
pub proof fn lemma_delta_sum(j: int, x: real, n: int) requires j >= 0, n >= 0 ensures hsum(0, j, x, n) == (if n > j { hh(j, x) } else { 0real }) decreases n
{
    if n > 0 { lemma_delta_sum(j, x, n - 1); reveal_with_fuel(htrip, 1); let h = hh(n - 1, x); assert(0real * h == 0real && 1real * h == h); }
}
pub proof fn lemma_linear(i: int, j: int, x: real, n: int) requires i >= 0, j >= 0, n >= i + j + 1
    ensures hsum(i, j, x, n) == hh(i, x) * hh(j, x) decreases i
{
    if i == 0 { lemma_delta_sum(j, x, n); assert(hh(0, x) == 1real); assert(1real * hh(j, x) == hh(j, x)); }
    else {
        lemma_rsum(i, j, x, n); lemma_parts(i - 1, j, x, n); lemma_linear(i - 1, j, x, n); lemma_qs(i); lemma_qs(0);
        lemma_band(n, i - 1, j); lemma_band(n - 1, i - 1, j);
        let (q, c) = (qs(i), qs(i - 1));
        assert(qs(n) * (0real * hh(n - 1, x)) == 0real) by (nonlinear_arith);
        assert(qs(n) * (0real * hh(n, x)) == 0real) by (nonlinear_arith);
        let (hi, hm, ho, hj) = (hh(i, x), hh(i - 1, x), hh(i - 2, x), hh(j, x));
        let o = hsum(i - 2, j, x, n);
        if i >= 2 { lemma_linear(i - 2, j, x, n); assert(c * o == c * (ho * hj)); }
        else { assert(c * o == 0real && c * (ho * hj) == 0real) by (nonlinear_arith) requires c == 0real; }
        lemma_x_hh(i - 1, x);
        // q hi = x hm - c ho
        assert(q * hi == x * hm - c * ho);
        lemma_as(q, hi, hj); lemma_as(x, hm, hj); lemma_as(c, ho, hj);
        assert((x * hm - c * ho) * hj == x * hm * hj - c * ho * hj) by (nonlinear_arith);
        let l = hsum(i, j, x, n); let r = hi * hj;
        assert(q * l == q * r);
        assert(l == r) by (nonlinear_arith) requires q * l == q * r, q > 0real;
    }
}
