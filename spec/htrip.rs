pub proof fn lemma_qs(n: int) requires n >= 0 ensures qs(n) >= 0real, qs(n) * qs(n) == ireal(n), n > 0 ==> qs(n) > 0real, n == 0 ==> qs(n) == 0real
{
    ax_sqrt(ireal(n)); let s = qs(n);
    if n > 0 { assert(s != 0real) by (nonlinear_arith) requires s * s == ireal(n), n > 0; }
    else { assert(s == 0real) by (nonlinear_arith) requires s * s == 0real; }
}
pub open spec fn ht(k: int, i: int, j: int) -> real { if k < 0 || i < 0 || j < 0 { 0real } else { htrip(k, i, j) } }
pub open spec fn xk(k: int, i: int, j: int) -> real { qs(k + 1) * ht(k + 1, i, j) + qs(k) * ht(k - 1, i, j) }
pub open spec fn xj(k: int, i: int, j: int) -> real { qs(j + 1) * ht(k, i, j + 1) + qs(j) * ht(k, i, j - 1) }
// the recurrence, multiplied out
pub proof fn lemma_rec3(k: int, i: int, j: int) requires k >= 0, i >= 1, j >= 0
    ensures qs(i) * ht(k, i, j) == xk(k, i - 1, j) - qs(i - 1) * ht(k, i - 2, j), qs(i) > 0real
{
    reveal_with_fuel(htrip, 2);
    lemma_qs(i); lemma_qs(k); lemma_qs(i - 1);
    let n = qs(k + 1) * htrip(k + 1, i - 1, j) + (if k >= 1 { qs(k) * htrip(k - 1, i - 1, j) } else { 0real }) - (if i >= 2 { qs(i - 1) * htrip(k, i - 2, j) } else { 0real });
    let q = qs(i);
    assert(q * (n / q) == n) by (nonlinear_arith) requires q > 0real;
    if k == 0 { assert(qs(k) * ht(k - 1, i - 1, j) == 0real) by (nonlinear_arith) requires qs(k) == 0real; }
    if i == 1 { assert(qs(i - 1) * ht(k, i - 2, j) == 0real) by (nonlinear_arith) requires qs(i - 1) == 0real; }
    assert(n == xk(k, i - 1, j) - qs(i - 1) * ht(k, i - 2, j));
}
pub proof fn lemma_band(k: int, i: int, j: int) requires k >= 0, i >= 0, j >= 0, k - j > i || j - k > i ensures ht(k, i, j) == 0real decreases i
{
    reveal_with_fuel(htrip, 1);
    if i > 0 {
        lemma_rec3(k, i, j);
        lemma_band(k + 1, i - 1, j);
        if k >= 1 { lemma_band(k - 1, i - 1, j); }
        if i >= 2 { lemma_band(k, i - 2, j); }
        let (q, a, b, c, h) = (qs(i), qs(k + 1), qs(k), qs(i - 1), ht(k, i, j));
        assert(h == 0real) by (nonlinear_arith) requires q * h == a * 0real + b * 0real - c * 0real, q > 0real;
    }
}
pub proof fn lemma_ring1(q: real, a: real, b: real, x: real, y: real) ensures q * (a * x + b * y) == a * (q * x) + b * (q * y) { lemma_dist(q, a * x, b * y, 0real); lemma_swap(q, a, x); lemma_swap(q, b, y); }
pub proof fn lemma_dist(a: real, x: real, y: real, z: real) ensures a * (x + y - z) == a * x + a * y - a * z { assert(a * (x + y - z) == a * x + a * y - a * z) by (nonlinear_arith); }
pub proof fn lemma_swap(a: real, u: real, m: real) ensures a * (u * m) == u * (a * m) { assert(a * (u * m) == u * (a * m)) by (nonlinear_arith); }
pub proof fn lemma_ring2(a: real, b: real, u: real, v: real, c: real, m1: real, m2: real, m3: real, m4: real, o1: real, o2: real)
    ensures a * (u * m1 + v * m2 - c * o1) + b * (u * m3 + v * m4 - c * o2) == u * (a * m1 + b * m3) + v * (a * m2 + b * m4) - c * (a * o1 + b * o2)
{
    lemma_dist(a, u * m1, v * m2, c * o1); lemma_dist(b, u * m3, v * m4, c * o2);
    lemma_dist(u, a * m1, b * m3, 0real); lemma_dist(v, a * m2, b * m4, 0real); lemma_dist(c, a * o1, b * o2, 0real);
    lemma_swap(a, u, m1); lemma_swap(a, v, m2); lemma_swap(a, c, o1); lemma_swap(b, u, m3); lemma_swap(b, v, m4); lemma_swap(b, c, o2);
}
pub proof fn lemma_ring3(u: real, v: real, c: real, y1: real, y2: real, o1: real, o2: real) ensures u * (y1 - c * o1) + v * (y2 - c * o2) == u * y1 + v * y2 - c * (u * o1 + v * o2)
{
    lemma_dist(u, y1, 0real, c * o1); lemma_dist(v, y2, 0real, c * o2); lemma_dist(c, u * o1, v * o2, 0real); lemma_swap(u, c, o1); lemma_swap(v, c, o2);
}
// multiplication by x commutes with multiplication by h_i
pub proof fn lemma_comm(k: int, i: int, j: int) requires k >= 0, i >= 0, j >= 0 ensures xj(k, i, j) == xk(k, i, j) decreases i
{
    reveal_with_fuel(htrip, 1);
    lemma_qs(0); lemma_qs(k); lemma_qs(j);
    if i == 0 {
        if k == j + 1 { assert(xj(k, i, j) == qs(j + 1)) by (nonlinear_arith) requires xj(k, i, j) == qs(j + 1) * 1real + qs(j) * 0real; assert(xk(k, i, j) == qs(j + 1)) by (nonlinear_arith) requires xk(k, i, j) == qs(k + 1) * 0real + qs(k) * 1real, qs(k) == qs(j + 1); }
        else if k == j - 1 { assert(xj(k, i, j) == qs(j)) by (nonlinear_arith) requires xj(k, i, j) == qs(j + 1) * 0real + qs(j) * 1real; assert(xk(k, i, j) == qs(j)) by (nonlinear_arith) requires xk(k, i, j) == qs(k + 1) * 1real + qs(k) * 0real, qs(k + 1) == qs(j); }
        else { assert(xj(k, i, j) == 0real) by (nonlinear_arith) requires xj(k, i, j) == qs(j + 1) * 0real + qs(j) * 0real; assert(xk(k, i, j) == 0real) by (nonlinear_arith) requires xk(k, i, j) == qs(k + 1) * 0real + qs(k) * 0real; }
    } else {
        let q = qs(i); let c = qs(i - 1);
        // q * xj(k, i, j), expanded with the recurrence at j+1 and j-1
        lemma_rec3(k, i, j + 1);
        if j >= 1 { lemma_rec3(k, i, j - 1); }
        lemma_rec3(k + 1, i, j);
        if k >= 1 { lemma_rec3(k - 1, i, j); }
        lemma_comm(k, i - 1, j); lemma_comm(k + 1, i - 1, j); if k >= 1 { lemma_comm(k - 1, i - 1, j); }
        if i >= 2 { lemma_comm(k, i - 2, j); }
        // X_j X_k = X_k X_j on column i-1
        let (a, b, u, v) = (qs(j + 1), qs(j), qs(k + 1), qs(k));
        let (pu, pd) = (ht(k, i, j + 1), ht(k, i, j - 1));
        let (ru, rd) = (ht(k + 1, i, j), ht(k - 1, i, j));
        let m = |x: int, y: int| ht(x, i - 1, y);
        let o = |x: int, y: int| ht(x, i - 2, y);
        let k2 = qs(k + 2); let v2 = qs(k - 1);
        assert(q * pu == u * m(k + 1, j + 1) + v * m(k - 1, j + 1) - c * o(k, j + 1));
        assert(b * (q * pd) == b * (u * m(k + 1, j - 1) + v * m(k - 1, j - 1) - c * o(k, j - 1))) by (nonlinear_arith)
            requires j >= 1 ==> q * pd == u * m(k + 1, j - 1) + v * m(k - 1, j - 1) - c * o(k, j - 1), j < 1 ==> b == 0real;
        assert(q * ru == xk(k + 1, i - 1, j) - c * o(k + 1, j));
        assert(v * (q * rd) == v * (xk(k - 1, i - 1, j) - c * o(k - 1, j))) by (nonlinear_arith)
            requires k >= 1 ==> q * rd == xk(k - 1, i - 1, j) - c * o(k - 1, j), k < 1 ==> v == 0real;
        let (x1, x2) = (xj(k + 1, i - 1, j), xj(k - 1, i - 1, j));
        assert(x1 == a * m(k + 1, j + 1) + b * m(k + 1, j - 1));
        assert(x2 == a * m(k - 1, j + 1) + b * m(k - 1, j - 1));
        let (y1, y2) = (xk(k + 1, i - 1, j), xk(k - 1, i - 1, j));
        assert(y1 == x1); assert(v * y2 == v * x2) by (nonlinear_arith) requires k >= 1 ==> y2 == x2, k < 1 ==> v == 0real;
        // c (X_j - X_k) o = 0
        assert(c * (a * o(k, j + 1) + b * o(k, j - 1)) == c * (u * o(k + 1, j) + v * o(k - 1, j))) by (nonlinear_arith)
            requires i >= 2 ==> a * o(k, j + 1) + b * o(k, j - 1) == u * o(k + 1, j) + v * o(k - 1, j), i < 2 ==> c == 0real;
        let (l, r) = (a * pu + b * pd, u * ru + v * rd);
        assert(l == xj(k, i, j) && r == xk(k, i, j));
        lemma_ring1(q, a, b, pu, pd); lemma_ring1(q, u, v, ru, rd);
        lemma_ring2(a, b, u, v, c, m(k + 1, j + 1), m(k - 1, j + 1), m(k + 1, j - 1), m(k - 1, j - 1), o(k, j + 1), o(k, j - 1));
        lemma_ring3(u, v, c, y1, y2, o(k + 1, j), o(k - 1, j));
        assert(q * l == q * r);
        assert(l == r) by (nonlinear_arith) requires q * l == q * r, q > 0real;
    }
}
pub proof fn lemma_zero_j(k: int, i: int) requires k >= 0, i >= 0 ensures ht(k, i, 0) == (if k == i { 1real } else { 0real }) decreases i
{
    reveal_with_fuel(htrip, 1);
    if i > 0 {
        lemma_rec3(k, i, 0); lemma_qs(0); lemma_qs(k); lemma_qs(i);
        lemma_zero_j(k + 1, i - 1); if k >= 1 { lemma_zero_j(k - 1, i - 1); } if i >= 2 { lemma_zero_j(k, i - 2); }
        let (q, a, b, c, h) = (qs(i), qs(k + 1), qs(k), qs(i - 1), ht(k, i, 0));
        let (m, n, o) = (ht(k + 1, i - 1, 0), ht(k - 1, i - 1, 0), ht(k, i - 2, 0));
        assert(q * h == a * m + b * n - c * o);
        if k == i { assert(m == 0real && n == 1real && o == 0real); assert(h == 1real) by (nonlinear_arith) requires q * h == a * 0real + b * 1real - c * 0real, q > 0real, b == q; }
        else if k == i - 2 { assert(m == 1real && n == 0real && o == 1real); assert(h == 0real) by (nonlinear_arith) requires q * h == a * 1real + b * 0real - c * 1real, q > 0real, a == c; }
        else { assert(m == 0real && n == 0real && o == 0real); assert(h == 0real) by (nonlinear_arith) requires q * h == a * 0real + b * 0real - c * 0real, q > 0real; }
    }
}
pub proof fn lemma_hsym(k: int, i: int, j: int) requires k >= 0, i >= 0, j >= 0 ensures ht(k, i, j) == ht(k, j, i) decreases j
{
    reveal_with_fuel(htrip, 1);
    if j == 0 { lemma_zero_j(k, i); }
    else {
        lemma_comm(k, i, j - 1); lemma_rec3(k, j, i);
        lemma_hsym(k + 1, i, j - 1); if k >= 1 { lemma_hsym(k - 1, i, j - 1); } if j >= 2 { lemma_hsym(k, i, j - 2); }
        lemma_qs(0);
        let (q, c) = (qs(j), qs(j - 1));
        let (l, r) = (ht(k, i, j), ht(k, j, i));
        assert(q * l + c * ht(k, i, j - 2) == q * r + c * ht(k, j - 2, i));
        assert(c * ht(k, i, j - 2) == c * ht(k, j - 2, i));
        assert(l == r) by (nonlinear_arith) requires q * l == q * r, q > 0real;
    }
}
// the three contributions the code accumulates, restricted to the band
pub open spec fn t1(k: int, i: int, j: int) -> real { if j - i <= k <= j + i - 2 { qs(k + 1) / qs(i) * ht(k + 1, i - 1, j) } else { 0real } }
pub open spec fn t2(k: int, i: int, j: int) -> real { if j - i + 2 <= k <= j + i - 2 { -(qs(i - 1) / qs(i)) * ht(k, i - 2, j) } else { 0real } }
pub open spec fn t3(k: int, i: int, j: int) -> real { if j - i + 2 <= k <= j + i && k >= 1 { qs(k) / qs(i) * ht(k - 1, i - 1, j) } else { 0real } }
pub proof fn lemma_terms(k: int, i: int, j: int) requires k >= 0, i >= 1, j >= i ensures ht(k, i, j) == t1(k, i, j) + t2(k, i, j) + t3(k, i, j)
{
    lemma_rec3(k, i, j); lemma_qs(0);
    let q = qs(i);
    let (a, b, c) = (qs(k + 1), qs(k), qs(i - 1));
    let (m, n, o, h) = (ht(k + 1, i - 1, j), ht(k - 1, i - 1, j), ht(k, i - 2, j), ht(k, i, j));
    if !(j - i <= k <= j + i - 2) { lemma_band(k + 1, i - 1, j); assert(a * m == 0real) by (nonlinear_arith) requires m == 0real; }
    if !(j - i + 2 <= k <= j + i - 2) { if i >= 2 { lemma_band(k, i - 2, j); } assert(c * o == 0real) by (nonlinear_arith) requires o == 0real; }
    if !(j - i + 2 <= k <= j + i && k >= 1) { if k >= 1 { lemma_band(k - 1, i - 1, j); } assert(b * n == 0real) by (nonlinear_arith) requires n == 0real || b == 0real; }
    let w = 1real / q;
    assert(a / q * m == w * (a * m)) by (nonlinear_arith) requires q > 0real, w == 1real / q;
    assert(-(c / q) * o == -(w * (c * o))) by (nonlinear_arith) requires q > 0real, w == 1real / q;
    assert(b / q * n == w * (b * n)) by (nonlinear_arith) requires q > 0real, w == 1real / q;
    assert(h == w * (a * m) - w * (c * o) + w * (b * n)) by (nonlinear_arith) requires q * h == a * m + b * n - c * o, q > 0real, w == 1real / q;
    assert(w * 0real == 0real);
}
pub proof fn lemma_band2(k: int, i: int, j: int) requires k >= 0, i >= 0, j >= 0 ensures k - j > i || j - k > i ==> ht(k, i, j) == 0real
{ if k - j > i || j - k > i { lemma_band(k, i, j); } }
// state of the table: rows x < i complete for y >= x, row i complete for i <= y < j
pub open spec fn hdone(x: int, y: int, i: int, j: int) -> bool { x == 0 || x < i && y >= x || x == i && x <= y < j }
pub open spec fn hst(p: Vec<Vec<Vec<R>>>, d: int, i: int, j: int) -> bool {
    forall|z: int, x: int, y: int| 0 <= z <= 2 * d && 0 <= x <= d && 0 <= y <= d ==> #[trigger] at3(p, z, x, y) == (if hdone(x, y, i, j) { ht(z, x, y) } else { 0real })
}
pub open spec fn hpart(z: int, i: int, j: int, k1: int, k2: int, k3: int) -> real {
    (if z < k1 { t1(z, i, j) } else { 0real }) + (if z < k2 { t2(z, i, j) } else { 0real }) + (if z < k3 { t3(z, i, j) } else { 0real })
}
pub open spec fn hrow(p: Vec<Vec<Vec<R>>>, d: int, i: int, j: int, k1: int, k2: int, k3: int) -> bool {
    forall|z: int, x: int, y: int| 0 <= z <= 2 * d && 0 <= x <= d && 0 <= y <= d ==> #[trigger] at3(p, z, x, y) ==
        (if x == i && y == j { hpart(z, i, j, k1, k2, k3) } else if hdone(x, y, i, j) { ht(z, x, y) } else { 0real })
}
// the mirrored table: columns y < i, and column i up to row j, whose cells below k are also done
pub open spec fn hfin(p: Vec<Vec<Vec<R>>>, d: int, i: int, j: int, k: int) -> bool {
    forall|z: int, x: int, y: int| 0 <= z <= 2 * d && 0 <= x <= d && 0 <= y <= d ==> #[trigger] at3(p, z, x, y) ==
        (if x <= y || y < i || y == i && x < j { ht(z, x, y) } else if y == i && x == j && j - i <= z < k { ht(z, i, j) } else { 0real })
}
pub proof fn lemma_w(i: int, k: int) requires i >= 1, k >= 0
    ensures qs(i) > 0real, qs(k + 1) > 0real, 1real / qs(i) != 0real, 1real / qs(k + 1) != 0real, (1real / qs(i)) / (1real / qs(k + 1)) == qs(k + 1) / qs(i),
        (1real / qs(i)) / (1real / qs(k + 1)) * (qs(k) / qs(k + 1)) == qs(k) / qs(i)
{
    lemma_qs(i); lemma_qs(k + 1);
    let (q, a, b) = (qs(i), qs(k + 1), qs(k));
    let (w, u) = (1real / q, 1real / a);
    assert(w * q == 1real) by (nonlinear_arith) requires w == 1real / q, q > 0real;
    assert(u * a == 1real) by (nonlinear_arith) requires u == 1real / a, a > 0real;
    assert(u != 0real && w != 0real) by (nonlinear_arith) requires u * a == 1real, w * q == 1real;
    assert(w / u == a / q) by (nonlinear_arith) requires u * a == 1real, w * q == 1real, u != 0real, q > 0real;
    assert(a / q * (b / a) == b / q) by (nonlinear_arith) requires a > 0real, q > 0real;
}
pub proof fn lemma_htrip_sym(k: int, i: int, j: int) requires k >= 0, i >= 0, j >= 0 ensures htrip(k, i, j) == htrip(k, j, i)
{ lemma_hsym(k, i, j); }
