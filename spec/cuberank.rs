// ================================================================ cube: closed-form position
pub open spec fn radix(w: int, mx: int, t: int) -> int { if t < w { mx + 1 } else { mx } }
// product of the radices of the digits below j, the digit w left out
pub open spec fn fprod(w: int, mx: int, j: int) -> int decreases j { if j <= 0 { 1 } else if j - 1 == w { fprod(w, mx, j - 1) } else { fprod(w, mx, j - 1) * radix(w, mx, j - 1) } }
pub open spec fn dsum(m: MI, w: int, mx: int, j: int) -> int decreases j { if j <= 0 { 0 } else if j - 1 == w { dsum(m, w, mx, j - 1) } else { dsum(m, w, mx, j - 1) + fprod(w, mx, j - 1) * (m[j - 1] as int) } }
pub open spec fn gsum(n: int, mx: int, j: int) -> int decreases j { if j <= 0 { npow(mx, n as nat) } else { gsum(n, mx, j - 1) + npow(mx, (n - (j - 1) - 1) as nat) * npow(mx + 1, (j - 1) as nat) } }
pub open spec fn cube_rank(m: MI) -> int { let k = Kind::Cube; gsum(m.len() as int, wmax(k, m), wind(k, m)) + dsum(m, wind(k, m), wmax(k, m), m.len() as int) }
pub proof fn lemma_npow_nonneg(a: int, e: nat) requires a >= 0 ensures npow(a, e) >= 0 decreases e
{ if e > 0 { lemma_npow_nonneg(a, (e - 1) as nat); assert(a * npow(a, (e - 1) as nat) >= 0) by (nonlinear_arith) requires a >= 0, npow(a, (e - 1) as nat) >= 0; } }
pub proof fn lemma_gsum(n: int, mx: int, j: int)
    requires 0 <= j <= n, mx >= 0 ensures gsum(n, mx, j) == npow(mx, (n - j) as nat) * npow(mx + 1, j as nat) decreases j
{
    if j > 0 {
        lemma_gsum(n, mx, j - 1);
        let a = npow(mx, (n - j) as nat); let b = npow(mx + 1, (j - 1) as nat);
        assert(npow(mx, (n - j + 1) as nat) == mx * a);
        assert(npow(mx + 1, j as nat) == (mx + 1) * b);
        assert((mx * a) * b + a * b == a * ((mx + 1) * b)) by (nonlinear_arith);
    } else { assert(npow(mx + 1, 0) == 1); }
}
// the group (mx, w) has fprod(w, mx, n) elements
pub proof fn lemma_fprod(n: int, w: int, mx: int, j: int)
    requires 0 <= w < n, 0 <= j <= n, mx >= 0
    ensures fprod(w, mx, j) == (if j <= w { npow(mx + 1, j as nat) } else { npow(mx + 1, w as nat) * npow(mx, (j - 1 - w) as nat) })
    decreases j
{
    if j > 0 {
        lemma_fprod(n, w, mx, j - 1);
        if j <= w { let b = npow(mx + 1, (j - 1) as nat); assert(npow(mx + 1, j as nat) == (mx + 1) * b); assert(b * (mx + 1) == (mx + 1) * b) by (nonlinear_arith); }
        else if j - 1 == w { assert(npow(mx, 0) == 1); assert(npow(mx + 1, w as nat) * 1 == npow(mx + 1, w as nat)); }
        else { let a = npow(mx + 1, w as nat); let b = npow(mx, (j - 2 - w) as nat); assert(npow(mx, (j - 1 - w) as nat) == mx * b); assert((a * b) * mx == a * (mx * b)) by (nonlinear_arith); }
    }
}
pub proof fn lemma_group_total(n: int, w: int, mx: int)
    requires 0 <= w < n, mx >= 0 ensures gsum(n, mx, w) + fprod(w, mx, n) == gsum(n, mx, w + 1)
{
    lemma_fprod(n, w, mx, n);
    let a = npow(mx, (n - w - 1) as nat); let b = npow(mx + 1, w as nat);
    assert(b * a == a * b) by (nonlinear_arith);
}
// all digits at their maximum
pub proof fn lemma_dsum_max(m: MI, w: int, mx: int, j: int)
    requires 0 <= j <= m.len(), forall|t: int| 0 <= t < j && t != w ==> m[t] as int == radix(w, mx, t) - 1
    ensures dsum(m, w, mx, j) == fprod(w, mx, j) - 1
    decreases j
{
    if j > 0 {
        lemma_dsum_max(m, w, mx, j - 1);
        if j - 1 != w { let f = fprod(w, mx, j - 1); let r = radix(w, mx, j - 1); assert(m[j - 1] as int == r - 1); assert(f * (m[j - 1] as int) == f * r - f) by (nonlinear_arith) requires m[j - 1] as int == r - 1; }
    }
}
pub proof fn lemma_dsum_zero(m: MI, w: int, mx: int, j: int)
    requires 0 <= j <= m.len(), forall|t: int| 0 <= t < j && t != w ==> m[t] == 0 ensures dsum(m, w, mx, j) == 0 decreases j
{ if j > 0 { lemma_dsum_zero(m, w, mx, j - 1); if j - 1 != w { assert(fprod(w, mx, j - 1) * 0 == 0); } } }
pub proof fn lemma_dsum_ext(a: MI, b: MI, w: int, mx: int, i: int, j: int)
    requires 0 <= i <= j <= a.len(), a.len() == b.len(), forall|t: int| i <= t < j ==> a[t] == b[t]
    ensures dsum(a, w, mx, j) - dsum(a, w, mx, i) == dsum(b, w, mx, j) - dsum(b, w, mx, i) decreases j
{ if j > i { lemma_dsum_ext(a, b, w, mx, i, j - 1); } }
pub proof fn lemma_digit_max(m: MI, t: int)
    requires 0 <= t < m.len(), !inc_ok(Kind::Cube, m, t), t != wind(Kind::Cube, m)
    ensures m[t] as int == radix(wind(Kind::Cube, m), wmax(Kind::Cube, m), t) - 1
{ lemma_group_entry(Kind::Cube, m, t); let f = fac(Kind::Cube, t); assert(f == 1); let x = m[t] as int; assert(f * x == x) by (nonlinear_arith) requires f == 1; assert(f * (x + 1) == x + 1) by (nonlinear_arith) requires f == 1; }
pub open spec fn cube_next(m: MI) -> MI {
    let k = Kind::Cube; let p = first_inc(k, m, 0); let w = wind(k, m); let n = m.len() as int;
    if p < n { Seq::new(m.len(), |t: int| if t == p { (m[p] + 1) as u32 } else if t < p && t != w { 0u32 } else { m[t] }) }
    else if w + 1 < n { Seq::new(m.len(), |t: int| if t == w + 1 { wmax(k, m) as u32 } else { 0u32 }) }
    else { Seq::new(m.len(), |t: int| if t == 0 { (wmax(k, m) + 1) as u32 } else { 0u32 }) }
}
pub proof fn lemma_cube_next(d: int, m: MI)
    requires m.len() >= 1, 0 <= d < 0xffff_ffff, inset(Kind::Cube, d, m)
    ensures is_last(Kind::Cube, d, m) || (is_succ(Kind::Cube, d, m, cube_next(m)) && cube_rank(cube_next(m)) == cube_rank(m) + 1),
        is_last(Kind::Cube, d, m) ==> wmax(Kind::Cube, m) >= d || is_succ(Kind::Cube, d, m, cube_next(m)),
{
    let k = Kind::Cube; let n = m.len() as int; let mx = wmax(k, m); let w = wind(k, m); let m2 = cube_next(m);
    lemma_wmax_ge(k, m, n); lemma_cr_inset(k, d, m); lemma_first_inc(k, m, 0);
    let p = first_inc(k, m, 0); let q = next_div(k, m, w + 1);
    lemma_next_div(k, m, w + 1);
    assert(mx % 1 == 0);
    assert(wgt(k, m, w) == m[w] as int);
    lemma_group_entry(k, m, w);
    if p < n {
        lemma_group_entry(k, m, p);
        assert(p != w);
        assert(cr_a(k, m, p, m2)); lemma_cr_a(k, d, m, p, m2);
        lemma_dsum_ext(m, m2, w, mx, p + 1, n);
        assert forall|t: int| 0 <= t < p && t != w implies m[t] as int == radix(w, mx, t) - 1 by { lemma_digit_max(m, t); }
        lemma_dsum_max(m, w, mx, p);
        lemma_dsum_zero(m2, w, mx, p);
        let f = fprod(w, mx, p);
        assert(dsum(m, w, mx, p + 1) == dsum(m, w, mx, p) + f * (m[p] as int)); assert(dsum(m2, w, mx, p + 1) == dsum(m2, w, mx, p) + f * (m2[p] as int));
        assert(f * (m[p] + 1) == f * (m[p] as int) + f) by (nonlinear_arith);
    } else {
        assert forall|t: int| 0 <= t < n && t != w implies m[t] as int == radix(w, mx, t) - 1 by { lemma_digit_max(m, t); }
        lemma_dsum_max(m, w, mx, n);
        lemma_group_total(n, w, mx);
        if w + 1 < n {
            assert(fac(k, w + 1) == 1); assert(q == w + 1);
            assert(mx > 0) by { if mx == 0 { assert(wgt(k, m, w + 1) >= 0); } }
            assert(cr_unit(k, n, mx, q, m2)); lemma_cr_b(k, d, m, q, m2);
            lemma_dsum_zero(m2, w + 1, mx, n);
        } else {
            assert(q == n);
            if mx >= d { lemma_cr_last(k, d, m); }
            else {
                assert(cr_unit(k, n, mx + 1, 0, m2)); lemma_cr_c(k, d, m, m2);
                lemma_dsum_zero(m2, 0, mx + 1, n);
                lemma_gsum(n, mx, n); assert(npow(mx, 0) == 1);
                assert(1 * npow(mx + 1, n as nat) == npow(mx + 1, n as nat));
            }
        }
    }
}
pub proof fn lemma_cube_list_rank(dim: int, d: int, l: Seq<MI>, i: int)
    requires valid_list(Kind::Cube, dim, d, l), dim >= 1, 0 <= d < 0xffff_ffff, 0 <= i < l.len()
    ensures cube_rank(l[i]) == i
    decreases i
{
    let k = Kind::Cube;
    if i == 0 {
        lemma_list_first(k, dim, d, l); let z = zeros(dim);
        lemma_wmax_ge(k, z, dim);
        assert(wmax(k, z) == 0) by { assert(wgt(k, z, wind(k, z)) == 0); }
        lemma_gsum(dim, 0, wind(k, z)); lemma_dsum_zero(z, wind(k, z), 0, dim);
        assert(npow(0, (dim - wind(k, z)) as nat) == 0) by { assert(dim - wind(k, z) > 0); let e = (dim - wind(k, z) - 1) as nat; assert(npow(0, (e + 1) as nat) == 0 * npow(0, e)); }
        assert(0 * npow(1, wind(k, z) as nat) == 0);
    } else {
        lemma_cube_list_rank(dim, d, l, i - 1);
        let m = l[i - 1]; assert(is_mi(k, dim, d, m)); assert(is_mi(k, dim, d, l[i])); assert(lt(k, m, l[i]));
        lemma_cube_next(d, m);
        lemma_list_step(k, dim, d, l, i - 1, cube_next(m));
    }
}
pub proof fn lemma_gsum_mono(n: int, mx: int, i: int, j: int) requires 0 <= i <= j <= n, mx >= 0 ensures 0 <= gsum(n, mx, i) <= gsum(n, mx, j) decreases j, i
{
    if i < j { lemma_gsum_mono(n, mx, i, j - 1); lemma_npow_nonneg(mx, (n - (j - 1) - 1) as nat); lemma_npow_nonneg(mx + 1, (j - 1) as nat);
        assert(npow(mx, (n - (j - 1) - 1) as nat) * npow(mx + 1, (j - 1) as nat) >= 0) by (nonlinear_arith) requires npow(mx, (n - (j - 1) - 1) as nat) >= 0, npow(mx + 1, (j - 1) as nat) >= 0; }
    else if i == 0 { lemma_npow_nonneg(mx, n as nat); } else { lemma_gsum_mono(n, mx, i - 1, i); }
}
pub proof fn lemma_dsum_mono(m: MI, w: int, mx: int, i: int, j: int) requires 0 <= i <= j <= m.len(), mx >= 0 ensures 0 <= dsum(m, w, mx, i) <= dsum(m, w, mx, j), fprod(w, mx, i) >= 0 decreases j, i
{
    if i < j {
        lemma_dsum_mono(m, w, mx, i, j - 1);
        if j - 1 != w { lemma_dsum_mono(m, w, mx, j - 1, j - 1); assert(fprod(w, mx, j - 1) * (m[j - 1] as int) >= 0) by (nonlinear_arith) requires fprod(w, mx, j - 1) >= 0, m[j - 1] >= 0; }
    } else if i > 0 {
        lemma_dsum_mono(m, w, mx, i - 1, i - 1);
        if i - 1 != w { assert(fprod(w, mx, i - 1) * (m[i - 1] as int) >= 0) by (nonlinear_arith) requires fprod(w, mx, i - 1) >= 0, m[i - 1] >= 0;
            assert(fprod(w, mx, i - 1) * radix(w, mx, i - 1) >= 0) by (nonlinear_arith) requires fprod(w, mx, i - 1) >= 0, radix(w, mx, i - 1) >= 0; }
    }
}
// 32-bit arithmetic is arithmetic modulo 2^32
pub proof fn lemma_mod_mul(f: int, fm: int, x: int)
    requires fm == f % P32 ensures (fm * x) % P32 == (f * x) % P32
{ lemma_mul_mod_noop_left(f, x, P32); }
pub proof fn lemma_mod_add(a: int, am: int, b: int, bm: int)
    requires am == a % P32, bm == b % P32 ensures (a + b) % P32 == (if am + bm < P32 { am + bm } else { am + bm - P32 })
{ lemma_add_mod_noop(a, b, P32); if am + bm < P32 { lemma_small_mod((am + bm) as nat, P32 as nat); } else { lemma_small_mod((am + bm - P32) as nat, P32 as nat); lemma_mod_sub_multiples_vanish(am + bm, P32); } }
pub proof fn lemma_cube_step(s: int, sm: int, f: int, fm: int, x: int)
    requires fm == f % P32, 0 <= x < P32
    ensures sm == s % P32 ==> (s + f * x) % P32 == (if sm + (fm * x) % P32 < P32 { sm + (fm * x) % P32 } else { sm + (fm * x) % P32 - P32 })
{ lemma_mod_mul(f, fm, x); if sm == s % P32 { lemma_mod_add(s, sm, f * x, (f * x) % P32); } }
