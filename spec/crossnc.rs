// ================================================================ non-consistent hyperbolic cross: successor
// enumerated as a subsequence of the triangle of degree max(d, 1) + dim - 1; closed by (max(d, 1), 1, ..., 1)
pub open spec fn nc_top(dim: int, d: int) -> MI { Seq::new(dim as nat, |i: int| if i == 0 { max1(d) as u32 } else { 1u32 }) }
pub proof fn lemma_nc_top_sums(dim: int, d: int, j: int)
    requires 0 <= j < dim, 0 <= d < 0x1_0000_0000 ensures psum(nc_top(dim, d), j) == max1(d) + j, pprod(nc_top(dim, d), j) == max1(d) decreases j
{
    let z = nc_top(dim, d); assert(psum(z, -1) == 0); assert(pprod(z, -1) == 1); assert(z[j] == (if j == 0 { max1(d) as u32 } else { 1u32 }));
    assert(psum(z, j) == psum(z, j - 1) + z[j] as int); assert(pprod(z, j) == pprod(z, j - 1) * mx1(z[j]));
    if j > 0 { lemma_nc_top_sums(dim, d, j - 1); assert(mx1(z[j]) == 1); } else { assert(mx1(z[j]) == max1(d)); }
}
pub proof fn lemma_sum_le_prod(m: MI, j: int)
    requires 0 <= j < m.len() ensures psum(m, j) <= pprod(m, j) + j decreases j
{
    assert(psum(m, -1) == 0); assert(pprod(m, -1) == 1); assert(psum(m, j) == psum(m, j - 1) + m[j] as int); assert(pprod(m, j) == pprod(m, j - 1) * mx1(m[j]));
    if j > 0 {
        lemma_sum_le_prod(m, j - 1); lemma_pprod_mono(m, j - 1, j - 1); let a = pprod(m, j - 1); let b = mx1(m[j]);
        assert(a + b - 1 <= a * b) by (nonlinear_arith) requires a >= 1, b >= 1;
    } else { assert(pprod(m, 0) == 1 * mx1(m[0])); }
}
pub proof fn lemma_nc_total(d: int, m: MI) requires inset(Kind::CrossNc, d, m), m.len() >= 1 ensures total(m) <= max1(d) + m.len() - 1
{ lemma_sum_le_prod(m, m.len() - 1); }
pub proof fn lemma_lt_nc(a: MI, b: MI) ensures lt(Kind::Triangle, a, b) == lt(Kind::CrossNc, a, b) { }
pub proof fn lemma_nc_top(dim: int, d: int, y: MI)
    requires dim >= 1, 0 <= d < 0x1_0000_0000
    ensures is_mi(Kind::CrossNc, dim, d, nc_top(dim, d)), is_mi(Kind::CrossNc, dim, d, y) ==> y == nc_top(dim, d) || lt(Kind::CrossNc, y, nc_top(dim, d)), is_last(Kind::CrossNc, d, nc_top(dim, d))
{
    let z = nc_top(dim, d); let k = Kind::CrossNc; lemma_nc_top_sums(dim, d, dim - 1);
    assert forall|x: MI| is_mi(k, dim, d, x) implies x == z || #[trigger] lt(k, x, z) by {
        assert forall|i: int| 0 <= i < dim implies ps(x)[i] <= ps(z)[i] by { lemma_sum_le_prod(x, i); lemma_pprod_mono(x, i, dim - 1); lemma_nc_top_sums(dim, d, i); }
        lemma_cx_le(ps(x), ps(z)); if ps(x) == ps(z) { lemma_ps_inj(x, z); }
    }
    assert forall|x: MI| x.len() == z.len() && inset(k, d, x) implies !#[trigger] lt(k, z, x) by {
        if lt(k, z, x) { assert(is_mi(k, dim, d, x)); assert(x == z || lt(k, x, z)); lemma_lt_irrefl(k, z); if x != z { lemma_lt_trans(k, z, x, z); } }
    }
}
// x: how far the scan of the triangle got
pub open spec fn nc_scan(d: int, m: MI, x: MI) -> bool {
    let k = Kind::CrossNc;
    x.len() == m.len() && total(x) <= max1(d) + m.len() - 1 && (x == m || lt(k, m, x)) && forall|y: MI| y.len() == m.len() && inset(k, d, y) && lt(k, m, y) ==> #[trigger] lt(k, x, y)
}
pub proof fn lemma_nc_more(d: int, m: MI, x: MI)
    requires inset(Kind::CrossNc, d, m), m.len() >= 1, 0 <= d < 0x1_0000_0000, nc_scan(d, m, x), m != nc_top(m.len() as int, d)
    ensures !is_last(Kind::Triangle, max1(d) + m.len() - 1, x)
{
    let n = m.len() as int; let z = nc_top(n, d); lemma_nc_top(n, d, m); lemma_nc_total(d, z);
    assert(is_mi(Kind::CrossNc, n, d, m));
    assert(lt(Kind::CrossNc, m, z)); assert(lt(Kind::CrossNc, x, z)); lemma_lt_nc(x, z); assert(inset(Kind::Triangle, max1(d) + n - 1, z));
}
pub proof fn lemma_nc_step(d: int, m: MI, x: MI, x2: MI)
    requires inset(Kind::CrossNc, d, m), m.len() >= 1, 0 <= d < 0x1_0000_0000, nc_scan(d, m, x), is_succ(Kind::Triangle, max1(d) + m.len() - 1, x, x2)
    ensures inset(Kind::CrossNc, d, x2) ==> is_succ(Kind::CrossNc, d, m, x2), !inset(Kind::CrossNc, d, x2) ==> nc_scan(d, m, x2)
{
    let k = Kind::CrossNc; let n = m.len() as int;
    lemma_lt_nc(x, x2); if x != m { lemma_lt_trans(k, m, x, x2); }
    assert forall|y: MI| y.len() == n && inset(k, d, y) && lt(k, m, y) implies y == x2 || #[trigger] lt(k, x2, y) by {
        assert(lt(k, x, y)); lemma_nc_total(d, y); lemma_lt_nc(x, y); lemma_lt_nc(x2, y); assert(inset(Kind::Triangle, max1(d) + n - 1, y)); assert(lt(Kind::Triangle, x, y)); assert(y == x2 || lt(Kind::Triangle, x2, y));
    }
    if !inset(k, d, x2) { assert forall|y: MI| y.len() == n && inset(k, d, y) && lt(k, m, y) implies #[trigger] lt(k, x2, y) by { } }
}
pub proof fn lemma_npow_pos(a: int, e: nat) requires a >= 1 ensures npow(a, e) >= 1 decreases e { lemma_npow_mono(a, a, e); }
pub proof fn lemma_nc_okp(dim: int, d: int) requires okp(Kind::CrossNc, dim, d) ensures okp(Kind::Triangle, dim, max1(d) + dim - 1)
{
    let a = max1(d) + dim - 1;
    if dim >= 2 {
        let p = npow(a, (dim - 2) as nat); lemma_npow_pos(a, (dim - 2) as nat);
        assert(npow(a, dim as nat) == npow(a, (dim - 1) as nat) * a || npow(a, dim as nat) == a * npow(a, (dim - 1) as nat)); assert(npow(a, (dim - 1) as nat) == a * p || npow(a, (dim - 1) as nat) == p * a);
        assert(a < 0x1_0000) by (nonlinear_arith) requires a * (a * p) < 0x1_0000_0000 || (a * p) * a < 0x1_0000_0000 || a * (p * a) < 0x1_0000_0000 || (p * a) * a < 0x1_0000_0000, a >= 1, p >= 1;
    }
}
// every partial product of entries <= a is at most a^j
pub proof fn lemma_prod_bound(m: MI, a: int, j: int)
    requires a >= 1, -1 <= j < m.len(), forall|t: int| 0 <= t < m.len() ==> m[t] as int <= a ensures 1 <= pprod(m, j) <= npow(a, (j + 1) as nat) decreases j + 1
{
    if j >= 0 {
        lemma_prod_bound(m, a, j - 1); let p = pprod(m, j - 1); let q = npow(a, j as nat); let b = mx1(m[j]); assert(m[j] as int <= a);
        assert(pprod(m, j) == p * b); assert(npow(a, (j + 1) as nat) == a * q || npow(a, (j + 1) as nat) == q * a);
        assert(1 <= p * b <= a * q && a * q == q * a) by (nonlinear_arith) requires 1 <= p <= q, 1 <= b <= a;
    }
}
pub proof fn lemma_npow_le(a: int, i: nat, j: nat) requires a >= 1, i <= j ensures npow(a, i) <= npow(a, j) decreases j
{ if i < j { lemma_npow_le(a, i, (j - 1) as nat); lemma_npow_pos(a, (j - 1) as nat); let q = npow(a, (j - 1) as nat); assert(npow(a, j) == a * q || npow(a, j) == q * a); assert(a * q >= q && q * a >= q) by (nonlinear_arith) requires a >= 1, q >= 1; } }
// the sets of degrees 0 and 1 coincide
pub proof fn lemma_nc_01(dim: int, n: int) requires size_is(Kind::CrossNc, dim, 0, n) ensures size_is(Kind::CrossNc, dim, 1, n)
{
    let k = Kind::CrossNc;
    if okp(k, dim, 1) {
        assert forall|l: Seq<MI>| #[trigger] valid_list(k, dim, 1, l) && l.len() < 0x1_0000_0000 implies n == l.len() by {
            assert forall|m: MI| is_mi(k, dim, 0, m) == is_mi(k, dim, 1, m) by { }
            assert(valid_list(k, dim, 0, l)) by { assert forall|m: MI| #[trigger] is_mi(k, dim, 0, m) implies l.contains(m) by { assert(is_mi(k, dim, 1, m)); } assert forall|i: int| 0 <= i < l.len() implies is_mi(k, dim, 0, #[trigger] l[i]) by { assert(is_mi(k, dim, 1, l[i])); } }
        }
    }
}
