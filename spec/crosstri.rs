pub open spec fn cross_in_tri(dim: int, degree: int) -> Seq<int> { Seq::new(core_listv(dim, degree, "cross"@).len(), |i: int| core_indexv(core_listv(dim, degree, "cross"@)[i], "triangle"@)) }
pub proof fn lemma_ab(a: int, b: int) requires a >= 1, b >= 1 ensures a * b >= a + b - 1 { assert(a * b - a - b + 1 == (a - 1) * (b - 1)) by (nonlinear_arith); assert((a - 1) * (b - 1) >= 0) by (nonlinear_arith) requires a >= 1, b >= 1; }
pub proof fn lemma_sum_prod(m: Seq<int>, n: int) requires 1 <= n <= m.len(), forall|k: int| 0 <= k < m.len() ==> m[k] >= 0 ensures prod1(m, n) >= 1, sumi(m, n) <= prod1(m, n) + n - 1 decreases n
{
    reveal_with_fuel(prod1, 2); reveal_with_fuel(sumi, 2);
    let b = if m[n - 1] > 1 { m[n - 1] } else { 1 };
    if n == 1 { assert(prod1(m, 1) == prod1(m, 0) * b); assert(prod1(m, 0) == 1); assert(1 * b == b); }
    else { lemma_sum_prod(m, n - 1); lemma_ab(prod1(m, n - 1), b); }
}
// the multi-indices of a hyperbolic cross of degree d are in the triangle of degree d + dim - 1
pub proof fn lemma_cross_tri(dim: int, degree: int, big: int) requires dim >= 1, degree >= 1, degree + dim - 1 <= big
    ensures forall|i: int| 0 <= i < cross_in_tri(dim, degree).len() ==> 0 <= #[trigger] cross_in_tri(dim, degree)[i] < nsize(dim, big, "triangle"@)
{
    ax_cross_list(dim, degree);
    assert forall|i: int| 0 <= i < cross_in_tri(dim, degree).len() implies 0 <= #[trigger] cross_in_tri(dim, degree)[i] < nsize(dim, big, "triangle"@) by {
        let m = core_listv(dim, degree, "cross"@)[i];
        assert(m.len() == dim); assert(forall|k: int| 0 <= k < dim ==> m[k] >= 0);
        lemma_sum_prod(m, dim); ax_tri_index(m, big);
    }
}
