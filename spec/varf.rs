// ================================================================ variational matrices
pub open spec fn trip(four: u32, k: int, i: int, j: int) -> real { if four == 1 { ftrip(k, i, j) } else { htrip(k, i, j) } }
pub open spec fn tpr(four: Seq<u32>, m: MI, x: MI, y: MI, n: int) -> real decreases n { if n <= 0 { 1real } else { tpr(four, m, x, y, n - 1) * trip(four[n - 1], m[n - 1] as int, x[n - 1] as int, y[n - 1] as int) } }
// coefficient number i of the transform of the input, their Euclidean norm, and which coefficients count
pub open spec fn hfc(t: Tr, i: int) -> real { fsum(t, elist(t.k, tdm(t), t.d)[i], gprod(npts(t.nodes), 0)) }
pub open spec fn hsq(t: Tr, n: int) -> real decreases n { if n <= 0 { 0real } else { hsq(t, n - 1) + abs_spec(hfc(t, n - 1)) * abs_spec(hfc(t, n - 1)) } }
pub open spec fn hnorm(t: Tr) -> real { let s = sqrt_spec(hsq(t, elist(t.k, tdm(t), t.d).len() as int)); if s < 1real { 1real } else { s } }
pub open spec fn kept(t: Tr, i: int) -> bool { !(abs_spec(hfc(t, i)) < ireal(1) / ireal(1000000000000) * hnorm(t)) }
pub open spec fn vsum(t: Tr, x: MI, y: MI, n: int) -> real decreases n { if n <= 0 { 0real } else { vsum(t, x, y, n - 1) + (if kept(t, n - 1) { tpr(t.four, elist(t.k, tdm(t), t.d)[n - 1], x, y, tdm(t)) * hfc(t, n - 1) } else { 0real }) } }
pub open spec fn vf_tr(k: Kind, degree: u32, input: Seq<R>, nodes: Seq<Vec<R>>, weights: Seq<Vec<R>>, four: Seq<u32>) -> Tr { Tr { k: k, d: 2 * degree as int, v: input, nodes: vr(nodes), weights: vr(weights), four: four } }
pub open spec fn vf_ok(t: Tr, degree: int) -> bool {
    tr_ok(t, true) && okd(t.k, tdm(t), degree) && t.four.len() == t.nodes.len() && forall|q: int| 0 <= q < t.four.len() ==> #[trigger] t.four[q] == 0 || t.four[q] == 1 && degree % 2 == 0
}
pub open spec fn vf_out(t: Tr, degree: int, nr: int, nc: int, e: Ent) -> bool {
    let l = elist(t.k, tdm(t), degree); is_deg(t.k, tdm(t), degree, nr) && nr == nc && valid_list(t.k, tdm(t), t.d, elist(t.k, tdm(t), t.d))
    && forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc ==> #[trigger] e(i, j) == vsum(t, l[i], l[j], elist(t.k, tdm(t), t.d).len() as int)
}
// the one-dimensional factors of the basis function m
pub open spec fn facs(f: Seq<Vec<Vec<R>>>, four: Seq<u32>, m: MI, degree: int, n: int) -> bool {
    forall|q: int| 0 <= q < n ==> wf_r2(#[trigger] f[q]) && nr_r2(f[q]) == degree + 1 && nc_r2(f[q]) == degree + 1 && forall|i: int, j: int| 0 <= i <= degree && 0 <= j <= degree ==> #[trigger] at_r2(f[q], i, j) == trip(four[q], m[q] as int, i, j)
}
pub proof fn lemma_pma_tpr(k: Kind, dim: int, degree: int, f: Seq<Vec<Vec<R>>>, four: Seq<u32>, m: MI, x: MI, y: MI, n: int)
    requires facs(f, four, m, degree, dim), f.len() == dim, 0 <= n <= dim, okd(k, dim, degree), is_mi(k, dim, degree, x), is_mi(k, dim, degree, y)
    ensures pma(es_r2(f), x, y, n) == tpr(four, m, x, y, n) decreases n
{
    if n > 0 {
        lemma_pma_tpr(k, dim, degree, f, four, m, x, y, n - 1); lemma_entry_le(k, dim, degree, x, n - 1); lemma_entry_le(k, dim, degree, y, n - 1); let q = n - 1; assert(wf_r2(f[q]));
        assert(at_r2(f[q], x[q] as int, y[q] as int) == trip(four[q], m[q] as int, x[q] as int, y[q] as int));
    }
}
// products p (k, i, j) of one direction: the slice k
pub proof fn lemma_slice(p: Vec<Vec<Vec<R>>>, degree: int, k: int) requires box3(p, 2 * degree + 1, degree + 1, degree + 1), 0 <= k <= 2 * degree, degree >= 0
    ensures wf_r2(p@[k]), nr_r2(p@[k]) == degree + 1, nc_r2(p@[k]) == degree + 1, forall|i: int, j: int| 0 <= i <= degree && 0 <= j <= degree ==> #[trigger] at_r2(p@[k], i, j) == at3(p, k, i, j)
{
    assert(p@[k]@.len() == degree + 1);
    assert forall|i: int| 0 <= i < p@[k]@.len() implies (#[trigger] p@[k]@[i])@.len() == p@[k]@[0]@.len() by { assert(p@[k]@[0]@.len() == degree + 1); assert(p@[k]@[i]@.len() == degree + 1); }
    assert(p@[k]@[0]@.len() == degree + 1);
    assert forall|i: int, j: int| 0 <= i <= degree && 0 <= j <= degree implies #[trigger] at_r2(p@[k], i, j) == at3(p, k, i, j) by { assert(p@[k]@[i]@.len() == degree + 1); lemma_at3(p, k, i, j); }
}
// the elements of a list that belong to the smaller set, in the same order: the enumeration of the smaller set
pub open spec fn sub_to(k: Kind, d: int, l: Seq<MI>, n: int) -> Seq<MI> decreases n { if n <= 0 { Seq::empty() } else if inset(k, d, l[n - 1]) { sub_to(k, d, l, n - 1).push(l[n - 1]) } else { sub_to(k, d, l, n - 1) } }
pub proof fn lemma_sub_to(k: Kind, d: int, l: Seq<MI>, n: int)
    requires sorted(k, l), 0 <= n <= l.len()
    ensures sorted(k, sub_to(k, d, l, n)), sub_to(k, d, l, n).len() <= n, forall|i: int| 0 <= i < sub_to(k, d, l, n).len() ==> inset(k, d, #[trigger] sub_to(k, d, l, n)[i]) && has_to(l, n, sub_to(k, d, l, n)[i]),
        forall|t: int| 0 <= t < n && inset(k, d, #[trigger] l[t]) ==> sub_to(k, d, l, n).contains(l[t])
    decreases n
{
    if n > 0 {
        lemma_sub_to(k, d, l, n - 1);
        let s0 = sub_to(k, d, l, n - 1); let s = sub_to(k, d, l, n);
        if inset(k, d, l[n - 1]) {
            assert(s == s0.push(l[n - 1]));
            assert forall|i: int| 0 <= i < s.len() implies inset(k, d, #[trigger] s[i]) && has_to(l, n, s[i]) by {
                if i < s0.len() { assert(s[i] == s0[i]); let t = choose|t: int| 0 <= t < n - 1 && #[trigger] l[t] == s0[i]; assert(l[t] == s[i]); } else { assert(l[n - 1] == s[i]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(k, #[trigger] s[i], #[trigger] s[j]) by {
                if j < s0.len() { assert(s[i] == s0[i] && s[j] == s0[j]); } else { assert(s[i] == s0[i]); assert(has_to(l, n - 1, s0[i])); let t = choose|t: int| 0 <= t < n - 1 && #[trigger] l[t] == s0[i]; assert(lt(k, l[t], l[n - 1])); }
            }
            assert forall|t: int| 0 <= t < n && inset(k, d, #[trigger] l[t]) implies s.contains(l[t]) by {
                if t < n - 1 { assert(s0.contains(l[t])); let i = choose|i: int| 0 <= i < s0.len() && s0[i] == l[t]; assert(s[i] == l[t]); } else { assert(s[s.len() - 1] == l[t]); }
            }
        } else {
            assert forall|i: int| 0 <= i < s.len() implies inset(k, d, #[trigger] s[i]) && has_to(l, n, s[i]) by { let t = choose|t: int| 0 <= t < n - 1 && #[trigger] l[t] == s0[i]; assert(l[t] == s[i]); }
        }
    }
}
pub proof fn lemma_sub_list(k: Kind, dim: int, d: int, l: Seq<MI>)
    requires valid_list(k, dim, 2 * d, l), d >= 0
    ensures exists|s: Seq<MI>| #[trigger] valid_list(k, dim, d, s) && s.len() <= l.len(), valid_list(k, dim, d, elist(k, dim, d)), elist(k, dim, d).len() <= l.len()
{
    let s = sub_to(k, d, l, l.len() as int);
    lemma_sub_to(k, d, l, l.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies is_mi(k, dim, d, #[trigger] s[i]) by { let t = choose|t: int| 0 <= t < l.len() && #[trigger] l[t] == s[i]; assert(is_mi(k, dim, 2 * d, l[t])); }
    assert forall|m: MI| #[trigger] is_mi(k, dim, d, m) implies s.contains(m) by {
        assert(inset(k, 2 * d, m)) by { match k { Kind::Rectangle => { assert forall|i: int| 0 <= i < m.len() implies fac(k, i) * (#[trigger] m[i] as int) <= 2 * d by {} }, _ => {} } }
        assert(is_mi(k, dim, 2 * d, m)); assert(l.contains(m)); let t = choose|t: int| 0 <= t < l.len() && l[t] == m; assert(s.contains(l[t]));
    }
    assert(valid_list(k, dim, d, s)); lemma_elist(k, dim, d, s);
}
