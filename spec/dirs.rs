// ================================================================ series on an index set; sub-directions
// the enumeration, as a function of (set, dimension, degree)
pub open spec fn elist(k: Kind, dim: int, d: int) -> Seq<MI> { choose|l: Seq<MI>| valid_list(k, dim, d, l) }
// n coefficients make a series of degree d
pub open spec fn is_deg(k: Kind, dim: int, d: int, n: int) -> bool { okd(k, dim, d) && valid_list(k, dim, d, elist(k, dim, d)) && elist(k, dim, d).len() == n && n < 0x1_0000_0000 }
pub proof fn lemma_deg_pos(k: Kind, dim: int, d: int, n: int) requires is_deg(k, dim, d, n) ensures n >= 1 { lemma_list_first(k, dim, d, elist(k, dim, d)); }
pub open spec fn has_deg(k: Kind, dim: int, n: int) -> bool { exists|d: int| is_deg(k, dim, d, n) }
pub proof fn lemma_elist(k: Kind, dim: int, d: int, l: Seq<MI>)
    requires valid_list(k, dim, d, l) ensures valid_list(k, dim, d, elist(k, dim, d)), l == elist(k, dim, d)
{ lemma_list_unique(k, dim, d, l, elist(k, dim, d)); }
// position of a multi-index in a list, coefficient of a series at a multi-index (zero outside of the set)
pub open spec fn pos(l: Seq<MI>, m: MI) -> int { choose|t: int| 0 <= t < l.len() && l[t] == m }
pub open spec fn has_to(l: Seq<MI>, n: int, m: MI) -> bool { exists|t: int| 0 <= t < n && #[trigger] l[t] == m }
pub open spec fn cu(l: Seq<MI>, n: int, v: Seq<R>, m: MI) -> real { if has_to(l, n, m) { v[pos(l, m)].v() } else { 0real } }
pub open spec fn coef(k: Kind, dim: int, d: int, v: Seq<R>, m: MI) -> real { cu(elist(k, dim, d), elist(k, dim, d).len() as int, v, m) }
pub proof fn lemma_pos(k: Kind, l: Seq<MI>, t: int)
    requires sorted(k, l), 0 <= t < l.len() ensures pos(l, l[t]) == t
{ lemma_sorted_distinct(k, l, t, pos(l, l[t])); }
pub proof fn lemma_pos_of(k: Kind, l: Seq<MI>, m: MI)
    requires sorted(k, l), l.contains(m) ensures 0 <= pos(l, m) < l.len(), l[pos(l, m)] == m, forall|t: int| 0 <= t < l.len() && #[trigger] l[t] == m ==> t == pos(l, m)
{ assert forall|t: int| 0 <= t < l.len() && #[trigger] l[t] == m implies t == pos(l, m) by { lemma_pos(k, l, t); } }
pub proof fn lemma_cu_step(k: Kind, l: Seq<MI>, n: int, v: Seq<R>, m: MI)
    requires sorted(k, l), 0 <= n < l.len() ensures cu(l, n + 1, v, m) == (if l[n] == m { v[n].v() } else { cu(l, n, v, m) })
{
    if l[n] == m { lemma_pos(k, l, n); }
    else if has_to(l, n + 1, m) { let t = choose|t: int| 0 <= t < n + 1 && #[trigger] l[t] == m; assert(0 <= t < n); }
    else if has_to(l, n, m) { let t = choose|t: int| 0 <= t < n && #[trigger] l[t] == m; assert(l[t] == m && 0 <= t < n + 1); }
}

// ---- sub-directions: dirs[j] is the direction of R^dim in which coordinate j of the sub-space lies
pub open spec fn good_dirs(k: Kind, dim: int, dirs: Seq<u32>) -> bool {
    &&& 1 <= dirs.len()
    &&& forall|j: int| 0 <= j < dirs.len() ==> #[trigger] dirs[j] < dim
    &&& forall|i: int, j: int| 0 <= i < j < dirs.len() ==> #[trigger] dirs[i] != #[trigger] dirs[j]
    &&& (k is Rectangle ==> forall|j: int| 0 < j < dirs.len() ==> #[trigger] dirs[j] != 0)
}
pub open spec fn extr(m: MI, dirs: Seq<u32>) -> MI { Seq::new(dirs.len(), |j: int| m[dirs[j] as int]) }
pub open spec fn dpos(dirs: Seq<u32>, q: int) -> int { choose|j: int| 0 <= j < dirs.len() && dirs[j] as int == q }
pub open spec fn emb(dim: int, dirs: Seq<u32>, n: MI) -> MI { Seq::new(dim as nat, |q: int| if in_seq(dirs, q) { n[dpos(dirs, q)] } else { 0u32 }) }
pub open spec fn aligned(m: MI, dirs: Seq<u32>) -> bool { forall|j: int| 0 <= j < m.len() && m[j] != 0 ==> in_seq(dirs, j) }

pub proof fn lemma_extr_emb(k: Kind, dim: int, dirs: Seq<u32>, n: MI)
    requires good_dirs(k, dim, dirs), n.len() == dirs.len() ensures extr(emb(dim, dirs, n), dirs) == n, aligned(emb(dim, dirs, n), dirs)
{
    let e = emb(dim, dirs, n);
    assert forall|j: int| 0 <= j < dirs.len() implies extr(e, dirs)[j] == n[j] by {
        let q = dirs[j] as int; assert(in_seq(dirs, q)); let t = dpos(dirs, q);
        if t < j { assert(dirs[t] != dirs[j]); } if j < t { assert(dirs[j] != dirs[t]); }
    }
    assert(extr(e, dirs) =~= n);
}
pub proof fn lemma_emb_extr(k: Kind, dim: int, dirs: Seq<u32>, m: MI)
    requires good_dirs(k, dim, dirs), m.len() == dim, aligned(m, dirs) ensures emb(dim, dirs, extr(m, dirs)) == m
{
    let e = emb(dim, dirs, extr(m, dirs));
    assert forall|q: int| 0 <= q < dim implies e[q] == m[q] by { if in_seq(dirs, q) { let t = dpos(dirs, q); assert(0 <= t < dirs.len() && dirs[t] as int == q); } }
    assert(e =~= m);
}
// sub-multi-indices of elements of a set are elements of the set in the sub-dimension
pub proof fn lemma_sum_upd(m: MI, p: int, i: int) requires 0 <= p < m.len(), -1 <= i < m.len()
    ensures psum(m.update(p, 0u32), i) == psum(m, i) - (if p <= i { m[p] as int } else { 0 }) decreases i + 1
{ if i >= 0 { lemma_sum_upd(m, p, i - 1); } }
pub proof fn lemma_prod_upd(m: MI, p: int, i: int) requires 0 <= p < m.len(), -1 <= i < m.len()
    ensures pprod(m, i) == pprod(m.update(p, 0u32), i) * (if p <= i { mx1(m[p]) } else { 1 }) decreases i + 1
{
    if i >= 0 {
        lemma_prod_upd(m, p, i - 1); let u = m.update(p, 0u32);
        let a = pprod(u, i - 1); let b = mx1(m[p]); let c = mx1(m[i]);
        if p < i { assert((a * b) * c == (a * c) * b) by (nonlinear_arith); assert(u[i] == m[i]); }
        else if p == i { assert(mx1(u[i]) == 1); assert(pprod(u, i) == a * 1); }
        else { assert(u[i] == m[i]); }
    }
}
pub proof fn lemma_psum_ext(a: MI, b: MI, i: int) requires i < a.len(), i < b.len(), forall|j: int| 0 <= j <= i ==> a[j] == b[j]
    ensures psum(a, i) == psum(b, i), pprod(a, i) == pprod(b, i) decreases i + 1
{ if i >= 0 { lemma_psum_ext(a, b, i - 1); } }
pub proof fn lemma_extr_sums(dim: int, m: MI, dirs: Seq<u32>)
    requires m.len() == dim, forall|j: int| 0 <= j < dirs.len() ==> #[trigger] dirs[j] < dim, forall|i: int, j: int| 0 <= i < j < dirs.len() ==> #[trigger] dirs[i] != #[trigger] dirs[j]
    ensures total(extr(m, dirs)) <= total(m), prod1(extr(m, dirs)) <= prod1(m)
    decreases dirs.len()
{
    let n = dirs.len() as int;
    lemma_psum_mono(m, -1, dim - 1); lemma_pprod_mono(m, -1, dim - 1);
    if n > 0 {
        let p = dirs[n - 1] as int; let u = m.update(p, 0u32); let dl = dirs.subrange(0, n - 1);
        lemma_extr_sums(dim, u, dl);
        let x = extr(m, dirs); let y = extr(u, dl);
        assert forall|j: int| 0 <= j < n - 1 implies x[j] == y[j] by { assert(dirs[j] != dirs[n - 1]); }
        lemma_psum_ext(x, y, n - 2);
        assert(psum(x, n - 1) == psum(x, n - 2) + m[p] as int); assert(pprod(x, n - 1) == pprod(x, n - 2) * mx1(m[p]));
        lemma_sum_upd(m, p, dim - 1); lemma_prod_upd(m, p, dim - 1);
        assert(pprod(x, n - 2) * mx1(m[p]) <= prod1(u) * mx1(m[p])) by (nonlinear_arith) requires pprod(x, n - 2) <= prod1(u), mx1(m[p]) >= 1;
    }
}
pub proof fn lemma_extr_inset(k: Kind, dim: int, d: int, m: MI, dirs: Seq<u32>)
    requires good_dirs(k, dim, dirs), is_mi(k, dim, d, m) ensures is_mi(k, dirs.len() as int, d, extr(m, dirs))
{
    lemma_extr_sums(dim, m, dirs); let x = extr(m, dirs);
    if k is Cube { assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] as int <= d by { let q = dirs[i] as int; assert(m[q] as int <= d); } }
    if k is Rectangle {
        assert forall|i: int| 0 <= i < x.len() implies fac(k, i) * (#[trigger] x[i] as int) <= d by {
            let q = dirs[i] as int; assert(fac(k, q) * (m[q] as int) <= d);
            assert(fac(k, i) * (x[i] as int) <= fac(k, q) * (m[q] as int)) by (nonlinear_arith) requires x[i] == m[q], 1 <= fac(k, i) <= fac(k, q), m[q] >= 0;
        }
    }
}
pub proof fn lemma_ndirs(dim: int, dirs: Seq<u32>)
    requires dim >= 0, forall|j: int| 0 <= j < dirs.len() ==> #[trigger] dirs[j] < dim, forall|i: int, j: int| 0 <= i < j < dirs.len() ==> #[trigger] dirs[i] != #[trigger] dirs[j]
    ensures dirs.len() <= dim
    decreases dim
{
    // the multi-index (1, ..., 1) sums to dim
    let m = Seq::new(dim as nat, |i: int| 1u32); lemma_extr_sums(dim, m, dirs);
    lemma_ones_sum(m, dim - 1); lemma_ones_sum(extr(m, dirs), dirs.len() - 1);
}
pub proof fn lemma_ones_sum(m: MI, i: int) requires -1 <= i < m.len(), forall|j: int| 0 <= j < m.len() ==> m[j] == 1 ensures psum(m, i) == i + 1 decreases i + 1 { if i >= 0 { lemma_ones_sum(m, i - 1); } }
pub proof fn lemma_npow_exp(a: int, i: nat, j: nat) requires a >= 1, i <= j ensures 1 <= npow(a, i) <= npow(a, j) decreases j
{
    lemma_npow_mono(a, a, i);
    if i < j { lemma_npow_exp(a, i, (j - 1) as nat); let p = npow(a, (j - 1) as nat); assert(a * p >= p) by (nonlinear_arith) requires a >= 1, p >= 1; }
}
pub proof fn lemma_ok_sub(k: Kind, dim: int, e: int, d: int) requires okp(k, dim, d), 1 <= e <= dim ensures okp(k, e, d), okd(k, dim, d) ==> okd(k, e, d)
{
    if k is CrossNc { lemma_npow_mono(max1(d) + e - 1, max1(d) + dim - 1, e as nat); lemma_npow_exp(max1(d) + dim - 1, e as nat, dim as nat); }
}
// what every function taking a series of n coefficients in dimension dim starts from
pub open spec fn the_deg(k: Kind, dim: int, n: int) -> int { choose|d: int| is_deg(k, dim, d, n) }
pub proof fn lemma_deg_unique(k: Kind, dim: int, n: int, d: int, e: int) requires is_deg(k, dim, d, n), is_deg(k, dim, e, n) ensures d == e
{
    if d < e { lemma_deg_less(k, dim, n, d, e); } else if e < d { lemma_deg_less(k, dim, n, e, d); }
}
pub proof fn lemma_deg_less(k: Kind, dim: int, n: int, d: int, e: int) requires is_deg(k, dim, d, n), is_deg(k, dim, e, n), d < e ensures false
{
    let a = elist(k, dim, d); let b = elist(k, dim, e);
    assert forall|l: Seq<MI>| #[trigger] valid_list(k, dim, d, l) && l.len() < 0x1_0000_0000 implies n == l.len() by { lemma_list_unique(k, dim, d, l, a); }
    lemma_get_degree(k, dim, e, b, d);
}
pub proof fn lemma_series(k: Kind, dim: int, n: int) requires has_deg(k, dim, n)
    ensures is_deg(k, dim, the_deg(k, dim, n), n), forall|d: int| #[trigger] is_deg(k, dim, d, n) ==> d == the_deg(k, dim, n)
{ assert forall|d: int| #[trigger] is_deg(k, dim, d, n) implies d == the_deg(k, dim, n) by { lemma_deg_unique(k, dim, n, d, the_deg(k, dim, n)); } }
// ---- the five names
pub open spec fn s_tri() -> Seq<u8> { seq![116u8, 114u8, 105u8, 97u8, 110u8, 103u8, 108u8, 101u8] }
pub open spec fn s_cross() -> Seq<u8> { seq![99u8, 114u8, 111u8, 115u8, 115u8] }
pub open spec fn s_cross_nc() -> Seq<u8> { seq![99u8, 114u8, 111u8, 115u8, 115u8, 95u8, 110u8, 99u8] }
pub open spec fn s_cube() -> Seq<u8> { seq![99u8, 117u8, 98u8, 101u8] }
pub open spec fn s_rect() -> Seq<u8> { seq![114u8, 101u8, 99u8, 116u8, 97u8, 110u8, 103u8, 108u8, 101u8] }
pub open spec fn named(s: Seq<u8>, k: Kind) -> bool {
    match k { Kind::Triangle => s == s_tri(), Kind::Cross => s == s_cross(), Kind::CrossNc => s == s_cross_nc(), Kind::Cube => s == s_cube(), Kind::Rectangle => s == s_rect() }
}
pub open spec fn is_name(s: Seq<u8>) -> bool { exists|k: Kind| named(s, k) }
pub open spec fn kind_of(s: Seq<u8>) -> Kind { choose|k: Kind| named(s, k) }
pub proof fn lemma_names(s: Seq<u8>)
    requires is_name(s) ensures named(s, kind_of(s)), forall|k: Kind| #[trigger] named(s, k) ==> k == kind_of(s),
    s_tri() != s_cross(), s_tri() != s_cross_nc(), s_tri() != s_cube(), s_tri() != s_rect(), s_cross() != s_cross_nc(), s_cross() != s_cube(), s_cross() != s_rect(), s_cross_nc() != s_cube(), s_cross_nc() != s_rect(), s_cube() != s_rect(),
    s == s_tri() || s == s_cross() || s == s_cross_nc() || s == s_cube() || s == s_rect(),
{
    assert(s_tri().len() == 8 && s_cross().len() == 5 && s_cross_nc().len() == 8 && s_cube().len() == 4 && s_rect().len() == 9);
    assert(s_tri()[0] == 116 && s_cross_nc()[0] == 99);
    assert(named(s, Kind::Triangle) || named(s, Kind::Cross) || named(s, Kind::CrossNc) || named(s, Kind::Cube) || named(s, Kind::Rectangle)) by { let k = choose|k: Kind| named(s, k); assert(named(s, k)); }
    assert forall|k: Kind| #[trigger] named(s, k) implies k == kind_of(s) by { let c = kind_of(s); assert(named(s, c)); }
}

// ---- projection: entry of the result = coefficient at the multi-index placed in the given directions, zero elsewhere
pub open spec fn proj_vec(k: Kind, dim: int, dirs: Seq<u32>, input: Seq<R>, r: Seq<R>) -> bool {
    forall|d: int| #[trigger] is_deg(k, dim, d, input.len() as int) ==> {
        &&& r.len() == elist(k, dirs.len() as int, d).len()
        &&& forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).v() == coef(k, dim, d, input, emb(dim, dirs, elist(k, dirs.len() as int, d)[j]))
    }
}
pub type Ent = spec_fn(int, int) -> real;
pub open spec fn ent_r2(a: Vec<Vec<R>>) -> Ent { |i: int, j: int| at_r2(a, i, j) }
pub open spec fn ent_sp(a: SpMat) -> Ent { |i: int, j: int| at_sp(a, i, j) }
pub open spec fn ent_bm(a: BMat) -> Ent { |i: int, j: int| at_bm(a, i, j) }
// entry of a matrix at a pair of multi-indices: rows among the first n, columns among the first q elements of the set
pub open spec fn mcu(l: Seq<MI>, n: int, q: int, a: Ent, x: MI, y: MI) -> real { if has_to(l, n, x) && has_to(l, q, y) { a(pos(l, x), pos(l, y)) } else { 0real } }
pub open spec fn mcoef(k: Kind, dim: int, d: int, a: Ent, x: MI, y: MI) -> real { let l = elist(k, dim, d); mcu(l, l.len() as int, l.len() as int, a, x, y) }
pub proof fn lemma_has_step(k: Kind, l: Seq<MI>, n: int, m: MI)
    requires sorted(k, l), 0 <= n < l.len() ensures has_to(l, n + 1, m) == (l[n] == m || has_to(l, n, m)), l[n] == m ==> pos(l, m) == n && !has_to(l, n, m)
{
    if l[n] == m { lemma_pos(k, l, n); if has_to(l, n, m) { let t = choose|t: int| 0 <= t < n && #[trigger] l[t] == m; lemma_sorted_distinct(k, l, n, t); } }
    else if has_to(l, n + 1, m) { let t = choose|t: int| 0 <= t < n + 1 && #[trigger] l[t] == m; assert(0 <= t < n); }
    else if has_to(l, n, m) { let t = choose|t: int| 0 <= t < n && #[trigger] l[t] == m; assert(l[t] == m && 0 <= t < n + 1); }
}
pub open spec fn proj_mat(k: Kind, dim: int, dirs: Seq<u32>, n: int, a: Ent, nr: int, nc: int, b: Ent) -> bool {
    forall|d: int| #[trigger] is_deg(k, dim, d, n) ==> {
        let ls = elist(k, dirs.len() as int, d);
        &&& nr == ls.len() && nc == ls.len()
        &&& forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc ==> #[trigger] b(i, j) == mcoef(k, dim, d, a, emb(dim, dirs, ls[i]), emb(dim, dirs, ls[j]))
    }
}
