// ================================================================ tensor products of series
pub open spec fn vr(l: Seq<Vec<R>>) -> Seq<Seq<R>> { Seq::new(l.len(), |i: int| l[i]@) }
pub open spec fn sumlen(dirs: Seq<Seq<u32>>, n: int) -> int decreases n { if n <= 0 { 0 } else { sumlen(dirs, n - 1) + dirs[n - 1].len() } }
pub open spec fn tdim(dirs: Seq<Seq<u32>>) -> int { sumlen(dirs, dirs.len() as int) }
// inputs[j] is a series of degree d in the directions dirs[j]; all directions together make up the dimension
pub open spec fn tens_ok(k: Kind, d: int, inputs: Seq<Seq<R>>, dirs: Seq<Seq<u32>>) -> bool {
    &&& inputs.len() == dirs.len() && 1 <= dirs.len() < 0x1_0000_0000 && okd(k, tdim(dirs), d)
    &&& forall|j: int| 0 <= j < dirs.len() ==> #[trigger] good_dirs(k, tdim(dirs), dirs[j])
    &&& forall|j: int| 0 <= j < dirs.len() ==> is_deg(k, #[trigger] dirs[j].len() as int, d, inputs[j].len() as int)
}
pub open spec fn pcoef(k: Kind, d: int, inputs: Seq<Seq<R>>, dirs: Seq<Seq<u32>>, m: MI, n: int) -> real decreases n {
    if n <= 0 { 1real } else { pcoef(k, d, inputs, dirs, m, n - 1) * coef(k, dirs[n - 1].len() as int, d, inputs[n - 1], extr(m, dirs[n - 1])) }
}
pub open spec fn tens_vec(k: Kind, inputs: Seq<Seq<R>>, dirs: Seq<Seq<u32>>, r: Seq<R>) -> bool {
    forall|d: int| #[trigger] tens_ok(k, d, inputs, dirs) ==> {
        let l = elist(k, tdim(dirs), d);
        &&& valid_list(k, tdim(dirs), d, l) && r.len() == l.len()
        &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).v() == pcoef(k, d, inputs, dirs, l[i], dirs.len() as int)
    }
}
pub proof fn lemma_sumlen_mono(dirs: Seq<Seq<u32>>, i: int, n: int) requires 0 <= i <= n <= dirs.len() ensures 0 <= sumlen(dirs, i) <= sumlen(dirs, n) decreases n { if i < n { lemma_sumlen_mono(dirs, i, n - 1); } else if n > 0 { lemma_sumlen_mono(dirs, n - 1, n - 1); } }
pub proof fn lemma_tens_len(k: Kind, d: int, inputs: Seq<Seq<R>>, dirs: Seq<Seq<u32>>, j: int)
    requires tens_ok(k, d, inputs, dirs), 0 <= j < dirs.len() ensures 1 <= dirs[j].len() <= tdim(dirs), okp(k, dirs[j].len() as int, d), okp(k, tdim(dirs), d)
{ assert(good_dirs(k, tdim(dirs), dirs[j])); assert(is_deg(k, dirs[j].len() as int, d, inputs[j].len() as int)); lemma_sumlen_mono(dirs, j, j); lemma_sumlen_mono(dirs, j + 1, dirs.len() as int); }
// coefficient at an element of the enumeration
pub proof fn lemma_coef_at(k: Kind, dim: int, d: int, v: Seq<R>, t: int)
    requires valid_list(k, dim, d, elist(k, dim, d)), 0 <= t < elist(k, dim, d).len()
    ensures coef(k, dim, d, v, elist(k, dim, d)[t]) == v[t].v()
{ let l = elist(k, dim, d); lemma_pos(k, l, t); assert(has_to(l, l.len() as int, l[t])); }

// ---- one-dimensional series: coefficient number i belongs to the multi-index (i)
pub open spec fn e1(d: int) -> Seq<MI> { Seq::new((d + 1) as nat, |i: int| seq![i as u32]) }
pub proof fn lemma_1d(k: Kind, d: int) requires okp(k, 1, d), k is CrossNc ==> d >= 1 ensures valid_list(k, 1, d, e1(d)), elist(k, 1, d) == e1(d)
{
    let l = e1(d);
    assert forall|m: MI| m.len() == 1 implies psum(m, 0) == m[0] as int && pprod(m, 0) == mx1(m[0]) by { assert(psum(m, 0) == psum(m, -1) + m[0] as int); assert(pprod(m, 0) == pprod(m, -1) * mx1(m[0])); }
    assert forall|m: MI| m.len() == 1 implies (#[trigger] inset(k, d, m) == (m[0] <= d)) by {
        assert(total(m) == psum(m, 0)); assert(prod1(m) == pprod(m, 0));
        if k is Rectangle { assert(fac(k, 0) * (m[0] as int) == m[0] as int); if inset(k, d, m) { assert(fac(k, 0) * (m[0] as int) <= d); } }
        if k is Cube { if inset(k, d, m) { assert(m[0] as int <= d); } }
    }
    assert forall|i: int| 0 <= i < l.len() implies is_mi(k, 1, d, #[trigger] l[i]) by { assert(l[i].len() == 1); }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies lt(k, #[trigger] l[i], #[trigger] l[j]) by {
        let a = l[i]; let b = l[j]; let x = key(k, a); let y = key(k, b);
        match k {
            Kind::Triangle | Kind::CrossNc => { assert(cx_at(ps(a), ps(b), 0)); }
            Kind::Cube | Kind::Rectangle => {
                assert(fac(k, 0) == 1); assert(a[0] as int == i && b[0] as int == j); assert(wgt(k, a, 0) == 1 * i && wgt(k, b, 0) == 1 * j);
                assert(wmax_to(k, a, 0) == 0 && wmax_to(k, b, 0) == 0); assert(wgt(k, a, 0) == i && wgt(k, b, 0) == j);
                assert(wmax(k, a) == i); assert(wmax(k, b) == j); assert(cx_at(x, y, 2));
            }
            Kind::Cross => { assert(x[0] == i && y[0] == j); assert(x[1] == pprod(a, 0) && y[1] == pprod(b, 0)); if i == 0 && j == 1 { assert(cx_at(x, y, 0)); } else { assert(cx_at(x, y, 1)); } }
        }
    }
    assert forall|m: MI| #[trigger] is_mi(k, 1, d, m) implies l.contains(m) by { let q = m[0] as int; assert(l[q] =~= m); }
    lemma_elist(k, 1, d, l);
}
pub proof fn lemma_coef_1d(k: Kind, d: int, v: Seq<R>, x: u32)
    requires okp(k, 1, d), k is CrossNc ==> d >= 1, x <= d ensures coef(k, 1, d, v, seq![x]) == v[x as int].v()
{ lemma_1d(k, d); lemma_coef_at(k, 1, d, v, x as int); }
pub proof fn lemma_deg_1d(k: Kind, d: int) requires okd(k, 1, d) ensures is_deg(k, 1, d, d + 1) { lemma_1d(k, d); }

// ---- one vector per axis
pub open spec fn axes(n: int) -> Seq<Seq<u32>> { Seq::new(n as nat, |i: int| seq![i as u32]) }
pub open spec fn pax(inputs: Seq<Seq<R>>, m: MI, n: int) -> real decreases n { if n <= 0 { 1real } else { pax(inputs, m, n - 1) * inputs[n - 1][m[n - 1] as int].v() } }
pub proof fn lemma_axes(n: int, i: int) requires 0 <= i <= n ensures sumlen(axes(n), i) == i decreases i { if i > 0 { lemma_axes(n, i - 1); assert(axes(n)[i - 1].len() == 1); } }
pub open spec fn axes_ok(k: Kind, d: int, inputs: Seq<Seq<R>>) -> bool { 1 <= inputs.len() && okd(k, inputs.len() as int, d) && forall|j: int| 0 <= j < inputs.len() ==> (#[trigger] inputs[j]).len() == d + 1 }
pub open spec fn axes_vec(k: Kind, inputs: Seq<Seq<R>>, r: Seq<R>) -> bool {
    forall|d: int| #[trigger] axes_ok(k, d, inputs) ==> {
        let l = elist(k, inputs.len() as int, d);
        &&& valid_list(k, inputs.len() as int, d, l) && r.len() == l.len()
        &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).v() == pax(inputs, l[i], inputs.len() as int)
    }
}
pub proof fn lemma_axes_ok(k: Kind, d: int, inputs: Seq<Seq<R>>)
    requires axes_ok(k, d, inputs) ensures tens_ok(k, d, inputs, axes(inputs.len() as int)), tdim(axes(inputs.len() as int)) == inputs.len()
{
    let n = inputs.len() as int; let ax = axes(n); lemma_axes(n, n); lemma_ok_sub(k, n, 1, d); lemma_deg_1d(k, d);
    assert forall|j: int| 0 <= j < n implies #[trigger] good_dirs(k, n, ax[j]) by { assert(ax[j][0] == j as u32); }
    assert forall|j: int| 0 <= j < n implies is_deg(k, #[trigger] ax[j].len() as int, d, inputs[j].len() as int) by { assert(ax[j].len() == 1); }
}
pub proof fn lemma_entry_le(k: Kind, dim: int, d: int, m: MI, q: int) requires is_mi(k, dim, d, m), 0 <= q < dim, d >= 0, k is Cross || k is CrossNc ==> d >= 1 ensures m[q] <= d
{
    let dirs = seq![q as u32];
    match k {
        Kind::Cube => { assert(m[q] as int <= d); }
        Kind::Rectangle => { assert(fac(k, q) * (m[q] as int) <= d); assert(m[q] as int <= d) by (nonlinear_arith) requires fac(k, q) * (m[q] as int) <= d, fac(k, q) >= 1, m[q] >= 0; }
        _ => {
            lemma_psum_mono(m, -1, q - 1); lemma_psum_mono(m, q, dim - 1); lemma_pprod_mono(m, -1, q - 1); lemma_pprod_mono(m, q, dim - 1);
            assert(psum(m, q) == psum(m, q - 1) + m[q] as int); assert(pprod(m, q) == pprod(m, q - 1) * mx1(m[q]));
            assert(pprod(m, q) >= mx1(m[q])) by (nonlinear_arith) requires pprod(m, q) == pprod(m, q - 1) * mx1(m[q]), pprod(m, q - 1) >= 1, mx1(m[q]) >= 1;
        }
    }
}
pub proof fn lemma_pax(k: Kind, d: int, inputs: Seq<Seq<R>>, m: MI, n: int)
    requires axes_ok(k, d, inputs), is_mi(k, inputs.len() as int, d, m), 0 <= n <= inputs.len()
    ensures pcoef(k, d, inputs, axes(inputs.len() as int), m, n) == pax(inputs, m, n) decreases n
{
    if n > 0 {
        lemma_pax(k, d, inputs, m, n - 1); let dim = inputs.len() as int; let ax = axes(dim);
        assert(ax[n - 1] =~= seq![(n - 1) as u32]); assert(extr(m, ax[n - 1]) =~= seq![m[n - 1]]); lemma_entry_le(k, dim, d, m, n - 1); lemma_ok_sub(k, dim, 1, d);
        lemma_coef_1d(k, d, inputs[n - 1], m[n - 1]);
    }
}
pub proof fn lemma_axes_vec(k: Kind, inputs: Seq<Seq<R>>, r: Seq<R>) requires tens_vec(k, inputs, axes(inputs.len() as int), r) ensures axes_vec(k, inputs, r)
{
    assert forall|d: int| #[trigger] axes_ok(k, d, inputs) implies ({
        let l = elist(k, inputs.len() as int, d);
        &&& valid_list(k, inputs.len() as int, d, l) && r.len() == l.len()
        &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).v() == pax(inputs, l[i], inputs.len() as int) }) by {
        lemma_axes_ok(k, d, inputs); let l = elist(k, inputs.len() as int, d);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).v() == pax(inputs, l[i], inputs.len() as int) by { assert(is_mi(k, inputs.len() as int, d, l[i])); lemma_pax(k, d, inputs, l[i], inputs.len() as int); }
    }
}
// ---- one vector, extended by the constant function in the other directions
pub open spec fn others0(m: MI, dir: int, n: int) -> bool { forall|q: int| 0 <= q < n && q != dir ==> #[trigger] m[q] == 0 }
pub proof fn lemma_pax_id(inputs: Seq<Seq<R>>, m: MI, dir: int, n: int)
    requires 0 <= n <= inputs.len(), n <= m.len(),
        forall|q: int| 0 <= q < inputs.len() && q != dir ==> m[q] < (#[trigger] inputs[q]).len() && forall|t: int| 0 <= t < inputs[q].len() ==> (#[trigger] inputs[q][t]).v() == (if t == 0 { 1real } else { 0real })
    ensures pax(inputs, m, n) == (if !others0(m, dir, n) { 0real } else if 0 <= dir < n { inputs[dir][m[dir] as int].v() } else { 1real }) decreases n
{
    if n > 0 {
        lemma_pax_id(inputs, m, dir, n - 1);
        if others0(m, dir, n) { assert(others0(m, dir, n - 1)) by { assert forall|q: int| 0 <= q < n - 1 && q != dir implies #[trigger] m[q] == 0 by {} } if n - 1 != dir { assert(m[n - 1] == 0); assert(inputs[n - 1][0].v() == 1real); } }
        else if others0(m, dir, n - 1) { assert(n - 1 != dir && m[n - 1] != 0); assert(inputs[n - 1][m[n - 1] as int].v() == 0real); }
        let p = pax(inputs, m, n - 1); let w = inputs[n - 1][m[n - 1] as int].v();
        assert(p == 0real ==> p * w == 0real) by (nonlinear_arith); assert(w == 0real ==> p * w == 0real) by (nonlinear_arith); assert(w == 1real ==> p * w == p) by (nonlinear_arith); assert(p == 1real ==> p * w == w) by (nonlinear_arith);
    }
}
