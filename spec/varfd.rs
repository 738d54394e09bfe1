// ================================================================ derivatives of variational matrices
pub open spec fn with(m: MI, q: int, x: int) -> MI { m.update(q, x as u32) }
// the function whose derivative (up to a factor) is the basis function m: n-1 for Hermite; sin k <-> cos k (sin k = 2k-1, cos k = 2k) for Fourier
pub open spec fn vsrc(four: u32, dir: u32, m: MI) -> MI {
    let x = m[dir as int] as int;
    if four == 0 { with(m, dir as int, x - 1) } else if x % 2 == 1 { with(m, dir as int, x + 1) } else { with(m, dir as int, x - 1) }
}
pub open spec fn vfac(four: u32, x: u32) -> real { if four == 0 { sqrt_spec(ireal(x as int)) } else if x % 2 == 1 { ireal((x as int + 1) / 2) } else { -ireal(x as int / 2) } }
pub open spec fn vent(l: Seq<MI>, dir: u32, four: u32, a: Ent, i: int, j: int) -> real { if l[j][dir as int] == 0 { 0real } else { vfac(four, l[j][dir as int]) * a(i, pos(l, vsrc(four, dir, l[j]))) } }
// the set contains sin k with cos k in direction dir
#[verifier::opaque]
pub open spec fn fclosed(k: Kind, dim: int, d: int, dir: u32) -> bool { forall|m: MI| #[trigger] is_mi(k, dim, d, m) && m[dir as int] % 2 == 1 ==> is_mi(k, dim, d, with(m, dir as int, m[dir as int] + 1)) }
pub open spec fn vd_ok(k: Kind, dim: int, d: int, dir: u32, four: u32, n: int, m: int) -> bool {
    okp(k, dim, d) && dir < dim && (four == 0 || four == 1 && fclosed(k, dim, d, dir)) && n == elist(k, dim, d).len() && m == n
}
pub open spec fn vd_out(k: Kind, dim: int, d: int, dir: u32, four: u32, n: int, a: Ent, rn: int, rm: int, r: Ent) -> bool {
    let l = elist(k, dim, d); valid_list(k, dim, d, l) && rn == n && rm == n && forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] r(i, j) == vent(l, dir, four, a, i, j)
}
pub proof fn lemma_small(k: Kind, dim: int, d: int, m: MI, q: int) requires okp(k, dim, d), is_mi(k, dim, d, m), 0 <= q < dim ensures m[q] <= max1(d)
{ lemma_inset_mono(k, d, max1(d), m); lemma_entry_le(k, dim, max1(d), m, q); }
pub proof fn lemma_with_sum(m: MI, q: int, x: int, i: int) requires 0 <= q < m.len(), 0 <= x <= m[q] ensures psum(with(m, q, x), i) <= psum(m, i), 1 <= pprod(with(m, q, x), i) <= pprod(m, i) decreases i + 1
{
    if 0 <= i < m.len() {
        lemma_with_sum(m, q, x, i - 1); let w = with(m, q, x); let (u, v, a, b) = (pprod(w, i - 1), pprod(m, i - 1), mx1(w[i]), mx1(m[i]));
        assert(1 <= u * a <= v * b) by (nonlinear_arith) requires 1 <= u <= v, 1 <= a <= b;
    }
}
pub proof fn lemma_less(k: Kind, dim: int, d: int, m: MI, q: int, x: int) requires is_mi(k, dim, d, m), 0 <= q < dim, 0 <= x <= m[q] ensures is_mi(k, dim, d, with(m, q, x))
{
    let w = with(m, q, x); lemma_with_sum(m, q, x, dim - 1);
    if k is Cube { assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] as int <= d by { assert(m[i] as int <= d); } }
    if k is Rectangle { assert forall|i: int| 0 <= i < w.len() implies fac(k, i) * (#[trigger] w[i] as int) <= d by { assert(fac(k, i) * (m[i] as int) <= d); assert(w[i] <= m[i]); let (f, u, v) = (fac(k, i), w[i] as int, m[i] as int); assert(f * u <= f * v) by (nonlinear_arith) requires f == 1 || f == 2, u <= v; } }
}
pub proof fn lemma_src(k: Kind, dim: int, d: int, dir: u32, four: u32, m: MI)
    requires okp(k, dim, d), dir < dim, four == 0 || four == 1 && fclosed(k, dim, d, dir), is_mi(k, dim, d, m), m[dir as int] > 0 ensures is_mi(k, dim, d, vsrc(four, dir, m))
{ reveal(fclosed); lemma_less(k, dim, d, m, dir as int, m[dir as int] - 1); }
// the column that the column c contributes to
pub open spec fn has_tgt(four: u32, x: u32) -> bool { four == 0 || x > 0 }
pub open spec fn vtgt(four: u32, dir: u32, m: MI) -> MI { let x = m[dir as int] as int; if four == 0 || x % 2 == 1 { with(m, dir as int, x + 1) } else { with(m, dir as int, x - 1) } }
pub open spec fn vhit(l: Seq<MI>, dir: u32, four: u32, c: int, t: int) -> bool { has_tgt(four, l[c][dir as int]) && l[t] == vtgt(four, dir, l[c]) }
pub proof fn lemma_tgt(k: Kind, dim: int, d: int, dir: u32, four: u32, l: Seq<MI>, c: int)
    requires okp(k, dim, d), dir < dim, four == 0 || four == 1 && fclosed(k, dim, d, dir), valid_list(k, dim, d, l), 0 <= c < l.len()
    ensures l[c][dir as int] <= max1(d), l[c].len() == dim, four == 1 && l[c][dir as int] > 0 ==> l.contains(vtgt(four, dir, l[c])),
        forall|t: int| 0 <= t < l.len() ==> #[trigger] vhit(l, dir, four, c, t) == (has_tgt(four, l[c][dir as int]) && l.contains(vtgt(four, dir, l[c])) && t == pos(l, vtgt(four, dir, l[c])))
{
    assert(is_mi(k, dim, d, l[c])); lemma_small(k, dim, d, l[c], dir as int);
    reveal(fclosed); let w = vtgt(four, dir, l[c]);
    if four == 1 && l[c][dir as int] > 0 { lemma_less(k, dim, d, l[c], dir as int, l[c][dir as int] - 1); assert(is_mi(k, dim, d, w)); assert(l.contains(w)); }
    assert forall|t: int| 0 <= t < l.len() implies #[trigger] vhit(l, dir, four, c, t) == (has_tgt(four, l[c][dir as int]) && l.contains(w) && t == pos(l, w)) by { if l.contains(w) { lemma_pos_of(k, l, w); } }
}
// has the entry (i, c) been visited
pub open spec fn seen(z: Seq<(int, int)>, n: int, i: int, c: int) -> bool { exists|t: int| 0 <= t < n && #[trigger] z[t] == (i, c) }
#[verifier::opaque]
pub open spec fn vst(l: Seq<MI>, dir: u32, four: u32, a: Ent, z: Seq<(int, int)>, n: int, i: int, j: int) -> real { if l[j][dir as int] > 0 && seen(z, n, i, pos(l, vsrc(four, dir, l[j]))) { vent(l, dir, four, a, i, j) } else { 0real } }
pub proof fn lemma_vst_step(k: Kind, dim: int, d: int, l: Seq<MI>, dir: u32, four: u32, a: Ent, z: Seq<(int, int)>, n: int, i: int, j: int)
    requires okp(k, dim, d), dir < dim, four == 0 || four == 1 && fclosed(k, dim, d, dir), valid_list(k, dim, d, l), 0 <= n < z.len(), 0 <= i < l.len(), 0 <= j < l.len(), 0 <= z[n].1 < l.len()
    ensures vst(l, dir, four, a, z, n + 1, i, j) == (if i == z[n].0 && vhit(l, dir, four, z[n].1, j) { vfac(four, l[j][dir as int]) * a(i, z[n].1) } else { vst(l, dir, four, a, z, n, i, j) })
{
    reveal(vst); let c = z[n].1; assert(is_mi(k, dim, d, l[c])); assert(is_mi(k, dim, d, l[j])); lemma_small(k, dim, d, l[c], dir as int); lemma_small(k, dim, d, l[j], dir as int);
    let q = dir as int; let (x, y) = (l[j][q] as int, l[c][q] as int);
    if x > 0 {
        let s = vsrc(four, dir, l[j]); lemma_src(k, dim, d, dir, four, l[j]); assert(l.contains(s)); lemma_pos_of(k, l, s); let p = pos(l, s);
        if p == c { assert(vtgt(four, dir, l[c]) =~= l[j]); assert(has_tgt(four, l[c][q])); }
        if vhit(l, dir, four, c, j) { assert(vsrc(four, dir, l[j]) =~= l[c]); assert(p == c); }
        assert(seen(z, n + 1, i, p) == (seen(z, n, i, p) || z[n] == (i, p))) by { if seen(z, n, i, p) { let t = choose|t: int| 0 <= t < n && #[trigger] z[t] == (i, p); assert(z[t] == (i, p) && t < n + 1); } }
    }
}
pub proof fn lemma_vst_end(k: Kind, dim: int, d: int, l: Seq<MI>, dir: u32, four: u32, a: Ent, z: Seq<(int, int)>, n: int)
    requires okp(k, dim, d), dir < dim, four == 0 || four == 1 && fclosed(k, dim, d, dir), valid_list(k, dim, d, l), n == l.len(), forall|i: int, c: int| 0 <= i < n && 0 <= c < n && #[trigger] a(i, c) != 0real ==> seen(z, z.len() as int, i, c)
    ensures forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] vst(l, dir, four, a, z, z.len() as int, i, j) == vent(l, dir, four, a, i, j)
{
    reveal(vst);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] vst(l, dir, four, a, z, z.len() as int, i, j) == vent(l, dir, four, a, i, j) by {
        if l[j][dir as int] > 0 {
            assert(is_mi(k, dim, d, l[j])); let s = vsrc(four, dir, l[j]); lemma_src(k, dim, d, dir, four, l[j]); assert(l.contains(s)); lemma_pos_of(k, l, s); let p = pos(l, s);
            if !seen(z, z.len() as int, i, p) { assert(a(i, p) == 0real); let f = vfac(four, l[j][dir as int]); assert(f * 0real == 0real); }
        }
    }
}
// the order in which the iterators of a matrix visit its entries
pub open spec fn nzs_sp(a: SpMat) -> Seq<(int, int)> { a.nz() }
pub open spec fn rst_sp(a: SpMat, i: int) -> int { a.rs(i) }
pub open spec fn nzs_bm(a: BMat) -> Seq<(int, int)> { Seq::new((a.n() * a.m()) as nat, |t: int| (t / a.m(), t % a.m())) }
pub open spec fn rst_bm(a: BMat, i: int) -> int { i * a.m() }
pub open spec fn nzs_ok(z: Seq<(int, int)>, n: int, m: int, a: Ent) -> bool {
    &&& forall|t: int| 0 <= t < z.len() ==> 0 <= (#[trigger] z[t]).0 < n && 0 <= z[t].1 < m
    &&& forall|i: int, c: int| 0 <= i < n && 0 <= c < m && #[trigger] a(i, c) != 0real ==> seen(z, z.len() as int, i, c)
}
pub proof fn lemma_nzs_sp(a: SpMat) ensures nzs_ok(nzs_sp(a), a.n(), a.m(), ent_sp(a)), a.rs(0) == 0, a.rs(a.n()) == a.nz().len(), forall|i: int| 0 <= i < a.n() ==> #[trigger] rst_sp(a, i) <= rst_sp(a, i + 1)
{
    ax_nz(a); let z = a.nz();
    assert forall|i: int, c: int| 0 <= i < a.n() && 0 <= c < a.m() && #[trigger] ent_sp(a)(i, c) != 0real implies seen(z, z.len() as int, i, c) by { assert(a.at(i, c) != 0real); assert(z.contains((i, c))); }
    assert forall|i: int| 0 <= i < a.n() implies #[trigger] rst_sp(a, i) <= rst_sp(a, i + 1) by { assert(a.rs(i) <= a.rs(i + 1)); }
}
pub proof fn lemma_nzs_bm(a: BMat) ensures a.n() > 0 && a.m() > 0 ==> nzs_ok(nzs_bm(a), a.n(), a.m(), ent_bm(a)), a.n() >= 0, a.m() >= 0, nzs_bm(a).len() == a.n() * a.m(), rst_bm(a, 0) == 0, rst_bm(a, a.n()) == nzs_bm(a).len(), forall|i: int| 0 <= i < a.n() ==> 0 <= #[trigger] rst_bm(a, i) <= rst_bm(a, i + 1) <= a.n() * a.m()
{
    ax_bmdim(a); let (n, m) = (a.n(), a.m()); let z = nzs_bm(a); assert(n * m >= 0) by (nonlinear_arith) requires n >= 0, m >= 0;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] rst_bm(a, i) <= rst_bm(a, i + 1) <= n * m by { assert(0 <= i * m <= (i + 1) * m <= n * m) by (nonlinear_arith) requires 0 <= i < n, m >= 0; }
    if n > 0 && m > 0 {
        assert forall|t: int| 0 <= t < z.len() implies 0 <= (#[trigger] z[t]).0 < n && 0 <= z[t].1 < m by { assert(0 <= t / m < n && 0 <= t % m < m) by (nonlinear_arith) requires 0 <= t < n * m, m > 0; }
        assert forall|i: int, c: int| 0 <= i < n && 0 <= c < m && #[trigger] ent_bm(a)(i, c) != 0real implies seen(z, z.len() as int, i, c) by {
            let t = i * m + c; assert(0 <= t < n * m) by (nonlinear_arith) requires 0 <= i < n, 0 <= c < m, t == i * m + c; assert(t / m == i && t % m == c) by (nonlinear_arith) requires 0 <= c < m, t == i * m + c, m > 0; assert(z[t] == (i, c));
        }
    }
}
pub proof fn lemma_vst0(l: Seq<MI>, dir: u32, four: u32, a: Ent, z: Seq<(int, int)>, i: int, j: int) ensures vst(l, dir, four, a, z, 0, i, j) == 0real { reveal(vst); }
// the signs and factors as computed
pub proof fn lemma_vfac(four: u32, x: u32, v: real)
    requires x <= 0x4000_0000
    ensures four == 0 ==> v * sqrt_spec(ireal(x as int)) == vfac(four, x) * v,
        four == 1 && x % 2 == 1 ==> v * 1real * ireal((x as int + 1) / 2) == vfac(four, x) * v && 1real * ireal((x as int + 1) / 2) == vfac(four, x),
        four == 1 && x % 2 == 0 ==> v * -1real * ireal(x as int / 2) == vfac(four, x) * v && -1real * ireal(x as int / 2) == vfac(four, x)
{
    let s = sqrt_spec(ireal(x as int)); assert(v * s == s * v) by (nonlinear_arith);
    let p = ireal((x as int + 1) / 2); assert(v * 1real * p == p * v) by (nonlinear_arith); assert(1real * p == p);
    let n = ireal(x as int / 2); assert(v * -1real * n == (-n) * v) by (nonlinear_arith); assert(-1real * n == -n) by (nonlinear_arith);
}
