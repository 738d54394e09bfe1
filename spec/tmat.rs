// ================================================================ Kronecker products on an index set
pub open spec fn sinc(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn disj(a: Seq<u32>, b: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] a[i] != #[trigger] b[j] }
// positions of the elements of s in d
pub open spec fn pofs(d: Seq<u32>, s: Seq<u32>) -> Seq<u32> { Seq::new(s.len(), |i: int| dpos(d, s[i] as int) as u32) }
pub open spec fn subseq(s: Seq<u32>, d: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() ==> in_seq(d, #[trigger] s[i] as int) }
// d = dA and dB merged in increasing order
pub open spec fn is_union(d: Seq<u32>, a: Seq<u32>, b: Seq<u32>) -> bool { sinc(d) && d.len() == a.len() + b.len() && subseq(a, d) && subseq(b, d) && forall|p: int| 0 <= p < d.len() ==> in_seq(a, #[trigger] d[p] as int) || in_seq(b, d[p] as int) }
pub proof fn lemma_dpos(d: Seq<u32>, p: int) requires sinc(d), 0 <= p < d.len() ensures dpos(d, d[p] as int) == p
{ let t = dpos(d, d[p] as int); assert(0 <= t < d.len() && d[t] == d[p]); if t < p { assert(d[t] < d[p]); } if p < t { assert(d[p] < d[t]); } }
pub proof fn lemma_sinc_at(s: Seq<u32>, t: Seq<u32>, i: int) requires sinc(s), sinc(t), subseq(s, t), subseq(t, s), 0 <= i < s.len(), i < t.len() ensures s[i] == t[i] decreases i
{
    assert(in_seq(t, s[i] as int)); assert(in_seq(s, t[i] as int)); let p = dpos(t, s[i] as int); let q = dpos(s, t[i] as int);
    if p < i { lemma_sinc_at(s, t, p); assert(s[p] < s[i]); } else if i < p { assert(t[i] < t[p]); }
    if q < i { lemma_sinc_at(s, t, q); assert(t[q] < t[i]); } else if i < q { assert(s[i] < s[q]); }
}
pub proof fn lemma_sinc_unique(s: Seq<u32>, t: Seq<u32>) requires sinc(s), sinc(t), subseq(s, t), subseq(t, s) ensures s == t
{
    lemma_sublen(s, t); lemma_sublen(t, s); assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { lemma_sinc_at(s, t, i); } assert(s =~= t);
}
pub proof fn lemma_union_unique(d: Seq<u32>, e: Seq<u32>, a: Seq<u32>, b: Seq<u32>) requires is_union(d, a, b), is_union(e, a, b) ensures d == e
{
    assert forall|p: int| 0 <= p < d.len() implies in_seq(e, #[trigger] d[p] as int) by { if in_seq(a, d[p] as int) { let t = dpos(a, d[p] as int); assert(in_seq(e, a[t] as int)); } else { let t = dpos(b, d[p] as int); assert(in_seq(e, b[t] as int)); } }
    assert forall|p: int| 0 <= p < e.len() implies in_seq(d, #[trigger] e[p] as int) by { if in_seq(a, e[p] as int) { let t = dpos(a, e[p] as int); assert(in_seq(d, a[t] as int)); } else { let t = dpos(b, e[p] as int); assert(in_seq(d, b[t] as int)); } }
    lemma_sinc_unique(d, e);
}
pub proof fn lemma_sinc_good(k: Kind, dim: int, p: Seq<u32>) requires sinc(p), p.len() >= 1, forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < dim ensures good_dirs(k, dim, p)
{
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] != #[trigger] p[j] by { assert(p[i] < p[j]); }
    assert forall|j: int| 0 < j < p.len() implies #[trigger] p[j] != 0 by { assert(p[0] < p[j]); }
}
// positions of a sorted sub-sequence are increasing
pub proof fn lemma_pofs(k: Kind, d: Seq<u32>, s: Seq<u32>) requires sinc(d), sinc(s), subseq(s, d), d.len() < 0x1_0000_0000
    ensures sinc(pofs(d, s)), forall|i: int| 0 <= i < s.len() ==> #[trigger] pofs(d, s)[i] < d.len() && d[pofs(d, s)[i] as int] == s[i], s.len() >= 1 ==> good_dirs(k, d.len() as int, pofs(d, s))
{
    let p = pofs(d, s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] p[i] < d.len() && d[p[i] as int] == s[i] by { assert(in_seq(d, s[i] as int)); }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] < #[trigger] p[j] by { assert(s[i] < s[j]); if p[j] < p[i] { assert(d[p[j] as int] < d[p[i] as int]); } }
    if s.len() >= 1 { assert(p.len() == s.len()); lemma_sinc_good(k, d.len() as int, p); }
}
// ---- entries of the product
pub open spec fn gext(m: MI, d: Seq<u32>, s: Seq<u32>) -> MI { extr(m, pofs(d, s)) }
pub open spec fn kron_ok(k: Kind, d: int, a: SpMat, b: SpMat, da: Seq<u32>, db: Seq<u32>) -> bool {
    &&& sinc(da) && sinc(db) && disj(da, db) && 1 <= da.len() && 1 <= db.len() && okd(k, (da.len() + db.len()) as int, d)
    &&& a.n() == a.m() && b.n() == b.m() && is_deg(k, da.len() as int, d, a.n()) && is_deg(k, db.len() as int, d, b.n())
}
pub open spec fn kron_mat(k: Kind, d: int, u: Seq<u32>, a: SpMat, b: SpMat, da: Seq<u32>, db: Seq<u32>, r: SpMat) -> bool {
    let l = elist(k, u.len() as int, d);
    &&& is_deg(k, u.len() as int, d, r.n()) && r.m() == r.n()
    &&& forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] r.at(i, j) == mcoef(k, da.len() as int, d, ent_sp(a), gext(l[i], u, da), gext(l[j], u, da)) * mcoef(k, db.len() as int, d, ent_sp(b), gext(l[i], u, db), gext(l[j], u, db))
}
// entry restricted to the first t stored positions
pub open spec fn among(nz: Seq<(int, int)>, t: int, p: (int, int)) -> bool { exists|s: int| 0 <= s < t && #[trigger] nz[s] == p }
pub open spec fn cum(a: SpMat, t: int, i: int, j: int) -> real { if among(a.nz(), t, (i, j)) { a.at(i, j) } else { 0real } }
pub proof fn lemma_cum_full(a: SpMat, i: int, j: int) requires nz_ok(a) ensures cum(a, a.nz().len() as int, i, j) == a.at(i, j)
{ if a.e().dom().contains((i, j)) { let s = choose|s: int| 0 <= s < a.nz().len() && a.nz()[s] == (i, j); assert(a.nz()[s] == (i, j)); } }
pub proof fn lemma_cum_step(a: SpMat, t: int, i: int, j: int) requires nz_ok(a), 0 <= t < a.nz().len()
    ensures cum(a, t + 1, i, j) == (if a.nz()[t] == (i, j) { a.at(i, j) } else { cum(a, t, i, j) }), a.nz()[t] == (i, j) ==> cum(a, t, i, j) == 0real, cum(a, 0, i, j) == 0real
{
    if a.nz()[t] == (i, j) { if among(a.nz(), t, (i, j)) { let s = choose|s: int| 0 <= s < t && #[trigger] a.nz()[s] == (i, j); assert(a.nz()[s] != a.nz()[t]); } }
    else if among(a.nz(), t + 1, (i, j)) { let s = choose|s: int| 0 <= s < t + 1 && #[trigger] a.nz()[s] == (i, j); assert(0 <= s < t); }
    else if among(a.nz(), t, (i, j)) { let s = choose|s: int| 0 <= s < t && #[trigger] a.nz()[s] == (i, j); assert(0 <= s < t + 1 && a.nz()[s] == (i, j)); }
}
// position, in the sub-enumeration, of the part of m in the directions p
pub open spec fn spos(k: Kind, d: int, m: MI, p: Seq<u32>) -> int { pos(elist(k, p.len() as int, d), extr(m, p)) }
pub proof fn lemma_spos(k: Kind, dim: int, d: int, m: MI, p: Seq<u32>)
    requires good_dirs(k, dim, p), is_mi(k, dim, d, m), valid_list(k, p.len() as int, d, elist(k, p.len() as int, d))
    ensures ({ let l = elist(k, p.len() as int, d); let t = spos(k, d, m, p); 0 <= t < l.len() && l[t] == extr(m, p) && has_to(l, l.len() as int, extr(m, p)) })
{ lemma_extr_inset(k, dim, d, m, p); let l = elist(k, p.len() as int, d); assert(l.contains(extr(m, p))); lemma_pos_of(k, l, extr(m, p)); }
pub open spec fn covers(dim: int, p: Seq<u32>, q: Seq<u32>) -> bool { forall|t: int| 0 <= t < dim ==> #[trigger] in_seq(p, t) || in_seq(q, t) }
pub proof fn lemma_covers(k: Kind, u: Seq<u32>, a: Seq<u32>, b: Seq<u32>) requires is_union(u, a, b), sinc(a), sinc(b), disj(a, b), u.len() < 0x1_0000_0000
    ensures covers(u.len() as int, pofs(u, a), pofs(u, b)), disj(pofs(u, a), pofs(u, b))
{
    let p = pofs(u, a); let q = pofs(u, b); lemma_pofs(k, u, a); lemma_pofs(k, u, b);
    assert forall|t: int| 0 <= t < u.len() implies #[trigger] in_seq(p, t) || in_seq(q, t) by {
        lemma_dpos(u, t);
        if in_seq(a, u[t] as int) { let j = dpos(a, u[t] as int); assert(p[j] == t); } else { let j = dpos(b, u[t] as int); assert(q[j] == t); }
    }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < q.len() implies #[trigger] p[i] != #[trigger] q[j] by { assert(a[i] != b[j]); }
}
pub proof fn lemma_merge(dim: int, m: MI, n: MI, p: Seq<u32>, q: Seq<u32>) requires covers(dim, p, q), m.len() == dim, n.len() == dim, extr(m, p) == extr(n, p), extr(m, q) == extr(n, q) ensures m == n
{
    assert forall|t: int| 0 <= t < dim implies m[t] == n[t] by {
        assert(in_seq(p, t) || in_seq(q, t));
        if in_seq(p, t) { let j = dpos(p, t); assert(extr(m, p)[j] == m[t]); assert(extr(n, p)[j] == n[t]); } else { let j = dpos(q, t); assert(extr(m, q)[j] == m[t]); assert(extr(n, q)[j] == n[t]); }
    }
    assert(m =~= n);
}
// what the product holds once A's first ta stored entries are done, and for entry number ta, B's first tb
#[verifier::opaque]
pub open spec fn kpart(k: Kind, d: int, l: Seq<MI>, a: SpMat, b: SpMat, pa: Seq<u32>, pb: Seq<u32>, ta: int, tb: int, i: int, j: int) -> real {
    let ai = spos(k, d, l[i], pa); let aj = spos(k, d, l[j], pa); let bi = spos(k, d, l[i], pb); let bj = spos(k, d, l[j], pb);
    if tb >= 0 && a.nz()[ta] == (ai, aj) { a.at(ai, aj) * cum(b, tb, bi, bj) } else { cum(a, ta, ai, aj) * b.at(bi, bj) }
}
pub proof fn lemma_kpart_open(k: Kind, d: int, l: Seq<MI>, a: SpMat, b: SpMat, pa: Seq<u32>, pb: Seq<u32>, ta: int, i: int, j: int) requires nz_ok(a), nz_ok(b), 0 <= ta < a.nz().len()
    ensures kpart(k, d, l, a, b, pa, pb, ta, 0, i, j) == kpart(k, d, l, a, b, pa, pb, ta, -1, i, j), kpart(k, d, l, a, b, pa, pb, ta, b.nz().len() as int, i, j) == kpart(k, d, l, a, b, pa, pb, ta + 1, -1, i, j)
{
    reveal(kpart);
    let ai = spos(k, d, l[i], pa); let aj = spos(k, d, l[j], pa); let bi = spos(k, d, l[i], pb); let bj = spos(k, d, l[j], pb);
    lemma_cum_step(a, ta, ai, aj); lemma_cum_full(b, bi, bj); assert(cum(b, 0, bi, bj) == 0real);
    let x = a.at(ai, aj); let y = b.at(bi, bj); assert(x * 0real == 0real && 0real * y == 0real) by (nonlinear_arith);
}
pub proof fn lemma_kpart_zero(k: Kind, d: int, l: Seq<MI>, a: SpMat, b: SpMat, pa: Seq<u32>, pb: Seq<u32>, i: int, j: int) ensures kpart(k, d, l, a, b, pa, pb, 0, -1, i, j) == 0real
{ reveal(kpart); let y = b.at(spos(k, d, l[i], pb), spos(k, d, l[j], pb)); assert(0real * y == 0real) by (nonlinear_arith); }
// an entry (i, j) draws on A's entry number ta and B's entry number tb exactly if l[i], l[j] merge the multi-indices of both
pub proof fn lemma_kpart_step(k: Kind, dim: int, d: int, a: SpMat, b: SpMat, pa: Seq<u32>, pb: Seq<u32>, ta: int, tb: int, mr: MI, mc: MI)
    requires nz_ok(a), nz_ok(b), 0 <= ta < a.nz().len(), 0 <= tb < b.nz().len(), mr.len() == dim, mc.len() == dim, covers(dim, pa, pb), good_dirs(k, dim, pa), good_dirs(k, dim, pb),
        valid_list(k, dim, d, elist(k, dim, d)), is_deg(k, pa.len() as int, d, a.n()), is_deg(k, pb.len() as int, d, b.n()), a.n() == a.m(), b.n() == b.m(),
        extr(mr, pa) == elist(k, pa.len() as int, d)[a.nz()[ta].0], extr(mc, pa) == elist(k, pa.len() as int, d)[a.nz()[ta].1], extr(mr, pb) == elist(k, pb.len() as int, d)[b.nz()[tb].0], extr(mc, pb) == elist(k, pb.len() as int, d)[b.nz()[tb].1],
    ensures ({ let l = elist(k, dim, d); forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] kpart(k, d, l, a, b, pa, pb, ta, tb + 1, i, j) == (if l[i] == mr && l[j] == mc { a.at(a.nz()[ta].0, a.nz()[ta].1) * b.at(b.nz()[tb].0, b.nz()[tb].1) } else { kpart(k, d, l, a, b, pa, pb, ta, tb, i, j) }) })
{
    reveal(kpart); let l = elist(k, dim, d); let la = elist(k, pa.len() as int, d); let lb = elist(k, pb.len() as int, d); let na = a.nz()[ta]; let nb = b.nz()[tb];
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] kpart(k, d, l, a, b, pa, pb, ta, tb + 1, i, j) == (if l[i] == mr && l[j] == mc { a.at(na.0, na.1) * b.at(nb.0, nb.1) } else { kpart(k, d, l, a, b, pa, pb, ta, tb, i, j) }) by {
        assert(is_mi(k, dim, d, l[i]) && is_mi(k, dim, d, l[j]));
        lemma_spos(k, dim, d, l[i], pa); lemma_spos(k, dim, d, l[j], pa); lemma_spos(k, dim, d, l[i], pb); lemma_spos(k, dim, d, l[j], pb);
        let ai = spos(k, d, l[i], pa); let aj = spos(k, d, l[j], pa); let bi = spos(k, d, l[i], pb); let bj = spos(k, d, l[j], pb);
        lemma_cum_step(b, tb, bi, bj);
        if l[i] == mr && l[j] == mc { lemma_sorted_distinct(k, la, ai, na.0); lemma_sorted_distinct(k, la, aj, na.1); lemma_sorted_distinct(k, lb, bi, nb.0); lemma_sorted_distinct(k, lb, bj, nb.1); assert(na == (ai, aj)); assert(nb == (bi, bj)); }
        else if na == (ai, aj) && nb == (bi, bj) { lemma_merge(dim, l[i], mr, pa, pb); lemma_merge(dim, l[j], mc, pa, pb); }
    }
}
pub proof fn lemma_kron_done(k: Kind, d: int, u: Seq<u32>, a: SpMat, b: SpMat, da: Seq<u32>, db: Seq<u32>, r: SpMat)
    requires kron_ok(k, d, a, b, da, db), is_union(u, da, db), is_deg(k, u.len() as int, d, r.n()), r.m() == r.n(), nz_ok(a), nz_ok(b),
        ({ let l = elist(k, u.len() as int, d); forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] r.at(i, j) == kpart(k, d, l, a, b, pofs(u, da), pofs(u, db), a.nz().len() as int, -1, i, j) })
    ensures kron_mat(k, d, u, a, b, da, db, r)
{
    reveal(kpart); let l = elist(k, u.len() as int, d); let pa = pofs(u, da); let pb = pofs(u, db); lemma_pofs(k, u, da); lemma_pofs(k, u, db);
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] r.at(i, j) == mcoef(k, da.len() as int, d, ent_sp(a), gext(l[i], u, da), gext(l[j], u, da)) * mcoef(k, db.len() as int, d, ent_sp(b), gext(l[i], u, db), gext(l[j], u, db)) by {
        assert(is_mi(k, u.len() as int, d, l[i]) && is_mi(k, u.len() as int, d, l[j]));
        lemma_spos(k, u.len() as int, d, l[i], pa); lemma_spos(k, u.len() as int, d, l[j], pa); lemma_spos(k, u.len() as int, d, l[i], pb); lemma_spos(k, u.len() as int, d, l[j], pb);
        lemma_cum_full(a, spos(k, d, l[i], pa), spos(k, d, l[j], pa));
    }
}
// ---- several matrices, each in its own directions
pub open spec fn mdirs_ok(k: Kind, d: int, dirs: Seq<Seq<u32>>) -> bool {
    &&& 1 <= dirs.len() < 0x1_0000_0000 && okd(k, tdim(dirs), d)
    &&& forall|j: int| 0 <= j < dirs.len() ==> 1 <= (#[trigger] dirs[j]).len() && sinc(dirs[j]) && forall|t: int| 0 <= t < dirs[j].len() ==> #[trigger] dirs[j][t] < tdim(dirs)
    &&& forall|i: int, j: int| 0 <= i < j < dirs.len() ==> disj(#[trigger] dirs[i], #[trigger] dirs[j])
}
pub open spec fn pmc(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, x: MI, y: MI, n: int) -> real decreases n {
    if n <= 0 { 1real } else { pmc(k, d, es, dirs, x, y, n - 1) * mcoef(k, dirs[n - 1].len() as int, d, es[n - 1], extr(x, dirs[n - 1]), extr(y, dirs[n - 1])) }
}
pub open spec fn es_r2(v: Seq<Vec<Vec<R>>>) -> Seq<Ent> { Seq::new(v.len(), |j: int| ent_r2(v[j])) }
pub open spec fn es_sp(v: Seq<SpMat>) -> Seq<Ent> { Seq::new(v.len(), |j: int| ent_sp(v[j])) }
pub open spec fn mats_in_r2(k: Kind, d: int, dirs: Seq<Seq<u32>>, v: Seq<Vec<Vec<R>>>) -> bool { v.len() == dirs.len() && forall|j: int| 0 <= j < v.len() ==> wf_r2(#[trigger] v[j]) && nr_r2(v[j]) == nc_r2(v[j]) && is_deg(k, dirs[j].len() as int, d, nr_r2(v[j])) }
pub open spec fn mats_in_sp(k: Kind, d: int, dirs: Seq<Seq<u32>>, v: Seq<SpMat>) -> bool { v.len() == dirs.len() && forall|j: int| 0 <= j < v.len() ==> wf_sp(#[trigger] v[j]) && nr_sp(v[j]) == nc_sp(v[j]) && is_deg(k, dirs[j].len() as int, d, nr_sp(v[j])) }
pub open spec fn mats_out(k: Kind, d: int, dirs: Seq<Seq<u32>>, es: Seq<Ent>, nr: int, nc: int, e: Ent) -> bool {
    let l = elist(k, tdim(dirs), d);
    &&& is_deg(k, tdim(dirs), d, nr) && nr == nc
    &&& forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc ==> #[trigger] e(i, j) == pmc(k, d, es, dirs, l[i], l[j], dirs.len() as int)
}
pub open spec fn in_any(dirs: Seq<Seq<u32>>, n: int, x: int) -> bool { exists|j: int| 0 <= j < n && in_seq(#[trigger] dirs[j], x) }
pub open spec fn tpre(dirs: Seq<Seq<u32>>, n: int, u: Seq<u32>) -> bool {
    &&& sinc(u) && u.len() == sumlen(dirs, n) && forall|j: int| 0 <= j < n ==> subseq(#[trigger] dirs[j], u)
    &&& forall|p: int| 0 <= p < u.len() ==> in_any(dirs, n, #[trigger] u[p] as int)
}
pub open spec fn gpm(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, u: Seq<u32>, x: MI, y: MI, n: int) -> real decreases n {
    if n <= 0 { 1real } else { gpm(k, d, es, dirs, u, x, y, n - 1) * mcoef(k, dirs[n - 1].len() as int, d, es[n - 1], gext(x, u, dirs[n - 1]), gext(y, u, dirs[n - 1])) }
}
pub open spec fn tstate(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, n: int, u: Seq<u32>, r: SpMat) -> bool {
    let l = elist(k, u.len() as int, d);
    &&& tpre(dirs, n, u) && is_deg(k, u.len() as int, d, r.n()) && r.m() == r.n()
    &&& forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] r.at(i, j) == gpm(k, d, es, dirs, u, l[i], l[j], n)
}
// b holds the matrix e
pub open spec fn holds(k: Kind, dim: int, d: int, e: Ent, b: SpMat) -> bool { is_deg(k, dim, d, b.n()) && b.n() == b.m() && forall|i: int, j: int| 0 <= i < b.n() && 0 <= j < b.n() ==> #[trigger] b.at(i, j) == e(i, j) }
pub proof fn lemma_mcoef_at(k: Kind, dim: int, d: int, e: Ent, i: int, j: int) requires valid_list(k, dim, d, elist(k, dim, d)), 0 <= i < elist(k, dim, d).len(), 0 <= j < elist(k, dim, d).len()
    ensures mcoef(k, dim, d, e, elist(k, dim, d)[i], elist(k, dim, d)[j]) == e(i, j)
{ let l = elist(k, dim, d); lemma_pos(k, l, i); lemma_pos(k, l, j); assert(has_to(l, l.len() as int, l[i])); assert(has_to(l, l.len() as int, l[j])); }
pub proof fn lemma_mcoef_eq(k: Kind, dim: int, d: int, e: Ent, b: SpMat, x: MI, y: MI) requires holds(k, dim, d, e, b) ensures mcoef(k, dim, d, ent_sp(b), x, y) == mcoef(k, dim, d, e, x, y)
{
    let l = elist(k, dim, d); let n = l.len() as int;
    if has_to(l, n, x) && has_to(l, n, y) { assert(l.contains(x)); assert(l.contains(y)); lemma_pos_of(k, l, x); lemma_pos_of(k, l, y); assert(b.at(pos(l, x), pos(l, y)) == e(pos(l, x), pos(l, y))); }
}
pub proof fn lemma_gext_full(u: Seq<u32>, m: MI) requires sinc(u), m.len() == u.len(), u.len() < 0x1_0000_0000 ensures gext(m, u, u) == m
{ assert forall|i: int| 0 <= i < m.len() implies gext(m, u, u)[i] == m[i] by { lemma_dpos(u, i); } assert(gext(m, u, u) =~= m); }
pub proof fn lemma_gext_gext(k: Kind, v: Seq<u32>, u: Seq<u32>, s: Seq<u32>, m: MI)
    requires sinc(v), sinc(u), sinc(s), subseq(u, v), subseq(s, u), v.len() < 0x1_0000_0000, m.len() == v.len() ensures gext(gext(m, v, u), u, s) == gext(m, v, s), subseq(s, v)
{
    lemma_ss(s, u, v); lemma_sublen(u, v); lemma_pofs(k, v, u); lemma_pofs(k, u, s); lemma_pofs(k, v, s);
    assert forall|i: int| 0 <= i < s.len() implies gext(gext(m, v, u), u, s)[i] == gext(m, v, s)[i] by {
        let a = pofs(u, s)[i] as int; assert(u[a] == s[i]); let b = pofs(v, u)[a] as int; assert(v[b] == s[i]); let c = pofs(v, s)[i] as int; assert(v[c] == s[i]); lemma_dpos(v, b); lemma_dpos(v, c);
    }
    assert(gext(gext(m, v, u), u, s) =~= gext(m, v, s));
}
pub proof fn lemma_ss(s: Seq<u32>, u: Seq<u32>, v: Seq<u32>) requires subseq(s, u), subseq(u, v) ensures subseq(s, v)
{ assert forall|i: int| 0 <= i < s.len() implies in_seq(v, #[trigger] s[i] as int) by { assert(in_seq(u, s[i] as int)); let t = dpos(u, s[i] as int); assert(in_seq(v, u[t] as int)); } }
// a strictly increasing sub-sequence is not longer
pub proof fn lemma_sublen(u: Seq<u32>, v: Seq<u32>) requires sinc(u), sinc(v), subseq(u, v) ensures u.len() <= v.len() decreases v.len()
{
    if u.len() > 0 {
        let n = u.len() - 1; assert(in_seq(v, u[n] as int)); let m = dpos(v, u[n] as int);
        let a = u.subrange(0, n); let b = v.subrange(0, m);
        assert forall|i: int| 0 <= i < a.len() implies in_seq(b, #[trigger] a[i] as int) by { assert(u[i] < u[n]); assert(in_seq(v, u[i] as int)); let t = dpos(v, u[i] as int); if t > m { assert(v[m] < v[t]); } assert(b[t] == u[i]); }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] < #[trigger] a[j] by { assert(u[i] < u[j]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] < #[trigger] b[j] by { assert(v[i] < v[j]); }
        lemma_sublen(a, b);
    }
}
pub proof fn lemma_tm_init(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, r: SpMat) requires mdirs_ok(k, d, dirs), holds(k, dirs[0].len() as int, d, es[0], r) ensures tstate(k, d, es, dirs, 1, dirs[0], r)
{
    let u = dirs[0]; let l = elist(k, u.len() as int, d); lemma_sumlen_mono(dirs, 1, dirs.len() as int); assert(sumlen(dirs, 1) == sumlen(dirs, 0) + u.len());
    assert forall|i: int| 0 <= i < u.len() implies in_seq(u, #[trigger] u[i] as int) by {}
    assert forall|p: int| 0 <= p < u.len() implies in_any(dirs, 1, #[trigger] u[p] as int) by { assert(in_seq(dirs[0], u[p] as int)); }
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] r.at(i, j) == gpm(k, d, es, dirs, u, l[i], l[j], 1) by {
        assert(is_mi(k, u.len() as int, d, l[i]) && is_mi(k, u.len() as int, d, l[j])); lemma_gext_full(u, l[i]); lemma_gext_full(u, l[j]); lemma_mcoef_at(k, u.len() as int, d, es[0], i, j);
        assert(gpm(k, d, es, dirs, u, l[i], l[j], 0) == 1real); let w = es[0](i, j); assert(1real * w == w) by (nonlinear_arith);
        assert(gpm(k, d, es, dirs, u, l[i], l[j], 1) == gpm(k, d, es, dirs, u, l[i], l[j], 0) * mcoef(k, dirs[0].len() as int, d, es[0], gext(l[i], u, dirs[0]), gext(l[j], u, dirs[0])));
    }
}
pub proof fn lemma_tm_ok(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, n: int, u: Seq<u32>, r: SpMat, b: SpMat)
    requires mdirs_ok(k, d, dirs), 1 <= n < dirs.len(), tstate(k, d, es, dirs, n, u, r), holds(k, dirs[n].len() as int, d, es[n], b) ensures kron_ok(k, d, r, b, u, dirs[n])
{
    lemma_sumlen_mono(dirs, n + 1, dirs.len() as int); lemma_sumlen_mono(dirs, 1, n); assert(sumlen(dirs, 1) == sumlen(dirs, 0) + dirs[0].len()); assert(1 <= dirs[0].len()); lemma_ok_sub(k, tdim(dirs), sumlen(dirs, n + 1), d);
    assert forall|p: int, q: int| 0 <= p < u.len() && 0 <= q < dirs[n].len() implies #[trigger] u[p] != #[trigger] dirs[n][q] by {
        assert(in_any(dirs, n, u[p] as int)); let j = choose|j: int| 0 <= j < n && in_seq(#[trigger] dirs[j], u[p] as int); assert(disj(dirs[j], dirs[n])); let t = dpos(dirs[j], u[p] as int); assert(dirs[j][t] != dirs[n][q]);
    }
}
pub proof fn lemma_gpm_ext(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, v: Seq<u32>, u: Seq<u32>, x: MI, y: MI, n: int)
    requires sinc(v), sinc(u), subseq(u, v), v.len() < 0x1_0000_0000, x.len() == v.len(), y.len() == v.len(), 0 <= n, forall|j: int| 0 <= j < n ==> subseq(#[trigger] dirs[j], u) && sinc(dirs[j])
    ensures gpm(k, d, es, dirs, u, gext(x, v, u), gext(y, v, u), n) == gpm(k, d, es, dirs, v, x, y, n) decreases n
{ if n > 0 { lemma_gpm_ext(k, d, es, dirs, v, u, x, y, n - 1); assert(subseq(dirs[n - 1], u)); lemma_gext_gext(k, v, u, dirs[n - 1], x); lemma_gext_gext(k, v, u, dirs[n - 1], y); } }
pub proof fn lemma_tm_entry(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, n: int, u: Seq<u32>, r: SpMat, b: SpMat, v: Seq<u32>, s: SpMat, i: int, j: int)
    requires mdirs_ok(k, d, dirs), 1 <= n < dirs.len(), tstate(k, d, es, dirs, n, u, r), holds(k, dirs[n].len() as int, d, es[n], b), is_union(v, u, dirs[n]), kron_mat(k, d, v, r, b, u, dirs[n], s), 0 <= i < elist(k, v.len() as int, d).len(), 0 <= j < elist(k, v.len() as int, d).len()
    ensures s.at(i, j) == gpm(k, d, es, dirs, v, elist(k, v.len() as int, d)[i], elist(k, v.len() as int, d)[j], n + 1)
{
    lemma_tm_ok(k, d, es, dirs, n, u, r, b);
    let l = elist(k, v.len() as int, d); let lu = elist(k, u.len() as int, d); lemma_pofs(k, v, u);
    assert(is_mi(k, v.len() as int, d, l[i]) && is_mi(k, v.len() as int, d, l[j]));
    let x = gext(l[i], v, u); let y = gext(l[j], v, u); let p = spos(k, d, l[i], pofs(v, u)); let q = spos(k, d, l[j], pofs(v, u));
    lemma_spos(k, v.len() as int, d, l[i], pofs(v, u)); lemma_spos(k, v.len() as int, d, l[j], pofs(v, u)); assert(lu[p] == x && lu[q] == y);
    lemma_mcoef_at(k, u.len() as int, d, ent_sp(r), p, q); assert(r.at(p, q) == gpm(k, d, es, dirs, u, x, y, n)); lemma_gpm_ext(k, d, es, dirs, v, u, l[i], l[j], n);
    lemma_mcoef_eq(k, dirs[n].len() as int, d, es[n], b, gext(l[i], v, dirs[n]), gext(l[j], v, dirs[n]));
}
pub proof fn lemma_tm_step(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, n: int, u: Seq<u32>, r: SpMat, b: SpMat, v: Seq<u32>, s: SpMat)
    requires mdirs_ok(k, d, dirs), 1 <= n < dirs.len(), tstate(k, d, es, dirs, n, u, r), holds(k, dirs[n].len() as int, d, es[n], b), is_union(v, u, dirs[n]), kron_mat(k, d, v, r, b, u, dirs[n], s)
    ensures tstate(k, d, es, dirs, n + 1, v, s)
{
    lemma_tm_ok(k, d, es, dirs, n, u, r, b); lemma_sumlen_mono(dirs, n + 1, dirs.len() as int);
    let l = elist(k, v.len() as int, d); let lu = elist(k, u.len() as int, d); lemma_pofs(k, v, u);
    assert forall|j: int| 0 <= j < n + 1 implies subseq(#[trigger] dirs[j], v) by { if j < n { assert(subseq(dirs[j], u)); lemma_ss(dirs[j], u, v); } }
    assert forall|p: int| 0 <= p < v.len() implies in_any(dirs, n + 1, #[trigger] v[p] as int) by {
        if in_seq(u, v[p] as int) { let t = dpos(u, v[p] as int); assert(in_any(dirs, n, u[t] as int)); let j = choose|j: int| 0 <= j < n && in_seq(#[trigger] dirs[j], u[t] as int); assert(in_seq(dirs[j], v[p] as int)); } else { assert(in_seq(dirs[n], v[p] as int)); }
    }
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] s.at(i, j) == gpm(k, d, es, dirs, v, l[i], l[j], n + 1) by { lemma_tm_entry(k, d, es, dirs, n, u, r, b, v, s, i, j); }
}
pub proof fn lemma_iota(u: Seq<u32>, i: int) requires sinc(u), 0 <= i < u.len(), forall|p: int| 0 <= p < u.len() ==> #[trigger] u[p] < u.len() ensures u[i] == i
{ lemma_iota_lo(u, i); lemma_iota_hi(u, i); }
pub proof fn lemma_iota_lo(u: Seq<u32>, i: int) requires sinc(u), 0 <= i < u.len() ensures u[i] >= i decreases i { if i > 0 { lemma_iota_lo(u, i - 1); assert(u[i - 1] < u[i]); } }
pub proof fn lemma_iota_hi(u: Seq<u32>, i: int) requires sinc(u), 0 <= i < u.len(), forall|p: int| 0 <= p < u.len() ==> #[trigger] u[p] < u.len() ensures u[i] <= i decreases u.len() - i { if i + 1 < u.len() { lemma_iota_hi(u, i + 1); assert(u[i] < u[i + 1]); } }
pub proof fn lemma_tm_done(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, u: Seq<u32>, r: SpMat)
    requires mdirs_ok(k, d, dirs), tstate(k, d, es, dirs, dirs.len() as int, u, r) ensures mats_out(k, d, dirs, es, r.n(), r.m(), ent_sp(r))
{
    let n = dirs.len() as int; let l = elist(k, u.len() as int, d);
    assert forall|p: int| 0 <= p < u.len() implies #[trigger] u[p] < u.len() by { assert(in_any(dirs, n, u[p] as int)); let j = choose|j: int| 0 <= j < n && in_seq(#[trigger] dirs[j], u[p] as int); let t = dpos(dirs[j], u[p] as int); assert(dirs[j][t] < tdim(dirs)); }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == i by { lemma_iota(u, i); }
    assert forall|j: int| 0 <= j < n implies pofs(u, #[trigger] dirs[j]) == dirs[j] by {
        assert forall|t: int| 0 <= t < dirs[j].len() implies pofs(u, dirs[j])[t] == dirs[j][t] by { let q = dirs[j][t] as int; assert(q < tdim(dirs)); assert(u[q] == q); lemma_dpos(u, q); }
        assert(pofs(u, dirs[j]) =~= dirs[j]);
    }
    assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.m() implies #[trigger] ent_sp(r)(i, j) == pmc(k, d, es, dirs, l[i], l[j], n) by { assert(r.at(i, j) == gpm(k, d, es, dirs, u, l[i], l[j], n)); lemma_gpm_pmc(k, d, es, dirs, u, l[i], l[j], n); }
}
pub proof fn lemma_gpm_pmc(k: Kind, d: int, es: Seq<Ent>, dirs: Seq<Seq<u32>>, u: Seq<u32>, x: MI, y: MI, n: int)
    requires forall|j: int| 0 <= j < n ==> pofs(u, #[trigger] dirs[j]) == dirs[j] ensures gpm(k, d, es, dirs, u, x, y, n) == pmc(k, d, es, dirs, x, y, n) decreases n
{ if n > 0 { lemma_gpm_pmc(k, d, es, dirs, u, x, y, n - 1); assert(pofs(u, dirs[n - 1]) == dirs[n - 1]); } }
// ---- one matrix per axis
pub open spec fn pma(es: Seq<Ent>, x: MI, y: MI, n: int) -> real decreases n { if n <= 0 { 1real } else { pma(es, x, y, n - 1) * es[n - 1](x[n - 1] as int, y[n - 1] as int) } }
pub open spec fn maxes_in_r2(k: Kind, d: int, v: Seq<Vec<Vec<R>>>) -> bool { 1 <= v.len() && okd(k, v.len() as int, d) && forall|j: int| 0 <= j < v.len() ==> wf_r2(#[trigger] v[j]) && nr_r2(v[j]) == d + 1 && nc_r2(v[j]) == d + 1 }
pub open spec fn maxes_in_sp(k: Kind, d: int, v: Seq<SpMat>) -> bool { 1 <= v.len() && okd(k, v.len() as int, d) && forall|j: int| 0 <= j < v.len() ==> wf_sp(#[trigger] v[j]) && nr_sp(v[j]) == d + 1 && nc_sp(v[j]) == d + 1 }
pub open spec fn maxes_out(k: Kind, d: int, es: Seq<Ent>, nr: int, nc: int, e: Ent) -> bool {
    let l = elist(k, es.len() as int, d);
    &&& is_deg(k, es.len() as int, d, nr) && nr == nc
    &&& forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc ==> #[trigger] e(i, j) == pma(es, l[i], l[j], es.len() as int)
}
pub proof fn lemma_maxes_ok(k: Kind, d: int, n: int) requires okd(k, n, d) ensures mdirs_ok(k, d, axes(n)), tdim(axes(n)) == n, is_deg(k, 1, d, d + 1)
{
    let ax = axes(n); lemma_axes(n, n); lemma_ok_sub(k, n, 1, d); lemma_deg_1d(k, d);
    assert forall|j: int| 0 <= j < ax.len() implies 1 <= (#[trigger] ax[j]).len() && sinc(ax[j]) && forall|t: int| 0 <= t < ax[j].len() ==> #[trigger] ax[j][t] < tdim(ax) by {}
    assert forall|i: int, j: int| 0 <= i < j < ax.len() implies disj(#[trigger] ax[i], #[trigger] ax[j]) by {}
}
pub proof fn lemma_pma(k: Kind, d: int, es: Seq<Ent>, x: MI, y: MI, n: int) requires okd(k, es.len() as int, d), is_mi(k, es.len() as int, d, x), is_mi(k, es.len() as int, d, y), 0 <= n <= es.len()
    ensures pmc(k, d, es, axes(es.len() as int), x, y, n) == pma(es, x, y, n) decreases n
{
    if n > 0 {
        lemma_pma(k, d, es, x, y, n - 1); let dim = es.len() as int; let ax = axes(dim);
        assert(ax[n - 1] =~= seq![(n - 1) as u32]); assert(extr(x, ax[n - 1]) =~= seq![x[n - 1]]); assert(extr(y, ax[n - 1]) =~= seq![y[n - 1]]);
        lemma_entry_le(k, dim, d, x, n - 1); lemma_entry_le(k, dim, d, y, n - 1); lemma_ok_sub(k, dim, 1, d); lemma_1d(k, d); lemma_mcoef_at(k, 1, d, es[n - 1], x[n - 1] as int, y[n - 1] as int);
    }
}
pub proof fn lemma_maxes_out(k: Kind, d: int, es: Seq<Ent>, nr: int, nc: int, e: Ent) requires okd(k, es.len() as int, d), mats_out(k, d, axes(es.len() as int), es, nr, nc, e) ensures maxes_out(k, d, es, nr, nc, e)
{
    let n = es.len() as int; lemma_axes(n, n); let l = elist(k, n, d);
    assert forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc implies #[trigger] e(i, j) == pma(es, l[i], l[j], n) by { assert(is_mi(k, n, d, l[i]) && is_mi(k, n, d, l[j])); lemma_pma(k, d, es, l[i], l[j], n); }
}
// ---- one matrix, extended by the identity in the other directions
pub open spec fn eq_but(x: MI, y: MI, dir: int, n: int) -> bool { forall|q: int| 0 <= q < n && q != dir ==> #[trigger] x[q] == y[q] }
pub open spec fn is_eye(e: Ent, d: int) -> bool { forall|i: int, j: int| 0 <= i <= d && 0 <= j <= d ==> #[trigger] e(i, j) == (if i == j { 1real } else { 0real }) }
pub proof fn lemma_pma_id(d: int, es: Seq<Ent>, x: MI, y: MI, dir: int, n: int)
    requires 0 <= n <= es.len(), n <= x.len(), n <= y.len(), forall|q: int| 0 <= q < n ==> #[trigger] x[q] <= d && y[q] <= d, forall|q: int| 0 <= q < es.len() && q != dir ==> is_eye(#[trigger] es[q], d)
    ensures pma(es, x, y, n) == (if !eq_but(x, y, dir, n) { 0real } else if 0 <= dir < n { es[dir](x[dir] as int, y[dir] as int) } else { 1real }) decreases n
{
    if n > 0 {
        lemma_pma_id(d, es, x, y, dir, n - 1); assert(x[n - 1] <= d && y[n - 1] <= d);
        if n - 1 != dir { assert(is_eye(es[n - 1], d)); }
        if eq_but(x, y, dir, n) { assert(eq_but(x, y, dir, n - 1)) by { assert forall|q: int| 0 <= q < n - 1 && q != dir implies #[trigger] x[q] == y[q] by {} } }
        else if eq_but(x, y, dir, n - 1) { assert(n - 1 != dir && x[n - 1] != y[n - 1]); }
        let p = pma(es, x, y, n - 1); let w = es[n - 1](x[n - 1] as int, y[n - 1] as int);
        assert(p == 0real ==> p * w == 0real) by (nonlinear_arith); assert(w == 0real ==> p * w == 0real) by (nonlinear_arith); assert(w == 1real ==> p * w == p) by (nonlinear_arith); assert(p == 1real ==> p * w == w) by (nonlinear_arith);
    }
}
