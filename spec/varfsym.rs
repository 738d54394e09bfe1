// ================================================================ variational matrices are symmetric
pub proof fn lemma_fsym(k: int, i: int, j: int) ensures ftrip(k, i, j) == ftrip(k, j, i)
{
    reveal(ftrip);
    let (x, y, z) = (den(k), den(i), den(j)); assert(x * y * z == x * z * y) by (nonlinear_arith);
    assert(fnum(k, i, j) == fnum(k, j, i));
}
pub proof fn lemma_trip_sym(f: u32, k: int, i: int, j: int) requires k >= 0, i >= 0, j >= 0 ensures trip(f, k, i, j) == trip(f, k, j, i)
{ if f == 1 { lemma_fsym(k, i, j); } else { lemma_htrip_sym(k, i, j); } }
pub proof fn lemma_tpr_sym(four: Seq<u32>, m: MI, x: MI, y: MI, n: int) ensures tpr(four, m, x, y, n) == tpr(four, m, y, x, n) decreases n
{ if n > 0 { lemma_tpr_sym(four, m, x, y, n - 1); lemma_trip_sym(four[n - 1], m[n - 1] as int, x[n - 1] as int, y[n - 1] as int); } }
pub proof fn lemma_vsum_sym(t: Tr, x: MI, y: MI, n: int) ensures vsum(t, x, y, n) == vsum(t, y, x, n) decreases n
{ if n > 0 { lemma_vsum_sym(t, x, y, n - 1); lemma_tpr_sym(t.four, elist(t.k, tdm(t), t.d)[n - 1], x, y, tdm(t)); } }
// a matrix that varf may return is symmetric, and any two of them (dense, sparse, nested vectors) have the same entries
pub proof fn lemma_varf_sym(t: Tr, degree: int, nr: int, nc: int, e: Ent) requires vf_out(t, degree, nr, nc, e) ensures forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc ==> #[trigger] e(i, j) == e(j, i)
{ let l = elist(t.k, tdm(t), degree); assert forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc implies #[trigger] e(i, j) == e(j, i) by { lemma_vsum_sym(t, l[i], l[j], elist(t.k, tdm(t), t.d).len() as int); assert(e(j, i) == vsum(t, l[j], l[i], elist(t.k, tdm(t), t.d).len() as int)); } }
pub proof fn lemma_varf_same(t: Tr, degree: int, nr: int, nc: int, e: Ent, nr2: int, nc2: int, e2: Ent) requires vf_out(t, degree, nr, nc, e), vf_out(t, degree, nr2, nc2, e2) ensures nr == nr2, nc == nc2, forall|i: int, j: int| 0 <= i < nr && 0 <= j < nc ==> #[trigger] e(i, j) == e2(i, j) {}
