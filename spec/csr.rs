pub open spec fn in_row(indptr: Seq<u32>, i: int, j: int) -> bool { indptr[i] <= j < indptr[i + 1] }
pub open spec fn csr_ok(n: int, indices: Seq<u32>, indptr: Seq<u32>, size1: int, size2: int) -> bool {
    &&& indptr.len() == size1 + 1 && indices.len() == n && size1 < 0xffff_ffff
    &&& forall|i: int| 0 <= i <= size1 ==> #[trigger] indptr[i] <= n
    &&& forall|i: int| 0 <= i < size1 ==> #[trigger] indptr[i] <= indptr[i + 1]
    &&& forall|j: int| 0 <= j < n ==> #[trigger] indices[j] < size2
    &&& forall|i: int, s: int, t: int| 0 <= i < size1 && #[trigger] in_row(indptr, i, s) && #[trigger] in_row(indptr, i, t) && s != t ==> indices[s] != indices[t]
}
pub open spec fn rcv_to(r: Seq<Vec<R>>, a: SpMat, n: int) -> bool {
    &&& r.len() == 3 && forall|c: int| 0 <= c < 3 ==> (#[trigger] r[c])@.len() == a.nz().len()
    &&& forall|t: int| 0 <= t < n ==> r[0]@[t].v() == ireal((#[trigger] a.nz()[t]).0) && r[1]@[t].v() == ireal(a.nz()[t].1) && r[2]@[t].v() == a.at(a.nz()[t].0, a.nz()[t].1)
}
