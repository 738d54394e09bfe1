// ================================================================ tensor grids, row-major (last coordinate fastest)
pub open spec fn gprod(b: MI, k: int) -> int decreases b.len() - k { if k < 0 || k >= b.len() { 1 } else { b[k] as int * gprod(b, k + 1) } }
pub open spec fn grank(b: MI, m: MI, k: int) -> int decreases b.len() - k { if k < 0 || k >= b.len() { 0 } else { m[k] as int * gprod(b, k + 1) + grank(b, m, k + 1) } }
pub open spec fn ingrid(b: MI, m: MI) -> bool { m.len() == b.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] < b[i] }
pub open spec fn grid_ok(b: MI) -> bool { 1 <= b.len() < 0x8000_0000 && gprod(b, 0) < 0x1_0000_0000 && forall|i: int| 0 <= i < b.len() ==> 1 <= #[trigger] b[i] <= 0x7fff_ffff }
pub open spec fn git_ok(it: MIter) -> bool { it.dim as int == it.upper_bounds@.len() && grid_ok(it.upper_bounds@) && ingrid(it.upper_bounds@, it.multi_index@) }
// the list of all grid points in order
pub open spec fn grid_list(b: MI, l: Seq<MI>) -> bool { l.len() == gprod(b, 0) && forall|i: int| 0 <= i < l.len() ==> ingrid(b, #[trigger] l[i]) && grank(b, l[i], 0) == i }

pub proof fn lemma_gprod_pos(b: MI, k: int) requires 0 <= k, forall|i: int| 0 <= i < b.len() ==> 1 <= #[trigger] b[i] ensures gprod(b, k) >= 1 decreases b.len() - k
{ if k < b.len() { lemma_gprod_pos(b, k + 1); let x = b[k] as int; let y = gprod(b, k + 1); assert(x * y >= 1) by (nonlinear_arith) requires x >= 1, y >= 1; } }
pub proof fn lemma_gprod_le(b: MI, k: int) requires 0 <= k, forall|i: int| 0 <= i < b.len() ==> 1 <= #[trigger] b[i] ensures gprod(b, k) <= gprod(b, 0) decreases k
{ if k > 0 { lemma_gprod_le(b, k - 1); lemma_gprod_pos(b, k); if k - 1 < b.len() { let x = b[k - 1] as int; let y = gprod(b, k); assert(x * y >= y) by (nonlinear_arith) requires x >= 1, y >= 1; } } }
pub proof fn lemma_grank_bound(b: MI, m: MI, k: int) requires 0 <= k, ingrid(b, m), forall|i: int| 0 <= i < b.len() ==> 1 <= #[trigger] b[i] ensures 0 <= grank(b, m, k) < gprod(b, k) decreases b.len() - k
{
    if k < b.len() {
        lemma_grank_bound(b, m, k + 1); assert(m[k] < b[k]);
        let x = m[k] as int; let y = b[k] as int; let p = gprod(b, k + 1); let r = grank(b, m, k + 1);
        assert(0 <= x * p + r < y * p) by (nonlinear_arith) requires 0 <= x, x + 1 <= y, 0 <= r < p;
    }
}
pub proof fn lemma_grank_inj(b: MI, m: MI, n: MI, k: int) requires 0 <= k, ingrid(b, m), ingrid(b, n), grank(b, m, k) == grank(b, n, k), forall|i: int| 0 <= i < b.len() ==> 1 <= #[trigger] b[i]
    ensures forall|i: int| k <= i < b.len() ==> m[i] == n[i] decreases b.len() - k
{
    if k < b.len() {
        lemma_grank_bound(b, m, k + 1); lemma_grank_bound(b, n, k + 1);
        let x = m[k] as int; let y = n[k] as int; let p = gprod(b, k + 1); let r = grank(b, m, k + 1); let s = grank(b, n, k + 1);
        assert(x == y) by (nonlinear_arith) requires x * p + r == y * p + s, 0 <= r < p, 0 <= s < p;
        lemma_grank_inj(b, m, n, k + 1);
    }
}
pub proof fn lemma_grank_max(b: MI, m: MI, k: int) requires 0 <= k, m.len() == b.len(), forall|i: int| k <= i < b.len() ==> m[i] as int == b[i] as int - 1
    ensures grank(b, m, k) == gprod(b, k) - 1 decreases b.len() - k
{ if k < b.len() { lemma_grank_max(b, m, k + 1); let x = b[k] as int; let p = gprod(b, k + 1); assert((x - 1) * p + (p - 1) == x * p - 1) by (nonlinear_arith); } }
pub proof fn lemma_grank_zero(b: MI, m: MI, k: int) requires 0 <= k, m.len() == b.len(), forall|i: int| k <= i < b.len() ==> m[i] == 0 ensures grank(b, m, k) == 0 decreases b.len() - k
{ if k < b.len() { lemma_grank_zero(b, m, k + 1); } }
pub proof fn lemma_grank_prefix(b: MI, m: MI, n: MI, k: int, i: int) requires 0 <= k <= i, m.len() == b.len(), n.len() == b.len(), forall|j: int| k <= j < i ==> m[j] == n[j]
    ensures grank(b, n, k) - grank(b, m, k) == grank(b, n, i) - grank(b, m, i) decreases i - k
{ if k < i && k < b.len() { lemma_grank_prefix(b, m, n, k + 1, i); } else if k < i { assert(grank(b, n, k) == 0 && grank(b, m, k) == 0); assert(grank(b, n, i) == 0 && grank(b, m, i) == 0); } }
// the successor: the last entry that is not at its bound goes up by one, those after it return to zero
pub open spec fn grid_next(b: MI, m: MI, i: int, n: MI) -> bool {
    &&& 0 <= i < b.len() && n.len() == b.len() && n[i] == m[i] + 1 && m[i] + 1 < b[i]
    &&& forall|j: int| 0 <= j < i ==> n[j] == m[j]
    &&& forall|j: int| i < j < b.len() ==> #[trigger] m[j] as int == b[j] as int - 1
    &&& forall|j: int| i < j < b.len() ==> #[trigger] n[j] == 0
}
pub proof fn lemma_grid_next(b: MI, m: MI, i: int, n: MI) requires ingrid(b, m), grid_ok(b), grid_next(b, m, i, n) ensures ingrid(b, n), grank(b, n, 0) == grank(b, m, 0) + 1
{
    lemma_grank_max(b, m, i + 1); lemma_grank_zero(b, n, i + 1); lemma_grank_prefix(b, m, n, 0, i);
    let x = m[i] as int; let p = gprod(b, i + 1); assert((x + 1) * p == x * p + p) by (nonlinear_arith);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] n[j] < b[j] by { if j < i { assert(m[j] < b[j]); } else if j > i { assert(n[j] == 0); assert(1 <= b[j]); } }
}
// every point of the grid is listed, at its rank
pub proof fn lemma_grid_complete(b: MI, l: Seq<MI>, m: MI) requires grid_ok(b), grid_list(b, l), ingrid(b, m) ensures 0 <= grank(b, m, 0) < l.len(), l[grank(b, m, 0)] == m
{ lemma_grank_bound(b, m, 0); let r = grank(b, m, 0); lemma_grank_inj(b, l[r], m, 0); assert(l[r] =~= m); }
