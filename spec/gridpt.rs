// numbers of points per direction, in the grid's row-major order
pub open spec fn npts(nodes: Seq<Seq<R>>) -> MI { Seq::new(nodes.len(), |q: int| nodes[q].len() as u32) }
pub open spec fn gpt(b: MI, i: int) -> MI { choose|g: MI| ingrid(b, g) && grank(b, g, 0) == i }
pub proof fn lemma_gpt(b: MI, g: MI) requires grid_ok(b), ingrid(b, g) ensures gpt(b, grank(b, g, 0)) == g
{ let h = gpt(b, grank(b, g, 0)); assert(ingrid(b, h) && grank(b, h, 0) == grank(b, g, 0)); lemma_grank_inj(b, h, g, 0); assert(h =~= g); }
// product from the left
pub open spec fn lprod(b: MI, n: int) -> int decreases n { if n <= 0 { 1 } else { lprod(b, n - 1) * b[n - 1] as int } }
pub proof fn lemma_lprod(b: MI, n: int) requires 0 <= n <= b.len() ensures lprod(b, n) * gprod(b, n) == gprod(b, 0) decreases n
{
    if n > 0 { lemma_lprod(b, n - 1); let (x, y, z) = (lprod(b, n - 1), b[n - 1] as int, gprod(b, n)); assert((x * y) * z == x * (y * z)) by (nonlinear_arith); } else { assert(1 * gprod(b, 0) == gprod(b, 0)); }
}
pub proof fn lemma_lprod_le(b: MI, n: int) requires grid_ok(b), 0 <= n <= b.len() ensures 1 <= lprod(b, n) <= gprod(b, 0), n == b.len() ==> lprod(b, n) == gprod(b, 0)
{
    lemma_lprod(b, n); lemma_gprod_pos(b, n); lemma_lprod_pos(b, n); let (x, y) = (lprod(b, n), gprod(b, n));
    assert(x <= x * y) by (nonlinear_arith) requires x >= 1, y >= 1;
    if n == b.len() { assert(y == 1); assert(x * 1 == x); }
}
pub proof fn lemma_lprod_pos(b: MI, n: int) requires grid_ok(b), 0 <= n <= b.len() ensures lprod(b, n) >= 1 decreases n
{ if n > 0 { lemma_lprod_pos(b, n - 1); let (x, y) = (lprod(b, n - 1), b[n - 1] as int); assert(x * y >= 1) by (nonlinear_arith) requires x >= 1, y >= 1; } }
