// positions: per-direction data
pub open spec fn wfp(p: PosV) -> bool { p.dim == p.dirs.len() && p.mean.len() == p.dirs.len() && squarem(p.cov, p.dirs.len() as int) && p.types.len() == p.dirs.len() && p.dirs.no_duplicates() }
// direction d has in r the mean, variance and type it has in p
pub open spec fn same_at(r: PosV, p: PosV, d: int) -> bool { r.mean[idx(r.dirs, d)] == p.mean[idx(p.dirs, d)] && r.cov[idx(r.dirs, d)][idx(r.dirs, d)] == p.cov[idx(p.dirs, d)][idx(p.dirs, d)] && r.types[idx(r.dirs, d)] == p.types[idx(p.dirs, d)] }
pub open spec fn agree_at(r: PosV, p: PosV, d: int) -> bool { r.mean[idx(r.dirs, d)] == p.mean[idx(p.dirs, d)] && r.cov[idx(r.dirs, d)][idx(r.dirs, d)] == p.cov[idx(p.dirs, d)][idx(p.dirs, d)] }
proof fn lem_idx(s: Seq<int>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len()
    ensures idx(s, s[i]) == i
{ }
pub open spec fn owner(p: PosV, q: PosV, d: int) -> PosV { if p.dirs.contains(d) { p } else { q } }
pub open spec fn oidx(p: PosV, q: PosV, d: int) -> int { idx(owner(p, q, d).dirs, d) }
// number of the first k arguments that have direction d
pub open spec fn nin(s: Seq<PosV>, k: int, d: int) -> int decreases k { if k <= 0 { 0 } else { nin(s, k - 1, d) + if s[k - 1].dirs.contains(d) { 1int } else { 0int } } }
pub open spec fn has(s: Seq<int>, k: int, d: int) -> int { if s.take(k).contains(d) { 1 } else { 0 } }
proof fn lem_nin(s: Seq<PosV>, k: int, n: int, d: int)
    requires 0 <= k <= n
    ensures 0 <= nin(s, k, d) <= nin(s, n, d), nin(s, k, d) <= k
    decreases n
{ if k < n { lem_nin(s, k, n - 1, d); } else if k > 0 { lem_nin(s, k - 1, k - 1, d); } }
proof fn lem_nin_at(s: Seq<PosV>, i: int, n: int, d: int)
    requires 0 <= i < n, s[i].dirs.contains(d)
    ensures nin(s, n, d) >= 1
{ lem_nin(s, i + 1, n, d); lem_nin(s, 0, i, d); }
proof fn lem_nin_two(s: Seq<PosV>, i: int, j: int, n: int, d: int)
    requires 0 <= i < j < n, s[i].dirs.contains(d), s[j].dirs.contains(d)
    ensures nin(s, n, d) >= 2
{ lem_nin_at(s, i, j, d); lem_nin(s, j + 1, n, d); }
proof fn lem_cnt_push(s: Seq<int>, x: int)
    ensures forall|y: int| #[trigger] cnt(s.push(x), y) == cnt(s, y) + if x == y { 1int } else { 0int }
{ assert(s.push(x).drop_last() =~= s); }
proof fn lem_has(s: Seq<int>, k: int)
    requires s.no_duplicates(), 0 <= k < s.len()
    ensures forall|y: int| #[trigger] has(s, k + 1, y) == has(s, k, y) + if s[k] == y { 1int } else { 0int }
{
    let a = s.take(k); let b = s.take(k + 1);
    assert forall|y: int| #[trigger] has(s, k + 1, y) == has(s, k, y) + if s[k] == y { 1int } else { 0int } by {
        if b.contains(y) { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; if i < k { assert(a[i] == y); } }
        if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(b[i] == y); assert(s[i] != s[k]); }
        if s[k] == y { assert(b[k] == y); }
    }
}
// the tensor product of the first k arguments
pub open spec fn tensored(r: PosV, s: Seq<PosV>, k: int) -> bool {
    &&& wfp(r) && r.is_diag
    &&& forall|d: int| #[trigger] r.dirs.contains(d) <==> nin(s, k, d) == 1
    &&& forall|d: int, i: int| 0 <= i < k && #[trigger] s[i].dirs.contains(d) && r.dirs.contains(d) ==> same_at(r, s[i], d)
    &&& forall|d: int, i: int, j: int| 0 <= i < j < k && #[trigger] s[i].dirs.contains(d) && #[trigger] s[j].dirs.contains(d) ==> agree_at(s[i], s[j], d)
}
proof fn lem_tens1(s: Seq<PosV>)
    requires s.len() > 0, wfp(s[0]), s[0].is_diag
    ensures tensored(s[0], s, 1)
{ assert forall|d: int| #[trigger] s[0].dirs.contains(d) <==> nin(s, 1, d) == 1 by { assert(nin(s, 0, d) == 0); } }
proof fn lem_tens(r: PosV, q: PosV, s: Seq<PosV>, k: int)
    requires tensored(r, s, k), 1 <= k < s.len(), wfp(q), q.is_diag, forall|d: int| nin(s, s.len() as int, d) <= 2,
        forall|d: int| #[trigger] q.dirs.contains(d) <==> r.dirs.contains(d) != s[k].dirs.contains(d),
        forall|d: int| #[trigger] q.dirs.contains(d) && r.dirs.contains(d) ==> same_at(q, r, d),
        forall|d: int| #[trigger] q.dirs.contains(d) && s[k].dirs.contains(d) ==> same_at(q, s[k], d),
        forall|d: int| #[trigger] r.dirs.contains(d) && s[k].dirs.contains(d) ==> agree_at(r, s[k], d),
    ensures tensored(q, s, k + 1)
{
    assert forall|d: int| #[trigger] q.dirs.contains(d) <==> nin(s, k + 1, d) == 1 by {
        assert(nin(s, s.len() as int, d) <= 2); lem_nin(s, k + 1, s.len() as int, d); lem_nin(s, k, k, d); assert(r.dirs.contains(d) <==> nin(s, k, d) == 1);
    }
    assert forall|d: int, i: int| 0 <= i < k + 1 && #[trigger] s[i].dirs.contains(d) && q.dirs.contains(d) implies same_at(q, s[i], d) by {
        if i < k {
            lem_nin_at(s, i, k, d); assert(nin(s, s.len() as int, d) <= 2); lem_nin(s, k + 1, s.len() as int, d);
            assert(r.dirs.contains(d) <==> nin(s, k, d) == 1);
        }
    }
    assert forall|d: int, i: int, j: int| 0 <= i < j < k + 1 && #[trigger] s[i].dirs.contains(d) && #[trigger] s[j].dirs.contains(d) implies agree_at(s[i], s[j], d) by {
        if j == k {
            lem_nin_at(s, i, k, d); assert(nin(s, s.len() as int, d) <= 2); lem_nin(s, k + 1, s.len() as int, d);
            assert(r.dirs.contains(d) <==> nin(s, k, d) == 1);
        }
    }
}
