// quadratures: nodes and weights per direction
pub open spec fn wfq(q: QuadV) -> bool { wfp(q.position) && q.nodes.len() == q.position.dirs.len() && q.weights.len() == q.position.dirs.len() }
pub open spec fn set_at(nodes: Seq<Seq<real>>, weights: Seq<Seq<real>>, i: int, q: QuadV, d: int) -> bool { nodes[i] == q.nodes[idx(q.position.dirs, d)] && weights[i] == q.weights[idx(q.position.dirs, d)] }
pub open spec fn pick_at(r: QuadV, i: int, q: QuadV, d: int) -> bool { set_at(r.nodes, r.weights, i, q, d) }
pub open spec fn positions(s: Seq<QuadV>) -> Seq<PosV> { Seq::new(s.len(), |i: int| s[i].position) }
pub open spec fn eprod(s: Seq<QuadV>, k: int) -> ExprV decreases k { if k <= 0 { eint(1) } else { emul(eprod(s, k - 1), s[k - 1].factor.sym) } }
proof fn lem_one(s: Seq<QuadV>, i: int, d: int)
    requires 0 <= i < s.len(), s[i].position.dirs.contains(d), nin(positions(s), s.len() as int, d) <= 1
    ensures nin(positions(s), s.len() as int, d) == 1
{ assert(positions(s)[i].dirs.contains(d)); lem_nin_at(positions(s), i, s.len() as int, d); }
proof fn lem_two(s: Seq<QuadV>, i: int, j: int, d: int)
    requires 0 <= i < j < s.len(), s[i].position.dirs.contains(d), nin(positions(s), s.len() as int, d) <= 1
    ensures !s[j].position.dirs.contains(d)
{ if s[j].position.dirs.contains(d) { assert(positions(s)[i].dirs.contains(d)); assert(positions(s)[j].dirs.contains(d)); lem_nin_two(positions(s), i, j, s.len() as int, d); } }
proof fn lem_ne(s: Seq<int>, a: int, b: int)
    requires s.contains(a), s.contains(b), a != b
    ensures 0 <= idx(s, a) < s.len(), 0 <= idx(s, b) < s.len(), idx(s, a) != idx(s, b)
{ lem_first(s, a); lem_first(s, b); }
proof fn lem_first(s: Seq<int>, a: int)
    requires s.contains(a)
    ensures 0 <= idx(s, a) < s.len(), s[idx(s, a)] == a
{
    let k = choose|k: int| 0 <= k < s.len() && s[k] == a;
    lem_least(s, a, k);
}
proof fn lem_least(s: Seq<int>, a: int, k: int)
    requires 0 <= k < s.len(), s[k] == a
    ensures exists|i: int| 0 <= i < s.len() && s[i] == a && forall|j: int| 0 <= j < i ==> s[j] != a
    decreases k
{ if exists|j: int| 0 <= j < k && s[j] == a { let j = choose|j: int| 0 <= j < k && s[j] == a; lem_least(s, a, j); } }
